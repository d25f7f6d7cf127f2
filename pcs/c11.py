"""C11: unrecognised option values are rejected (interpretation with an unrecognised constant: no normal exit)."""
from .domain import Domain
from .values import *
from .interp import Program, Interp
from .scen import *
from .report import Broken

RULES = ["for every string option of every public function, constructor and method (a parameter with a string default or a documented option name): with an "
         "unrecognised value (one that resembles none, and, for each documented one, a longer, a cut and a shortened one), all other arguments unknown, no path of the call (constructor options: of construction followed by fit) returns normally, and "
         "every exit is ValueError. (optimizer: every numerical search that is started is given the requested solver; closed-form and degenerate paths start none)"]
EXPLAIN = ("The option is bound to a constant that equals no documented value, so every comparison with it is decided; all other arguments range over "
           "their whole kind (given and omitted). Remaining normal exits are fall-throughs.")
ASSUME = ["scipy.optimize.minimize raises ValueError for an unknown solver name"]
BOGUS = "__no_such_option__"
NOT_OPTIONS = {"formula", "sep", "name", "title", "label", "color", "x", "param_names", "fit_kwargs"}
EXTRA = {("descriptive.circ_quantile", "type"): 9173}
# settings of the other arguments under which the option is consulted as documented (a custom cycle may carry its own unit name;
# fit_kwargs may carry its own 'method'; MoCD's default distribution stands for the supported ones)
BESIDE = {("base.Circular", "unit"): {"full_cycle": "omit"}, ("base.Axial", "unit"): {"full_cycle": "omit"},
          ("clustering.MoCD", "fit_method"): {"fit_kwargs": "omit", "distribution": "omit"}}
CTOR = {"clustering.MoCD": {"distribution": "omit", "param_names": "omit"}}
OTHER_EXC = {"KeyError", "UnboundLocalError", "NameError", "AttributeError", "IndexError"}


class Opt(Domain):
    def __init__(self):
        super().__init__()
        self.val = BOGUS

    other_solver = False

    def ext_pre(self, name, args, kw, node):
        if name == "scipy.optimize.minimize":
            m = kw.get("method")
            if not (m is not None and any(isinstance(a, C) and a.v == self.val for a in m.atoms)):
                self.other_solver = True
        if name in ("scipy.optimize.minimize", "scipy.optimize.minimize_scalar", "scipy.optimize.root", "scipy.optimize.root_scalar"):
            m = kw.get("method")
            if m is not None and m.only(C) and any(isinstance(a, C) and a.v == self.val for a in m.atoms) and len(m.atoms) == 1:
                self.I.do_raise("ValueError", node)
                from .interp import Dead
                raise Dead()
        return None


def string_options(e, f):
    import ast
    a = f.node.args
    ann = {p.arg: ast.unparse(p.annotation) for p in a.posonlyargs + a.args + a.kwonlyargs if p.annotation is not None}
    out = []
    for n, d, ko in func_params(f):
        if n in NOT_OPTIONS or n == "self":
            continue
        sd = d is not None and any(isinstance(x, C) and isinstance(x.v, str) for x in d.atoms)
        if sd or role_of(e, n) == "str" or "Literal" in ann.get(n, "") or (e, n) in EXTRA:
            out.append(n)
    return out


def opt(v, n):
    return V([C(v)], frozenset([n]))


def documented(prog):
    """option name -> the values the package compares it with, uses as its default or annotates it with; and every string of the package"""
    import ast
    vals, every = {}, set()

    def strs(n):
        return {x.value for x in ast.walk(n) if isinstance(x, ast.Constant) and isinstance(x.value, str) and 0 < len(x.value) < 25}

    def names(n):
        return {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(n) if isinstance(x, (ast.Name, ast.Attribute))}
    for t in prog.trees.values():
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                every.add(n.value)
            if isinstance(n, ast.Compare) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("startswith", "endswith", "get"):
                for k in names(n):
                    vals.setdefault(k, set()).update(strs(n))
            if isinstance(n, ast.arguments):
                ps = n.posonlyargs + n.args
                for p, d in list(zip(ps[len(ps) - len(n.defaults):], n.defaults)) + list(zip(n.kwonlyargs, n.kw_defaults)):
                    if isinstance(d, ast.Constant) and isinstance(d.value, str):
                        vals.setdefault(p.arg, set()).add(d.value)
                for p in ps + n.kwonlyargs:
                    if p.annotation is not None and "Literal" in ast.unparse(p.annotation):
                        vals.setdefault(p.arg, set()).update(strs(p.annotation))
    return vals, every


def unknowns(e, n, docs):
    """values that are none of the documented ones"""
    if (e, n) in EXTRA:
        return [EXTRA[(e, n)], 0, 10, -7]
    n = n.split("'")[1] if "'" in n else n
    vals, every = docs
    out = [BOGUS]
    for v in sorted(vals.get(n, ())):
        for w in (v + "x", v[:-1], v[:1], v[1:], v + "-" + v):
            if w and w not in every and w not in out:
                out.append(w)
    return out


def fitted_with(I, c, spec):
    cache = I.__dict__.setdefault("c11cache", {})
    if c in cache:
        st, v = cache[c]
        I.st = st.copy()
        return v
    o = construct(I, c, "any", CTOR.get(c))
    if spec["fit"]:
        method(I, o, "fit", c, "any")
    cache[c] = (I.st.copy(), o)
    return o


def cases(I, d):
    """(label, option, thunk)"""
    out = []
    for e in FUNCS:
        f = get_func(I, e)
        if isinstance(f, ClassA):
            continue
        for n in string_options(e, f):
            out.append((e, n, lambda I, e=e, f=f, n=n: I.call_func(f, [], build_args(I, e, f, "any", {n: opt(d.val, n)}), None)))
    for c, spec in CLASSES.items():
        ci = get_func(I, c).cls
        init = next(iter(ci.find("__init__")[1].atoms))
        for n in string_options(c, init):
            def th(I, c=c, n=n, spec=spec):
                o = construct(I, c, "any", {**CTOR.get(c, {}), **BESIDE.get((c, n), {}), n: opt(d.val, n)})
                if spec["fit"]:
                    method(I, o, "fit", c, "any")
                return o
            out.append((c, n, th))
        for q in public_methods(ci):
            f = next(iter(ci.find(q)[1].atoms))
            if not isinstance(f, Func):
                continue
            for n in string_options(f"{c}.{q}", f):
                def th(I, c=c, q=q, n=n, spec=spec):
                    o = fitted_with(I, c, spec)
                    return method(I, o, q, c, "any", {n: opt(d.val, n)})
                out.append((f"{c}.{q}", n, th))
    # options that travel inside keyword dictionaries of the data objects
    for c in ("base.Circular", "base.Axial"):
        for kwname in ("kwargs_median", "kwargs_mean_ci"):
            def th(I, c=c, kwname=kwname):
                i = I.newid("kw")
                I.st.new(i, HObj("dict", attrs={"method": V([C(d.val)], frozenset([kwname]))}))
                over = {k: "omit" for k in ("kwargs_median", "kwargs_mean_ci")}
                over[kwname] = V([Ref(i)], frozenset([kwname]))
                return construct(I, c, "any", over)
            out.append((c, f"{kwname}['method']", th))
    for n in DISTS:
        o = dist_obj(I, n)
        ci = I.st.get(o.refs()[0]).cls
        for q in public_methods(ci):
            f = next(iter(ci.find(q)[1].atoms))
            if not isinstance(f, Func) or q != "fit":
                continue
            for p in string_options("fit", f):
                def th(I, n=n, p=p):
                    return dist_fit(I, n, None, {p: opt(d.val, p), "method": None} if p != "method" else {p: opt(d.val, p)})
                out.append((f"distributions.{n}.fit", p, th))
    return out


def analyse(I, d, cs, docs):
    base = I.st.copy()
    done = []
    for lab, n, th in cs:
      for d.val in unknowns(lab, n, docs):
          d.other_solver = False
          o = run(I, lambda: th(I), base)
          if n == "optimizer" and not d.other_solver:
              # the solver name is only consulted when a numerical search runs: every search that runs must be given it
              o.dead = True
          done.append(f"{lab}({n}={d.val!r})")
          if not o.dead:
              d.report("option-accepted", None, f"{lab}:{n}", f"{lab} can return a result with the unrecognised value {d.val!r} of option {n}")
          for r in o.raises:
              if r[1] in OTHER_EXC:
                  d.report("option-wrong-error", r[3], f"{lab}:{n}:{r[1]}", f"{lab} raises {r[1]} instead of ValueError for the unrecognised value {d.val!r} of option {n}")
    return done


def selftest(rep):
    src = """
import numpy as np
def a(x, method="m1"):
    if method == "m1":
        return np.sum(x)
    return np.mean(x)
def b(x, method="m1"):
    if len(x) == 0:
        return np.nan
    if method not in ("m1", "m2"):
        raise ValueError(method)
    return np.sum(x)
def c(x, method="m1"):
    table = {"m1": np.sum, "m2": np.mean}
    return table.get(method, np.sum)(x)
def ok(x, method="m1"):
    table = {"m1": np.sum, "m2": np.mean}
    key = str(method).lower()
    if key not in table:
        raise ValueError(method)
    return table[key](x)
def e(x, method="m1"):
    if method.startswith("m1"):
        return np.sum(x)
    raise ValueError(method)
def f(x, method="m1"):
    if method in "m1":
        return np.sum(x)
    raise ValueError(method)
def ok2(x, method="m1"):
    try:
        f = {"m1": np.sum}[method]
    except KeyError:
        raise ValueError(method)
    return f(x)
"""
    d = Opt()
    I = Interp(Program.from_sources({"pycircstat2.zz": src}), d)
    I.load_all()
    docs = documented(I.prog)
    cs = []
    for q in ("a", "b", "c", "e", "f", "ok", "ok2"):
        e = "zz." + q
        f = get_func(I, e)
        for n in string_options(e, f):
            cs.append((e, n, lambda I, e=e, f=f, n=n: I.call_func(f, [], build_args(I, e, f, "any", {n: opt(d.val, n)}), None)))
    analyse(I, d, cs, docs)
    got = {f["construct"].split(":")[0] for f in d.findings.values()}
    if got != {"zz.a", "zz.b", "zz.c", "zz.e", "zz.f"}:
        raise Broken(f"self-test: {got}")
    rep.cov["selftest_positive"] = sorted(got)


def check(prog, rep, tier):
    d = Opt()
    I = Interp(prog, d, max_steps=80_000_000)
    I.load_all()
    done = analyse(I, d, cases(I, d), documented(prog))
    rep.take(d)
    rep.cov["options"] = sorted({x.split("=")[0] for x in done})
    rep.cov["option_values"] = len(done)
    rep.floor("options_checked", len(rep.cov["options"]), 50)
