"""C17: one public contract for every distribution (interpretation with marked angles, shape parameters and results)."""
import ast, math
from . import extmodel
from .domain import Domain
from .values import *
from .interp import Program, Interp, Dead, PKG
from .scen import *
from .report import Broken

RULES = ["accepts: every public method, with positional or keyword scalar shape parameters, has a path that returns for one point and for an array of points (scipy repeats the "
         "parameters once per point), and the cdf hook also for no points (scipy's logcdf and logsf split the points)",
         "refused: every public method of every distribution, called directly or on a frozen distribution, with loc=0.5, with scale=2.0, or (except rvs, whose next positional "
         "parameter is size) with one more positional argument than it has shape parameters, raises on every path; the same for freezing and for fit with loc/scale/floc/fscale",
         "reduced: neither a value handed to scipy's evaluation (which compares it with the support), nor the result of pdf/logpdf/cdf/logcdf/sf/logsf, nor an objective or "
         "estimate of fit is computed from the angular argument before it was reduced modulo one turn (or entered a sine or cosine)",
         "order: a value that is one shape parameter of the caller never arrives at a parameter or variable named after another shape parameter of the same distribution, for positional and "
         "keyword calls; public methods and scipy hooks list the shape parameters in the order of _pdf",
         "frozen: a method of a frozen distribution enters the same functions of the distribution with the same arguments as the direct call with the stored shape parameters, and "
         "returns the result of that call unchanged; likewise keyword and positional calls"]
EXPLAIN = ("Arguments are marked when the scenario is built; identity operations (conversions, reshaping, copies, indexing) keep a mark, reduction modulo a multiple of 2π and "
           "sines/cosines remove the angle mark, other arithmetic removes the identity marks. scipy's argument splitting is modelled from its documentation, calling the parsers "
           "installed on the instance.")
ASSUME = ["scipy's rv_continuous public methods split their arguments with self._parse_args / _parse_args_rvs / _parse_args_stats and call the private hooks with the shapes in "
          "the order of _pdf's signature", "angles and parameters are numbers or numeric arrays with at least one element"]
TWO_PI = 2 * math.pi
HOOK = {"_pdf", "_logpdf", "_cdf", "_logcdf", "_sf", "_logsf", "_ppf", "_isf", "_rvs", "_argcheck"}
RAW = {("X",), ("F",)}
IDENTITY = {"view", "copy"}


def marks(v):
    return v.tag or EMPTY


def turn(v):
    ok, c = v.const()
    if not ok or not isinstance(c, (int, float)) or isinstance(c, bool) or not c:
        return False
    k = TWO_PI / abs(c)
    return abs(k - round(k)) < 1e-9 and round(k) >= 1


class Arg(Domain):
    fold_numeric = True
    numeric_inputs = True
    model_expect = True

    def __init__(self):
        super().__init__()
        self.calls = None
        self.where = None
        self.in_fit = False
        self.scalar = False
        self.points = 2
        self.n = dict(parameters_checked=0, evaluations_checked=0, results_checked=0)

    # ---- lattice
    def join(self, a, b):
        if a is None or a == b:
            return b
        if b is None:
            return a
        return a | b

    def lub(self, a, b):
        return (a or EMPTY) | (b or EMPTY)

    def keep(self, vs):
        """what arithmetic leaves of the marks"""
        out = set()
        for v in vs:
            out |= {m for m in marks(v) if m[0] in ("X", "F", "I", "bc")}
        return out

    def bin(self, op, l, r, node):
        out = self.keep([l, r])
        if isinstance(op, ast.Mod) and turn(r):
            return frozenset(m for m in self.keep([l]) if m[0] in ("I", "bc")) or None
        if isinstance(op, (ast.Add, ast.Sub)):
            ml, mr = self.keep([l]), self.keep([r])
            if ("X",) in ml and ("F",) in mr and ("X",) not in mr or ("F",) in ml and ("X",) in mr and ("X",) not in ml:
                out -= RAW
        if isinstance(op, ast.FloorDiv) and ("X",) in out:
            out = out - {("X",)} | {("F",)}
        for v in (l, r):
            if any(isinstance(a, C) and isinstance(a.v, complex) for a in v.atoms):
                out.add(("I",))
        return frozenset(out) or None

    def unary(self, op, v):
        return frozenset(self.keep([v])) or None

    def compare(self, op, l, r, node):
        return None

    def lossy(self, kind, vs, node):
        return None

    def index(self, base, idx, kind, node):
        return base.tag

    # the angles, and the shape parameters repeated by scipy, have self.points elements
    def is_x(self, v):
        return bool({("X",), ("bc",)} & marks(v)) and bool(v.atoms) and all(isinstance(a, T) for a in v.atoms)

    def is_bc(self, v):
        return ("bc",) in marks(v) and self.is_x(v)

    def size_of(self, v):
        return min(self.points, 1) if ("one",) in marks(v) else self.points

    def ndim_of(self, v):
        return 1 if {("bc",), ("one",)} & marks(v) or not self.scalar else 0

    def fail(self, exc, node):
        self.I.do_raise(exc, node)
        raise Dead()

    def attr_value(self, recv, name, node):
        if name in ("size", "ndim") and recv.only(C) and recv.atoms and all(isinstance(a.v, (int, float)) for a in recv.atoms):
            return V([C(int(name == "size"))])
        if self.is_x(recv):
            if name == "size":
                return V([C(self.size_of(recv))])
            if name == "ndim":
                return V([C(self.ndim_of(recv))])
            if name == "shape":
                return V([Tup([V([C(self.size_of(recv))])] if self.ndim_of(recv) else [])])
        return None

    def index(self, base, idx, kind, node):
        if self.is_bc(base):
            if kind == "int" and self.points == 0:
                self.fail("IndexError", node)
            return base.tag - {("bc",), ("one",)}
        return base.tag

    def iter_elem(self, v):
        return v.tag - {("bc",), ("one",)} if v.tag else v.tag

    def ext_first(self, name, args, kw, node):
        if self.in_fit and name.startswith("scipy.optimize."):
            for v in list(args) + list(kw.values()):
                self.objectives |= {id(a.node) for a in v.atoms if isinstance(a, Func)}
        a0 = args[0] if args else None
        if a0 is None or not self.is_x(a0):
            return None
        last = name.split(".")[-1]
        if name in ("builtins.len", "numpy.size"):
            return V([C(self.size_of(a0))])
        if name == "numpy.ndim":
            return V([C(self.ndim_of(a0))])
        if name == "numpy.isscalar":
            ts = {a.t for a in a0.atoms}
            return V([C(False)]) if ts == {"arr"} else V([C(True)]) if self.scalar and "arr" not in ts else V([T("bool")])
        if self.is_bc(a0):
            if name in ("builtins.float", "builtins.int", "builtins.complex") or last == "item" and len(args) == 1:
                if self.size_of(a0) != 1:
                    self.fail("TypeError", node)
                return V([T("num")], a0.deps, a0.cdeps, EMPTY, a0.tag - {("bc",), ("one",)})
            if last == "unique" and set(kw) <= {"return_inverse"} and not kw:
                return V([T("arr")], a0.deps, a0.cdeps, EMPTY, a0.tag | {("one",)})
            if name == "builtins.next" or last in ("min", "max", "median", "mean", "amin", "amax") and self.points:
                return V([T("num")], a0.deps, a0.cdeps, EMPTY, a0.tag - {("bc",), ("one",)})
            if last in ("min", "max", "amin", "amax"):
                self.fail("ValueError", node)
            if last in ("allclose", "array_equal") and len(args) > 1 and {m for m in marks(args[1]) if m[0] == "sh"} == {m for m in marks(a0) if m[0] == "sh"}:
                return V([C(True)])
        return None

    def ext(self, name, cat, args, kw, node):
        last = name.split(".")[-1]
        every = list(args) + list(kw.values())
        if cat in IDENTITY or name in ("builtins.float", "builtins.int", "numpy.float64", "copy.copy", "copy.deepcopy") or last in ("astype", "item"):
            out = set()
            for a in every:
                out |= marks(a)
            if last == "reshape" and not all(a.is_const(-1) for a in args[1:]):
                out -= {("bc",), ("one",)}
            if last in ("atleast_2d", "atleast_3d", "expand_dims", "broadcast_to", "diagonal", "split", "array_split", "repeat", "tile", "concatenate", "stack", "append", "insert", "hstack", "vstack", "resize", "take", "choose", "delete", "compress"):
                out -= {("bc",), ("one",)}
            return frozenset(out) or None
        whole = frozenset(m for m in self.keep(every) if m == ("bc",)) or None
        if name == "builtins.divmod" and len(args) > 1 and turn(args[1]):
            return whole
        if cat == "trig" and last in ("sin", "cos"):
            return whole
        if cat in ("count", "bool_red", "ctor", "ctor_like", "trig", "argsort", "hist", "index") and last not in ("sinh", "cosh", "tanh"):
            return None
        if cat == "mod" and len(args) > 1 and turn(args[1]):
            return whole
        if last == "interp" and "period" in kw and turn(kw["period"]):
            return None
        if last in ("isfinite", "isnan", "isinf", "isclose", "equal", "greater", "less", "greater_equal", "less_equal", "not_equal", "logical_and", "logical_or", "logical_not",
                    "any", "all", "len", "isscalar", "isinstance", "range"):
            return None
        out = self.keep(every)
        if cat not in ("elem", "trig", "invtrig", "mod", "degrad") or last == "where" and len(args) == 1:
            out = out - {("bc",)}
        if last in ("exp", "expi") and ("I",) in out:
            return whole
        if last in ("floor", "rint", "round", "around", "trunc", "fix", "floor_divide", "ceil") and ("X",) in out:
            out = out - {("X",)} | {("F",)}
        if last in ("subtract", "add") and len(args) > 1:
            return self.bin(ast.Sub() if last == "subtract" else ast.Add(), args[0], args[1], node)
        if cat == "reduce" and last in ("dot", "matmul", "quad"):
            return frozenset(out) or None
        return frozenset(out) or None

    # ---- calls
    def dist_cls(self, f):
        c = getattr(f, "cls", None)
        return c if c is not None and any(c.name == n.name for n in self.family) else None

    family = ()

    def on_param(self, f, name, v):
        c = self.dist_cls(f)
        if c is None or self.quiet or f.node is None or isinstance(f.node, ast.Lambda):
            return v
        self.named(c, name, v, f, f.node, "arrives as")
        return v

    def named(self, c, name, v, f, node, how):
        names = self.names.get(c.name)
        if names and name in names:
            self.n["parameters_checked"] += 1
            ms = marks(v) - {("bc",), ("one",)}
            if len(ms) == 1:
                m = next(iter(ms))
                if m[0] == "sh" and m[1] != name and m[1] in names:
                    self.report("order", node, f"{f.qual}:{name}<-{m[1]}", f"the value of shape parameter {m[1]} {how} {name} in {f.qual} ({self.where})")

    def on_assign(self, name, v, node):
        if not self.quiet and self.I.ctxs:
            f = self.I.ctxs[-1].func
            c = self.dist_cls(f) if f is not None else None
            if c is not None:
                self.named(c, name, v, f, node, "is unpacked as")
        return v

    def enter(self, f, ctx, vals):
        if self.calls is not None and not self.quiet and self.dist_cls(f) is not None and isinstance(f.node, ast.FunctionDef):
            key = tuple(sorted((n, tuple(sorted(map(str, marks(v) - RAW - {('bc',), ('one',)})))) for n, v in vals.items() if n != "self" and marks(v)))
            if any(m[1] for m in key):
                self.calls.add((f.qual, key))
        return None

    objectives = frozenset()

    def call_result(self, f, vals, v, node):
        if self.in_fit and not self.quiet and id(f.node) in self.objectives:
            self.n["results_checked"] += 1
            if marks(self.I.flat(v)) & RAW:
                self.report("reduced", f.node, f"{self.where}:{f.qual.split('.')[-1]}", f"{self.where}: the objective {f.qual} is computed from angles that were not reduced to one turn")
        c = self.dist_cls(f)
        if c is not None and isinstance(f.node, ast.FunctionDef) and not f.node.name.startswith("_"):
            return v.w(tag=frozenset(m for m in marks(v) if m[0] in "XF") | {("res", f.node.name)})
        return v

    # ---- scipy
    def rv_locscale(self, recv, last, loc, scale, node):
        if self.quiet:
            return
        self.n["evaluations_checked"] += 1
        for nm, v, dflt in (("loc", loc, 0), ("scale", scale, 1)):
            ok, c = v.const()
            if not ok or c != dflt:
                self.seen_linear.add(nm)

    seen_linear = frozenset()

    def rv_shape(self, last, s):
        return s.w(tag=marks(s) | {("bc",)}) if not s.only(C) else s

    def rv_arg(self, last, x):
        if not self.quiet and last not in ("ppf", "isf"):
            self.n["evaluations_checked"] += 1
            if marks(x) & RAW:
                self.report("reduced", None, f"{self.where}:{last}", f"{self.where}: scipy's {last} receives an angle that was not reduced to one turn")
        return x.w(tag=marks(x) | {("bc",)})


def mk(I, n):
    return V([T("any")], frozenset([n]), EMPTY, EMPTY, frozenset([("sh", n)]))


def xval(d):
    return V([T("num" if d.scalar else "arr")], frozenset(["x"]), EMPTY, EMPTY, frozenset([("X",)]))


def arg(n, t="any"):
    return V([T(t)], frozenset([n]), EMPTY, EMPTY, frozenset([("arg", n)]))


STATS = ["trig_moment", "r", "mean", "median", "var", "std", "dispersion", "skewness", "kurtosis", "stats", "entropy"]


def call(I, d, name, m, style="pos", frozen=False, extra=None, more=(), linear_at="call"):
    """one public call; style: pos / kw; extra: further keywords; more: surplus positional arguments"""
    o = dist_obj(I, name)
    names = dist_shapes(I, o)
    sh = [mk(I, n) for n in names]
    lead, kw = [], {}
    if m in DIST_X:
        lead = [xval(d)]
    elif m in DIST_Q:
        lead = [arg("q", "num" if d.scalar else "arr")]
    elif m == "trig_moment":
        lead = [arg("p", "int")]
    elif m == "rvs":
        kw = {"size": arg("size", "int"), "random_state": arg("random_state", "int")}
    extra = dict(extra or {})
    sa, sk = (sh, {}) if style == "pos" else ([], dict(zip(names, sh)))
    calls, d.calls = d.calls, None
    if frozen:
        try:
            at_freeze = linear_at == "freeze"
            fz = I.call(o, sa + (list(more) if at_freeze else []), {**sk, **(extra if at_freeze else {})}, None)
            f = I.getattr(fz, m, None)
        finally:
            d.calls = calls
        if m == "freeze":
            return fz
        return I.call(f, lead + ([] if at_freeze else list(more)), {**kw, **({} if at_freeze else extra)}, None)
    d.calls = calls
    return I.call(I.getattr(o, m, None), lead + sa + list(more), {**sk, **kw, **extra}, None)


def fit_methods(I, name):
    c = I.st.get(dist_obj(I, name).refs()[0]).cls
    f = c.find("fit")[1]
    f = next(iter(f.atoms)) if f is not None else None
    if not isinstance(f, Func):
        return []
    has = "method" in [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
    return [m for m in ("mle", "moments", "two-step", "joint") ] if has else [None]


def locate(I, name, m, frozen=False):
    c = I.st.get(dist_obj(I, name).refs()[0]).cls
    f = c.find(m)[1]
    f = next(iter(f.atoms)) if f is not None else None
    return (f.node, f.qual) if isinstance(f, Func) else (c.node, c.name)


def add(d, I, rule, construct, name, m, msg, frozen=False):
    key = (rule, construct)
    if key in d.findings:
        return
    node, qual = locate(I, name, m)
    d.findings[key] = dict(rule=rule, construct=construct, loc=f"{PKG}/distributions.py:{getattr(node, 'lineno', '?')}", func=qual, path=f"{name}.{m}", msg=msg)


def analyse(I, d, dists, methods, fits=True, frozen=True):
    base = I.st.copy()
    n = fitted_n = 0
    names = {}
    fam = []
    for name in dists:
        c = I.st.get(dist_obj(I, name).refs()[0]).cls
        for k in c.mro():
            if not isinstance(k, str) and k not in fam:
                fam.append(k)
        names[c.name] = dist_shapes(I, dist_obj(I, name))
    d.family, d.names = fam, names
    accepted = {}
    half, two = V([C(0.5)]), V([C(2.0)])

    def go(label, fn):
        nonlocal n
        n += 1
        d.where = label
        d.seen_linear = set()
        return run(I, fn, base)

    for name in dists:
        c = I.st.get(dist_obj(I, name).refs()[0]).cls
        # ---- signature order
        want = names[c.name]
        for k in c.mro():
            for mname, mv in (k.attrs.items() if not isinstance(k, str) else ()):
                f = next(iter(mv.atoms)) if mv.atoms else None
                if not isinstance(f, Func) or (mname.startswith("_") and mname not in HOOK):
                    continue
                ps = [p.arg for p in f.node.args.args if p.arg in want]
                d.n["parameters_checked"] += len(ps)
                if len(ps) > 1 and ps != [w for w in want if w in ps]:
                    add(d, I, "order", f"{k.name}.{mname}:signature", name, mname, f"{mname} lists the shape parameters as {ps}, _pdf as {want}")
        for m in methods:
            # ---- reduced, order, frozen
            ref = {}
            for scalar in ((False, True) if m in DIST_X + DIST_Q else (False,)):
                d.scalar, d.points = scalar, 1 if scalar else 2
                for style in ("pos", "kw"):
                    if style == "kw" and not want:
                        continue
                    for fz in ((False, True) if frozen else (False,)):
                        label = f"{name}{'(...)' if fz else ''}.{m}"
                        d.calls = set()
                        o = go(f"{label} [{style}]", lambda: call(I, d, name, m, style, fz))
                        calls, d.calls = d.calls, None
                        if o.dead:
                            ref.setdefault((scalar, style), None)
                            if not fz:
                                add(d, I, "accepts", f"{label}:{style}:{'scalar' if scalar else 'array'}", name, m,
                                    f"{label} always raises for valid {'positional' if style == 'pos' else 'keyword'} shape parameters and {'one point' if scalar else 'an array of points'}")
                            elif ref.get((scalar, style)) is not None:
                                add(d, I, "frozen", f"{label}:{style}:dead", name, m, f"{label} always raises although the direct call does not")
                            continue
                        d.n["results_checked"] += 1
                        res = marks(I.flat(o.value))
                        if m in DIST_X and res & RAW:
                            add(d, I, "reduced", f"{name}.{m}:result", name, m, f"{label}: the result is computed from an angle that was not reduced to one turn")
                        if not fz:
                            ref[(scalar, style)] = (calls, res)
                        elif ref.get((scalar, style)) is not None:
                            c0, r0 = ref[(scalar, style)]
                            diff = sorted(calls ^ c0, key=str)
                            if diff:
                                q, k = diff[0]
                                add(d, I, "frozen", f"{label}:calls", name, m,
                                    f"{label} ({style}) and the direct call differ: {q} is entered with {k} only {'when frozen' if diff[0] in calls else 'directly'}")
                            elif res - RAW != r0 - RAW:
                                add(d, I, "frozen", f"{label}:result", name, m, f"{label} does not return the result of the direct call unchanged ({sorted(res)} instead of {sorted(r0)})")
            d.scalar, d.points = False, 2
            # ---- refused
            for fz in ((False, True) if frozen else (False,)):
                label = f"{name}{'(...)' if fz else ''}.{m}"
                for what, extra, more in (("loc=0.5", {"loc": half}, ()), ("scale=2.0", {"scale": two}, ()), ("a surplus positional argument", {}, (half,))):
                    if more and m == "rvs":
                        continue
                    o = go(label, lambda: call(I, d, name, m, "pos", fz, extra, more))
                    if not o.dead:
                        add(d, I, "refused", f"{label}:{what}", name, m, f"{label} accepts {what}" + (" and scipy applies it as a shift or scale" if d.seen_linear else ""))
        # ---- scipy's generic logcdf and logsf split the points: the cdf hook also sees none of them
        for hook in ("_cdf",):
            if c.find(hook)[1] is None or all(c.find(k)[1] is not None for k in ("_logcdf", "_logsf")):
                continue
            d.points = 0

            def empty(hook=hook):
                o = dist_obj(I, name)
                x = V([T("arr")], frozenset(["x"]), EMPTY, EMPTY, frozenset([("X",)]))
                return I.call(I.getattr(o, hook, None), [x] + [V([T("arr")], frozenset([k]), EMPTY, EMPTY, frozenset([("sh", k), ("bc",)])) for k in want], {}, None)
            o = go(f"{name}.{hook}", empty)
            d.points = 2
            if o.dead:
                add(d, I, "accepts", f"{name}.{hook}:none", name, hook, f"{name}.{hook} always raises for an empty selection of points, which scipy's logcdf and logsf evaluate")
        if frozen:
            for what, extra, more in (("loc=0.5", {"loc": half}, ()), ("scale=2.0", {"scale": two}, ()), ("a surplus positional argument", {}, (half,))):
                o = go(f"{name}(...)", lambda: call(I, d, name, "freeze", "pos", True, extra, more, "freeze"))
                if not o.dead:
                    add(d, I, "refused", f"{name}(...):{what}", name, "freeze", f"freezing {name} accepts {what}")
        if fits and dist_has_fit(name):
            for what, extra in (("loc=0.5", {"loc": half}), ("scale=2.0", {"scale": two}), ("floc=0.5", {"floc": half}), ("fscale=2.0", {"fscale": two})):
                def fit(extra=extra):
                    ob = dist_obj(I, name)
                    return I.call(I.getattr(ob, "fit", None), [xval(d)], extra, None)
                o = go(f"{name}.fit", fit)
                if not o.dead:
                    add(d, I, "refused", f"{name}.fit:{what}", name, "fit", f"{name}.fit accepts {what}")
        if fits:
            for meth in fit_methods(I, name):
                d.in_fit, d.objectives = True, set()
                o = go(f"{name}.fit", lambda: dist_fit(I, name, meth, {"data": xval(d)}))
                d.in_fit = False
                if o.dead:
                    continue
                fitted_n += 1
                d.n["results_checked"] += 1
                if any(marks(I.flat(x)) & RAW for x in I.contents(o.value)):
                    add(d, I, "reduced", f"{name}.fit:{meth}", name, "fit", f"{name}.fit ({meth}) returns an estimate computed from angles that were not reduced to one turn")
    d.n["fits_checked"] = fitted_n
    return n


def check(prog, rep, tier):
    d = Arg()
    I = Interp(prog, d, max_steps=80_000_000)
    I.load_all()
    n = analyse(I, d, DISTS, DIST_X + DIST_Q + STATS + ["rvs"])
    rep.take(d)
    rep.cov["calls_analysed"] = n
    rep.cov.update(d.n)
    rep.floor("fits_checked", d.n["fits_checked"], 15)
    rep.floor("parameters_checked", d.n["parameters_checked"], 1000)
    rep.floor("evaluations_checked", d.n["evaluations_checked"], 200)
    rep.floor("results_checked", d.n["results_checked"], 400)


def selftest(rep):
    src_ = '''
import numpy as np
from scipy.stats import rv_continuous
class a_gen(rv_continuous):
    def _pdf(self, x, mu, rho):
        return np.cos(x - mu) * rho
    def _cdf(self, x, mu, rho):
        return x * rho + mu
    def pdf(self, x, mu, rho):
        return super().pdf(np.mod(x, 2 * np.pi), mu, rho)
    def cdf(self, x, mu, rho):
        return super().cdf(x, rho, mu)
a = a_gen(name="a")
'''
    d = Arg()
    I = Interp(Program.from_sources({"pycircstat2.distributions": src_}), d)
    I.load_all()
    analyse(I, d, ["a"], ["pdf", "cdf"], fits=False, frozen=False)
    got = {k for k in d.findings}
    want = {("order", "distributions.a_gen._cdf:mu<-rho"), ("order", "distributions.a_gen._cdf:rho<-mu"), ("reduced", "a.cdf [pos]:cdf"), ("reduced", "a.cdf [kw]:cdf"),
            ("reduced", "a.cdf:result")}
    if got != want:
        raise Broken(f"self-test: {got}")
    rep.cov["selftest_positive"] = sorted(k[1] for k in got)
