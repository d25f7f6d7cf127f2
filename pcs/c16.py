"""C16: an optimiser run that reported failure is never returned as an ordinary estimate, and fit information describes the run it belongs to.

The interpreter is run with every optimiser call scripted to fail or to succeed (all fail; the first k fail); success/converged/status/ier are constants of
the result object, so guards on them are decided, and x/fun/nit/... carry the number of the run they came from."""
from .domain import Domain
from .values import *
from .state import HObj
from .interp import Program, Interp, Dead
from .scen import *
from .util import reachable
from .report import Broken

RULES = [
    "with every optimiser call reporting failure, a fit either raises or returns no value computed from a failed run, unless the returned information (or the fitted model) "
    "has a converged/success field that is False for that run",
    "with the first k optimiser calls failing and the next succeeding, no returned estimate is computed from a failed run, and every entry of the returned information "
    "(objective, iterations, success flag, message, optimiser name) belongs to the run that produced the estimate",
    "a constant True success flag is never paired with a failed run",
]
EXPLAIN = ("Every fit method (all estimation methods, optimisers and return_info settings) and every mixture fit that uses one is interpreted once per failure script.")
ASSUME = ["scipy optimisers report failure through success/converged/status (brentq and root_scalar's bracketing failures raise)"]

OPT = {"scipy.optimize." + n for n in "minimize minimize_scalar root root_scalar least_squares differential_evolution basinhopping dual_annealing shgo linprog milp curve_fit".split()}
TUPLED = {"scipy.optimize." + n for n in "fmin fmin_l_bfgs_b fmin_bfgs fmin_cg fmin_powell fmin_slsqp fmin_tnc leastsq fsolve".split()}
FLAGS = ("converged", "success", "is_converged", "fit_success", "optimizer_success")
NAMES = ("optimizer", "optimiser", "solver", "algorithm", "optimizer_used")


class Opt(Domain):
    fold_numeric = True

    def __init__(self):
        super().__init__()
        self.fails = lambda n: True
        self.sites = {}
        self.reset()

    def reset(self):
        self.runs = []
        self.depth = 0
        self.roots = {}

    def lub(self, a, b):
        return frozenset(a) | frozenset(b)

    def compare(self, op, l, r, node):
        return self.join(l.tag, r.tag)

    def ext_first(self, name, args, kw, node):
        if name not in OPT and name not in TUPLED:
            return None
        if self.depth:      # a solver inside an objective function, not the fit's own run
            return None
        self.depth += 1
        try:
            self.I.ext.run_callbacks(self.I, name, list(args) + list(kw.values()), node)
        finally:
            self.depth -= 1
        rootf = "root" in name or name.endswith("fsolve")
        if rootf and self.I.loc(node) in self.roots:
            n = self.roots[self.I.loc(node)]
        else:
            n = len(self.runs)
            if rootf:
                self.roots[self.I.loc(node)] = n
        bad = bool(self.fails(n))
        t = frozenset([n])
        m = kw.get("method")
        if n == len(self.runs):
            self.runs.append((bad, m, self.I.loc(node), rootf))
        self.sites[self.I.loc(node)] = self.I.qual()

        def v(a, tag=t):
            return V([a], EMPTY, EMPTY, EMPTY, tag)
        if name in TUPLED:
            return v(T("any"))
        o = HObj("obj", open=True)
        for k in ("x", "root", "jac", "hess_inv"):
            o.attrs[k] = v(T("arr")) if name.endswith(("minimize", "least_squares", "root")) else v(T("num"))
        for k in ("fun", "cost", "nit", "nfev", "njev", "iterations", "function_calls"):
            o.attrs[k] = v(T("num"))
        for k in ("message", "flag"):
            o.attrs[k] = v(T("str"))
        for k in ("success", "converged"):
            o.attrs[k] = v(C(not bad))
        o.attrs["status"] = v(C(2 if bad else 0) if not name.endswith("least_squares") else C(0 if bad else 1))
        i = self.I.newid("optres")
        self.I.st.new(i, o)
        return V([Ref(i)])


def split(st, v):
    """(estimate values, top-level info entries) of a returned value"""
    est, info = [], []
    stack = [("", v)]
    while stack:
        p, x = stack.pop()
        leaf = False
        for a in x.atoms:
            if isinstance(a, Tup):
                stack += [(f"{p}[{i}]", y) for i, y in enumerate(a.items)]
            elif isinstance(a, Ref) and st.get(a.id) is not None:
                o = st.get(a.id)
                if o.kind == "dict":
                    info += [(k, y) for k, y in o.attrs.items()]
                elif o.kind == "list":
                    stack += [(p + "[]", y) for y in (o.items or [])] + ([(p + "[]", o.elem)] if o.elem is not None else [])
                elif o.kind == "obj":
                    info += [(k, y) for k, y in o.attrs.items() if k.rstrip("_") in FLAGS + NAMES]
                    stack += [(f"{p}.{k}", y) for k, y in o.attrs.items() if k.rstrip("_") not in FLAGS + NAMES and k != "history"] if o.cls is None or p == "" else []
            else:
                leaf = True
        if leaf:
            est.append((p, x))
    return est, info


def tagset(I, v):
    f = I.flat(v)
    return f.tag or EMPTY


def same_method(a, b):
    return a is not None and b is not None and a.atoms == b.atoms and (a.only(C) or a.deps == b.deps)


def judge(I, d, o, lab):
    est, info = split(o.state, o.value)
    E = EMPTY
    for p, v in est:
        E |= v.tag or EMPTY
    failed = {n for n in E if d.runs[n][0]}
    flags = [(k, v) for k, v in info if isinstance(k, str) and k.rstrip("_") in FLAGS]
    site = lambda n: f"{d.sites[d.runs[n][2]]}"
    for n in sorted(failed):
        marked = any(any(isinstance(a, C) and a.v is False for a in v.atoms) and (n in v.tag if v.tag else v.only(C) and len(v.atoms) == 1) for k, v in flags)
        if not marked:
            d.findings.setdefault(("failed-run-returned", site(n)), dict(rule="failed-run-returned", construct=site(n), loc=d.runs[n][2], func=site(n), path=lab,
                msg=f"{lab} returns an estimate computed from an optimiser run that reported failure, without marking it"))
    if not E:
        return
    for k, v in info:
        if any(isinstance(a, Ref) for a in v.atoms):
            continue
        t = frozenset(n for n in v.tag or EMPTY if not d.runs[n][3])
        if t and not t & E:
            n = min(t)
            d.findings.setdefault(("info-of-another-run", f"{site(n)}:{k}"), dict(rule="info-of-another-run", construct=f"{site(n)}:{k}", loc=d.runs[n][2], func=site(n), path=lab,
                msg=f"{lab}: information '{k}' comes from a different optimiser run than the returned estimate"))
        if k in NAMES and v.only(C):
            used = [d.runs[n][1] for n in E]
            if all(m is not None and m.only(C) for m in used) and not any(m.atoms & v.atoms for m in used):
                n = min(E)
                d.findings.setdefault(("info-of-another-run", f"{site(n)}:{k}"), dict(rule="info-of-another-run", construct=f"{site(n)}:{k}", loc=d.runs[n][2], func=site(n), path=lab,
                    msg=f"{lab}: information '{k}' is {sorted(map(repr, v.atoms))} but the estimate comes from a run with {sorted(repr(a) for m in used for a in m.atoms)}"))
    for k, v in flags:
        if v.only(C) and all(a.v is True for a in v.atoms) and failed and not (v.tag or EMPTY) & (E - failed):
            n = min(failed)
            d.findings.setdefault(("failed-run-called-converged", f"{site(n)}:{k}"), dict(rule="failed-run-called-converged", construct=f"{site(n)}:{k}", loc=d.runs[n][2],
                func=site(n), path=lab, msg=f"{lab}: '{k}' is True although the optimiser reported failure"))


def fits(I):
    out = []
    for n in DISTS:
        if not dist_has_fit(n):
            continue
        ci, f = I.st.get(dist_obj(I, n).refs()[0]).cls.find("fit")
        ps = {p: dv for p, dv, ko in func_params(next(iter(f.atoms)))}
        bools = [p for p, dv in ps.items() if dv is not None and dv.const()[0] and isinstance(dv.const()[1], bool) and p not in ("return_info", "verbose")]
        for m in [None, "mle", "moments", "mom", "two-step"]:
            for op in ([None, "Powell", "Nelder-Mead"] if "optimizer" in ps and m not in ("moments", "mom", "analytical") else [None]):
                for bv in ([None] + [True] if bools else [None]):
                    for ri in ((True, False) if "return_info" in ps else (None,)):
                        over = {"method": None if m is None else const(m)}
                        if "optimizer" in ps:
                            over["optimizer"] = None if op is None else const(op)
                        if "return_info" in ps:
                            over["return_info"] = const(ri)
                        if bv:
                            over.update({b: const(True) for b in bools})
                        lab = f"{n}.fit(method={m}, optimizer={op}, return_info={ri}" + (f", {bools}" if bv else "") + ")"
                        out.append((lab, lambda I, n=n, over=over: dist_fit(I, n, over=over)))
    for c in CLASSES:
        if CLASSES[c]["fit"]:
            def g(I, c=c):
                o = construct(I, c, "any")
                method(I, o, "fit", c, "any")
                return o
            out.append((c + ".fit", g))
        elif c.startswith("regression"):
            out.append((c, lambda I, c=c: construct(I, c, "any")))
    return out


def analyse(I, d, which, cap=6):
    base = I.st.copy()
    n = 0
    used = 0
    for lab, th in which:
        d.fails = lambda i: True
        d.reset()
        o = run(I, lambda: th(I), base)
        n += 1
        total = len(d.runs)
        if total:
            used += 1
            if not o.dead:
                judge(I, d, o, lab)
        for k in range(0, min(total, cap)):
            # the first k runs fail, the following succeed
            d.fails = lambda i: i < k
            d.reset()
            o = run(I, lambda: th(I), base)
            n += 1
            if not o.dead:
                judge(I, d, o, lab)
    return n, used


def selftest(rep):
    src = """
from scipy.optimize import minimize
def good(f, x0):
    r = minimize(f, x0, method="L-BFGS-B")
    used = "L-BFGS-B"
    if not r.success:
        r2 = minimize(f, x0, method="Powell")
        if r2.success:
            r, used = r2, "Powell"
    if not r.success:
        raise RuntimeError("failed")
    return (float(r.x[0]),), {"converged": bool(r.success), "nit": r.nit, "optimizer": used}
def marked(f, x0):
    r = minimize(f, x0)
    return r.x, {"converged": bool(r.success)}
def bad1(f, x0):
    r = minimize(f, x0)
    if not r.success and r.fun > 10:
        raise RuntimeError("failed")
    return r.x
def bad2(f, x0):
    r = minimize(f, x0)
    return r.x, {"converged": True}
def bad3(f, x0):
    r = minimize(f, x0, method="L-BFGS-B")
    q = r
    if r.status != 0:
        q = minimize(f, x0, method="Powell")
        if not q.success:
            raise RuntimeError("failed")
    return q.x, {"nit": r.nit, "optimizer": "L-BFGS-B"}
"""
    d = Opt()
    I = Interp(Program.from_sources({"pycircstat2.zz": src}), d)
    I.load_all()

    def th(q):
        return lambda I: I.call_func(get_func(I, "zz." + q), [V([T("callable")]), V([T("arr")])], {}, None)
    analyse(I, d, [(q, th(q)) for q in ("good", "marked", "bad1", "bad2", "bad3")])
    got = {k for k in d.findings}
    need = {("failed-run-returned", "zz.bad1"), ("failed-run-returned", "zz.bad2"), ("failed-run-called-converged", "zz.bad2:converged"),
            ("info-of-another-run", "zz.bad3:nit"), ("info-of-another-run", "zz.bad3:optimizer")}
    if got != need:
        raise Broken(f"self-test: {got}")
    rep.cov["selftest_positive"] = sorted(map(str, got))


def check(prog, rep, tier):
    d = Opt()
    I = Interp(prog, d, max_steps=200_000_000)
    I.load_all()
    n, used = analyse(I, d, fits(I))
    rep.take(d)
    rep.cov["optimiser_calls"] = sorted(f"{k} in {v}" for k, v in d.sites.items())
    rep.floor("optimiser_call_sites", len(d.sites), 8)
    rep.floor("fits_using_an_optimiser", used, 20)
    rep.floor("runs", n, 100)
