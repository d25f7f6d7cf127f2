"""C12: random sampling validates the distribution parameters (constant propagation of out-of-domain parameters into every sampler)."""
import math
from .domain import Domain
from .values import *
from .interp import Program, Interp
from .scen import *
from .report import Broken

RULES = ["for every distribution, every shape parameter and every representative of its out-of-domain region (just outside each documented bound, far outside, NaN, "
         "an infinity where the domain is bounded): calling rvs (positional, keyword, frozen; size and random_state given or not) with that parameter fixed and the "
         "others unknown never returns normally, never reaches a random draw, and ends in ValueError; the same for jointly inadmissible parameters",
         "rvs with in-domain parameters can return normally (the check is not vacuous)"]
EXPLAIN = ("The offending parameter is propagated as a constant through the sampler and its checks (scipy's rvs consults _argcheck; NaN makes every ordering false, False absorbs &); "
           "every draw and every normal exit reached under it is reported.")
ASSUME = ["scipy.stats.rv_continuous.rvs evaluates self._argcheck on the shape parameters and raises ValueError when it is not true everywhere"]
TP = 2 * math.pi
NAN, INF = math.nan, math.inf
EPS = 1e-6
CIRC = [-EPS, -3.0, TP + EPS, 50.0, NAN, INF, -INF]


def box(lo, hi, lo_open=False, hi_open=False):
    out = [NAN]
    if lo is not None:
        out += [lo if lo_open else lo - EPS, lo - 3.0, -INF]
    if hi is not None:
        out += [hi if hi_open else hi + EPS, hi + 3.0, INF]
    return out


# documented domains (class docstrings): name -> out-of-domain representatives
BAD = {
    "triangular": {"rho": box(0.0, 4 / math.pi ** 2)},
    "cardioid": {"mu": CIRC, "rho": box(0.0, 0.5)},
    "cartwright": {"mu": CIRC, "zeta": box(0.0, None, True)},
    "wrapnorm": {"mu": CIRC, "rho": box(0.0, 1.0, True, True)},
    "wrapcauchy": {"mu": CIRC, "rho": box(0.0, 1.0, False, True)},
    "vonmises": {"mu": CIRC, "kappa": box(0.0, None)},
    "vonmises_flattopped": {"mu": CIRC, "kappa": box(0.0, None), "nu": box(-1.0, 1.0)},
    "jonespewsey": {"mu": CIRC, "kappa": box(0.0, None) + [INF], "psi": [NAN, INF, -INF]},
    "jonespewsey_sineskewed": {"xi": CIRC, "kappa": box(0.0, None) + [INF], "psi": [NAN, INF, -INF], "lmbd": box(-1.0, 1.0)},
    "jonespewsey_asym": {"xi": CIRC, "kappa": box(0.0, None) + [INF], "psi": [NAN, INF, -INF], "nu": box(0.0, 1.0, False, True)},
    "inverse_batschelet": {"xi": CIRC, "kappa": box(0.0, None), "nu": box(-1.0, 1.0), "lmbd": box(-1.0, 1.0)},
    "wrapstable": {"delta": CIRC, "alpha": box(0.0, 2.0, True), "beta": box(-1.0, 1.0, True, True), "gamma": box(0.0, None, True)},
    "katojones": {"mu": box(0.0, TP, False, True), "gamma": box(0.0, 1.0, False, True), "rho": box(0.0, 1.0, False, True), "lam": box(0.0, TP, False, True)},
}
JOINT = {"katojones": [{"mu": 1.0, "gamma": 0.9, "rho": 0.9, "lam": math.pi}, {"mu": 1.0, "gamma": 0.5, "rho": 0.95, "lam": 2.0}]}
GOOD = {"rho": 0.2, "gamma": 0.3, "mu": 1.0, "xi": 1.0, "delta": 1.0, "kappa": 1.5, "psi": 0.5, "nu": 0.3, "lmbd": 0.2, "zeta": 0.5, "alpha": 1.2, "beta": 0.1, "lam": 1.0}


class Draw(Domain):
    fold_numeric = True

    def __init__(self):
        super().__init__()
        self.draws = []

    def ext(self, name, cat, args, kw, node):
        if name.startswith(("rng.", "numpy.random.")) and not name.endswith(("default_rng", "RandomState", "Generator", "randint", "spawn", "get_state", "bit_generator")):
            self.draws.append((self.I.loc(node), self.I.qual(), name))
        return None


def forms(I, n, over):
    """call forms of rvs with the parameters in `over` fixed"""
    names = dist_shapes(I, dist_obj(I, n))
    unknown = set(over) - set(names)
    if unknown:
        raise AnchorLost(f"parameters {sorted(unknown)} of {n}")
    sh = [over[p] if p in over else src(I, "shape", p, "num") for p in names]
    seeds = {"size": src(I, "size", "size", "int").w(atoms=frozenset([T("int"), T("seq"), C(None)])),
             "random_state": V([T("int"), T("rng"), C(None)])}
    d = lambda: dist_obj(I, n)
    kw = dict(zip(names, sh))
    yield "keyword", lambda: I.call(I.getattr(d(), "rvs", None), [], {**kw, **seeds}, None)
    yield "positional", lambda: I.call(I.getattr(d(), "rvs", None), list(sh), dict(seeds), None)
    yield "frozen", lambda: I.call(I.getattr(I.call(d(), list(sh), {}, None), "rvs", None), [], dict(seeds), None)
    yield "frozen-keyword", lambda: I.call(I.getattr(I.call(d(), [], dict(kw), None), "rvs", None), [], dict(seeds), None)


def analyse(I, d, bad, joint):
    base = I.st.copy()
    n = 0
    good = []
    for name, pars in bad.items():
        cases = [({p: v}, f"{p}={v:g}", p) for p, vs in pars.items() for v in vs] + [(j, "jointly inadmissible " + ",".join(f"{k}={v:g}" for k, v in j.items()), "joint") for j in joint.get(name, ())]
        for vals, txt, p in cases:
            over = {k: V([C(float(v))], frozenset([k])) for k, v in vals.items()}
            for form, th in forms(I, name, over):
                d.draws = []
                o = run(I, th, base)
                n += 1
                if not o.dead:
                    d.report("samples-invalid", None, f"{name}.rvs:{p}", f"{name}.rvs ({form} call) can return normally with {txt}")
                elif d.draws:
                    loc, fn, nm = d.draws[0]
                    d.report("draws-before-check", None, f"{name}.rvs:{p}", f"{name}.rvs ({form} call) with {txt} draws at {loc} in {fn} before the parameters are rejected")
                elif "ValueError" not in o.exc_names():
                    d.report("wrong-error", None, f"{name}.rvs:{p}", f"{name}.rvs ({form} call) with {txt} raises {sorted(o.exc_names())} instead of ValueError")
        over = {p: V([C(GOOD[p])], frozenset([p])) for p in pars}
        for form, th in forms(I, name, over):
            o = run(I, th, base)
            if o.dead:
                raise Broken(f"{name}.rvs ({form}) with admissible parameters has no normal exit in the analysis")
            good.append(f"{name}:{form}")
    return n, good


def selftest(rep):
    src_ = """
import numpy as np
from scipy.stats import rv_continuous
class a_gen(rv_continuous):
    def _argcheck(self, mu, rho):
        m, r = np.broadcast_arrays(mu, rho)
        return (m >= 0.0) & (m <= 6.2831853071795864) & (r >= 0.0) & (r <= 0.5)
    def _rvs(self, mu, rho, size=None, random_state=None):
        rng = np.random.default_rng(random_state)
        return rng.uniform(size=size) * rho
    def rvs(self, mu=None, rho=None, size=None, random_state=None):
        return self._rvs(mu, rho, size=size, random_state=random_state)
class b_gen(a_gen):
    def rvs(self, mu=None, rho=None, size=None, random_state=None):
        if not np.all(self._argcheck(mu, rho)):
            raise ValueError("domain")
        return self._rvs(mu, rho, size=size, random_state=random_state)
class c_gen(b_gen):
    def _argcheck(self, mu, rho):
        return (np.asarray(rho) >= 0.0) & (np.asarray(rho) <= 0.5) & ~(np.asarray(mu) < 0.0)
a = a_gen(name="a")
b = b_gen(name="b")
c = c_gen(name="c")
"""
    d = Draw()
    I = Interp(Program.from_sources({"pycircstat2.distributions": src_}), d)
    I.load_all()
    g = {"mu": CIRC, "rho": box(0.0, 0.5)}
    global forms
    keep = forms
    try:
        forms = lambda I, n, over: [(k, t) for k, t in keep(I, n, over) if not k.startswith("frozen")]
        analyse(I, d, {"a": g, "b": g, "c": g}, {})
    finally:
        forms = keep
    got = {f["construct"] for f in d.findings.values()}
    if got != {"a.rvs:mu", "a.rvs:rho", "c.rvs:mu"}:
        raise Broken(f"self-test: {got}")
    rep.cov["selftest_positive"] = sorted(got)


def check(prog, rep, tier):
    d = Draw()
    I = Interp(prog, d, max_steps=80_000_000)
    I.load_all()
    missing = set(BAD) - set(DISTS)
    new = [n for n in DISTS if n not in BAD and n != "circularuniform"]
    if missing or new:
        raise Broken(f"distribution table out of step: {missing} {new}")
    n, good = analyse(I, d, BAD, JOINT)
    rep.take(d)
    rep.cov["admissible_controls"] = good
    rep.floor("out_of_domain_calls", n, 400)
    rep.floor("distributions", len(BAD), 13)
