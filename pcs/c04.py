"""C04: every returned direction lies within a single turn from zero (interval analysis)."""
import re
from .ival import *
from .interp import Program, Interp
from .scen import *
from .util import reachable
from .report import Broken

RULES = [
    "every direction a public function returns (tables POS and KEYS of pcs/c04.py: means, medians, their limits, quantiles, highest-density limits, centres, component and location parameters, predictions) lies in [0, 2*pi] for every input, on every path",
    "so do the location parameter of every distribution fit and the mean, median, quantiles and samples of every distribution, frozen or not",
]
EXPLAIN = ("Every public entry is interpreted over intervals; observations and parameters are arbitrary reals. Reductions (mod, clip, arctan2 + a shift under a sign test, where) give the ranges. "
           "A direction whose interval is not inside [0, 2*pi] on some path is reported, with the entry and the place in the result.")
ASSUME = ["arguments are numeric; NaN is allowed (undefined direction)", "scipy calls a distribution's _ppf with probabilities in (0, 1) and fills 0 and 2*pi in at the ends",
          "one_sample_test echoes confidence limits the caller supplies; these are taken to be directions already",
          "a value a rounding error away from 0 or 2*pi counts as 0 or 2*pi", "arrays of unknown shape broadcast as scalars"]

# entry -> positions of directions in the result ("" = the result itself)
POS = {
    "descriptive.circ_mean": [""], "descriptive.circ_mean_and_r": ["[0]"], "descriptive.circ_mean_and_r_of_means": ["[0]"], "descriptive.circ_median": [""],
    "descriptive.circ_mean_ci": ["[0]", "[1]"], "descriptive.circ_median_ci": ["[0]", "[1]"], "descriptive.circ_quantile": [""], "descriptive.convert_moment": ["[0]"],
    "descriptive.compute_hdi": ["[0]", "[1]"], "utils.angmod": [""], "regression.CLRegression.predict": [""],
}
# keys and attributes that hold directions, per module
KEYS = {
    "hypothesis": "mu mu_all common_median ci", "regression": "mu fitted", "base": "mean median mean_lb mean_ub median_lb median_ub mu m_ mu_ centers_",
    "clustering": "mu m_ mu_ lam lam_ centers_", "distributions": "mean median",
}
DIRECT = ("mean", "median", "ppf", "isf", "rvs")
LOCATION = {"mu", "xi", "delta"}


class Dir(Ival):
    def __init__(self):
        super().__init__()
        self.proved = {}

    def source(self, role, name, v):
        if role == "weights":
            return NONNEG
        if role == "prob":
            return PROB
        if name in ("lb", "ub"):
            return ANGLE
        return None


def scens():
    out = [s for s in fn_scens() if s.info["entry"] in POS or s.info["entry"].startswith("hypothesis.")]
    out = [s for s in out if s.info["entry"] != "utils.angmod"]
    out.append(Scen("utils.angmod", "func", lambda I: I.call_func(get_func(I, "utils.angmod"), [src(I, "angles", "rad")], {}, None), entry="utils.angmod"))
    out += [s for s in class_scens() if s.label.startswith(("regression.", "base.", "clustering."))]
    out += [s for s in dist_scens() if s.kind in ("distfit", "rvs") or s.info["method"] in ("mean", "median", "ppf", "isf", "stats")]
    return out


def first_items(v):
    """the estimate tuples of a fit result: the result itself, or its first item when information is returned along"""
    for a in v.atoms:
        if isinstance(a, Tup) and a.items:
            h = a.items[0]
            inner = [b for b in h.atoms if isinstance(b, Tup)]
            if inner:
                for b in inner:
                    yield b.items[0]
            else:
                yield h


def directions(I, s, o):
    """(where, value) for every direction in the result of a scenario"""
    e = s.info.get("entry") or s.label
    if s.kind in ("dist", "rvs", "distfit"):
        m = s.info["method"]
        if m in DIRECT:
            yield "", o.value
        elif m == "fit":
            names = dist_shapes(I, dist_obj(I, s.info["dist"]))
            if names and names[0] in LOCATION:
                for v in first_items(o.value):
                    yield "[0]", v
    pos = POS.get(e) or POS.get(s.label) if s.kind in ("func", "query") else None
    if s.kind == "query" and s.label not in POS:
        pos = None
    for p, v in reachable(o.state, o.value):
        if pos and p in pos:
            if p == "" and any(isinstance(a, (Tup, Ref)) for a in v.atoms):
                continue
            yield p, v
            continue
        keys = KEYS.get(s.label.split(".")[0], "").split()
        last = re.split(r"[.:]", re.sub(r"(\[\d*\])+$", "", p))[-1] if re.search(r"[.:]", p) else ""
        if last in keys:
            yield p, v


def judge(I, d, s, o):
    if o.dead:
        return
    label = s.label if s.kind in ("dist", "rvs", "distfit", "query") else s.info.get("entry") or s.label
    for p, v in directions(I, s, o):
        if v.only(Ref) and v.tag is None:
            continue
        if v.consts() is not None and all(c is None or isinstance(c, str) for c in v.consts()):
            continue
        if any(isinstance(a, Tup) for a in v.atoms):
            continue        # its items are visited themselves
        t = d.iv(v)
        n = f"{label}{p or ''}"
        if t.lo >= 0 and t.hi <= TAU and not t.kind:
            d.proved[n] = (t.lo, t.hi)
            continue
        d.report("direction-range", None, n, f"{p or 'the result'} of {s.label} is only known to lie in [{t.lo:g}, {t.hi:g}]{' (complex)' if t.kind == 'c' else ''}")


def check(prog, rep, tier):
    d = Dir()
    I = Interp(prog, d, max_steps=300_000_000)
    I.load_all()
    st = run_all(I, scens(), each=lambda s, o: judge(I, d, s, o))
    rep.take(d)
    rep.cov.update(st)
    rep.cov["proved_directions"] = {k: list(v) for k, v in sorted(d.proved.items())}
    rep.floor("directions", len(set(d.proved) | {f["construct"] for f in d.findings.values()}), 140)


SELF = """
import numpy as np
def ok_a(x, z):
    return {"mu": np.arctan2(np.sin(x), np.cos(x)) % (2 * np.pi)}
def ok_b(x, z):
    m = np.angle(np.sum(np.exp(1j * x)))
    if m < 0:
        m += 2 * np.pi
    return {"mu": m}
def ok_c(x, z):
    out = np.empty(3)
    for i in range(3):
        out[i] = np.mod(x[i], 2 * np.pi)
    np.clip(out, 0.0, 2 * np.pi, out=out)
    return {"mu": out, "other": x}
def ok_d(x, z):
    return {"mu": np.where(np.angle(x) < 0, np.mod(x, 2 * np.pi), np.nan)}
def ok_e(x, z):
    y = np.asarray(x, dtype=float)
    if y.size == 0:
        return {"mu": y}
    return {"mu": np.sort(np.mod(y, 2 * np.pi))[0]}
def ok_f(x, z):
    m = np.arctan2(np.sin(x), np.cos(x))
    m[m < 0] += 2 * np.pi
    k = np.angle(np.exp(1j * x))
    neg = 0 > k
    k[neg] = k[neg] + 2 * np.pi
    return {"mu": m, "mean": k}
def ok_g(x, z):
    m = np.arctan2(np.sin(x), np.cos(x))
    neg = m >= 0
    return {"mu": np.where(neg, m, m + 2 * np.pi)}
def ok_h(x, z):
    m = float(np.arctan2(np.sin(x), np.cos(x)))
    return {"mu": m + 2 * np.pi if m < 0 else m}
def ok_i(x, z):
    two_pi = 2 * np.pi
    turns = np.floor(x / two_pi)
    return {"mu": x - two_pi * turns, "mean": x - 2 * np.pi * (x // (2 * np.pi))}
def bad_h(x, z):
    return {"mu": x - 2 * np.pi * np.round(x / (2 * np.pi))}
def bad_i(x, z):
    m = np.arctan2(np.sin(x), np.cos(x))
    neg = m < 0
    return {"mu": np.where(np.roll(neg, 1), m + 2 * np.pi, m)}
def bad_j(x, z):
    m = np.arctan2(np.sin(x), np.cos(x))
    neg = m < 0
    k = m[1:] + 0
    k[neg[1:]] += 2 * np.pi
    return {"mu": k}
def bad_f(x, z):
    m = np.arctan2(np.sin(x), np.cos(x))
    m[m > 0] += 2 * np.pi
    return {"mu": m}
def bad_g(x, z):
    m = np.arctan2(np.sin(x), np.cos(x))
    neg = m < 0
    m = m - 1
    return {"mu": np.where(neg, m + 2 * np.pi, m)}
def bad_a(x, z):
    return {"mu": np.arctan2(np.sin(x), np.cos(x))}
def bad_b(x, z):
    m = np.mod(x, 2 * np.pi)
    return {"mu": m - z}
def bad_c(x, z):
    if len(x) == 1:
        return {"mu": x[0]}
    return {"mu": np.mod(np.sum(x), 2 * np.pi)}
def bad_d(x, z):
    m = np.angle(np.sum(np.exp(1j * x)))
    if m > 0:
        m += 2 * np.pi
    return {"mu": m}
def bad_e(x, z):
    return {"mu": np.mod(x, 360.0)}
"""


def selftest(rep):
    d = Dir()
    names = [l[4:].split("(")[0] for l in SELF.splitlines() if l.startswith(("def bad", "def ok"))]
    KEYS["zz"] = "mu mean"
    expect(mini(SELF, d, lambda s, o: judge(d.I, d, s, o), names), names)
    del KEYS["zz"]
    rep.cov["selftest_functions"] = len(names)
