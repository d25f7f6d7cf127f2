"""C14: every reported p-value is a probability (interval analysis)."""
import re
from .ival import *
from .interp import Program, Interp
from .scen import *
from .util import reachable
from .report import Broken

RULES = [
    "the value stored under a p-value name (pval, p_value, p_values, ...) in any result lies in [0, 1] for every input, on every path",
    "counts are bounded by the number of resamples they are taken over: (count + 1) / (B + 1) needs both to come from the same B",
]
EXPLAIN = ("Every test, correlation and regression is interpreted over intervals: library functions with their documented ranges (distribution functions, clip, min, exp of "
           "a non-positive number, count_nonzero over an array whose length is a known symbol), comparisons refine variables, loop counters are bounded by the trip count. "
           "A p-value whose interval is not inside [0, 1] is reported.")
ASSUME = ["scipy cdf/sf/pvalue lie in [0, 1]; NaN is allowed (undefined test)",
          "lemma: (n - 2m) n! / (m! (n - m)! 2^(n-1)) <= 1, so the exponential of a sum of log-factorials (omnibus_test) is taken to be a probability",
          "weights are non-negative", "arrays of unknown shape broadcast as scalars"]

PV = re.compile(r"^(.*_)?(pval|p_value|pvalue|p_values|pvals|pvalues|p_val)s?(_.*)?$")


class Pv(Ival):
    def __init__(self):
        super().__init__()
        self.lemmas = set()
        self.proved = {}

    def source(self, role, name, v):
        if role == "weights":
            return NONNEG
        if role == "prob":
            return PROB
        return None


def scens():
    out = [s for s in fn_scens() + circ_sample_scens() if s.info["entry"].split(".")[0] in ("hypothesis", "correlation")]
    out += [s for s in class_scens() if s.label.startswith(("regression.", "base."))]
    return out


def judge(d, s, o):
    if o.dead:
        return
    for p, v in reachable(o.state, o.value):
        last = re.split(r"[.:]", re.sub(r"\[[^]]*\]$", "", p))[-1]
        key = last.strip("'\"")
        if not PV.match(key):
            continue
        t = d.iv(v)
        n = f"{s.info.get('entry') or s.label}:{key}"
        if v.consts() is not None and all(c is None for c in v.consts()) :
            continue
        if t.lo >= 0 and t.hi <= 1 and not t.kind:
            d.proved.setdefault(n, (t.lo, t.hi))
            continue
        d.report("pvalue-range", None, n, f"{p} of {s.label} is only known to lie in [{t.lo:g}, {t.hi:g}]")


def check(prog, rep, tier):
    d = Pv()
    I = Interp(prog, d, max_steps=300_000_000)
    I.load_all()
    st = run_all(I, scens(), each=lambda s, o: judge(d, s, o))
    rep.take(d)
    rep.cov.update(st)
    rep.cov["proved_ranges"] = {k: list(v) for k, v in sorted(d.proved.items())}
    rep.cov["lemma_sites"] = sorted(d.lemmas)
    rep.floor("p_values", len({k for k in d.proved} | {f["construct"] for f in d.findings.values()}), 25)


SELF = """
import numpy as np
from scipy.stats import norm, chi2
def ok_a(x, z):
    return {"pval": 2 * norm.sf(abs(z))}
def ok_b(x, z):
    return {"pval": float(np.clip(2 * np.exp(-z), 0.0, 1.0)), "p_value": 1 - chi2(df=2).cdf(z * 2)}
def ok_c(x, z, n_simulation=99):
    rng = np.random.default_rng(1)
    stats = []
    for _ in range(n_simulation):
        stats.append(np.sum(rng.permutation(x) * x))
    if n_simulation < 1:
        raise ValueError("n")
    k = 0
    for s in stats:
        if s > z:
            k += 1
    return {"pval": (k + 1) / (n_simulation + 1), "p_value": (np.sum(np.array(stats) > z) + 1) / (1 + n_simulation), "p_val": np.mean(np.array(stats) > z)}
def ok_d(x, z):
    p = 2 * np.exp(-z ** 2)
    if p > 1:
        p = 1.0
    return {"pval": p}
def ok_e(x, B=10):
    out = np.empty(B)
    for i in range(B):
        out[i] = x[i]
    return {"pval": np.count_nonzero(out >= 1) / B if B > 0 else np.nan}
def bad_a(x, z):
    return {"pval": 2 * norm.sf(z)}
def bad_b(x, z):
    return {"pval": 2 * np.exp(-z ** 2)}
def bad_c(x, z, n_simulation=99):
    stats = np.array([np.sum(x * i) for i in range(n_simulation + 1)])
    return {"pval": (np.count_nonzero(stats > z) + 1) / (n_simulation + 1)}
def bad_d(x, z):
    return {"pval": 1 - 2 * chi2.sf(z, 3)}
def bad_e(x, B=10):
    k = 1
    for i in range(B):
        if x[i] > 0:
            k += 1
        if x[i] > 1:
            k += 1
    return {"pval": k / (B + 1)}
"""


def selftest(rep):
    d = Pv()
    names = [l[4:].split("(")[0] for l in SELF.splitlines() if l.startswith(("def bad", "def ok"))]
    expect(mini(SELF, d, lambda s, o: judge(d, s, o), names), names)
    rep.cov["selftest_functions"] = len(names)
