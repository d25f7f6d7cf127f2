"""C10: unfitted models refuse to answer (typestate: constructor only -> query must raise ValueError)."""
from .domain import Domain
from .values import *
from .interp import Program, Interp
from .scen import *
from .report import Broken

RULES = ["for every public method other than fit of every class of the clustering module that defines fit: called on an object on which only the constructor "
         "has run, with any arguments, no path returns normally and no path raises anything but ValueError"]
EXPLAIN = ("Each estimator is constructed abstractly (all constructor options), then each public method is interpreted on that object with unknown arguments; "
           "all exits (normal, each exception type) are collected.")
ASSUME = ["argument conversion of documented argument types (np.asarray of the caller's data) does not raise another exception before the check"]
SKIP = {"fit", "fit_predict", "fit_transform", "get_params", "set_params", "__init__"}
OKEXC = {"ValueError", "NotFittedError"}


class Unf(Domain):
    def __init__(self):
        super().__init__()
        self.none = []
        self.recording = None
        self.reads, self.writes = set(), set()

    def on_getattr(self, oid, obj, name, v, node):
        if self.recording == "read" and obj is not None and obj.cls is not None:
            self.reads.add((obj.cls.name, name))
        return v

    def on_setattr(self, oid, obj, name, v, node):
        if self.recording == "fit" and obj is not None and obj.cls is not None:
            self.writes.add((obj.cls.name, name))
        return v

    def on_none_attr(self, name, node, base):
        if not self.quiet and base.only(C):
            self.none.append((self.I.loc(node), self.I.qual(), name))


def estimators(I):
    """(class name, ClassInfo) of all classes in the clustering module with a fit method"""
    out = []
    fr = I.st.get(I.modframes["pycircstat2.clustering"]) if "pycircstat2.clustering" in I.modframes else None
    if fr is None:
        raise AnchorLost("clustering module")
    for k, v in fr.attrs.items():
        if k.startswith("_"):
            continue
        for a in v.atoms:
            if isinstance(a, ClassA) and a.cls.mod == "pycircstat2.clustering" and a.cls.find("fit")[1] is not None:
                out.append((k, a.cls))
    return sorted(out, key=lambda x: x[0])


def stateless(I, d, base, e, ci, q):
    """the method reads no attribute that fit assigns, on a fitted object either: a pure helper of its arguments"""
    d.reads, d.writes, names = set(), set(), set()

    def th():
        o = construct(I, e, "any")
        d.recording = "fit"
        method(I, o, "fit", e, "any")
        d.recording = "read"
        return method(I, o, q, e, "any")
    qz, d.quiet = d.quiet, True
    try:
        run(I, th, base)
    finally:
        d.recording, d.quiet = None, qz
    fitted = {n for c, n in d.writes if c == ci.name}
    return not ({n for c, n in d.reads if c == ci.name} & fitted)


def analyse(I, d, modname="clustering", classes=None):
    base = I.st.copy()
    n = 0
    covered, helpers = [], []
    for k, ci in classes:
        e = f"{modname}.{k}"
        for q in public_methods(ci):
            if q in SKIP:
                continue
            d.none = []

            def th():
                o = construct(I, e, "any")
                return method(I, o, q, e, "any")
            o = run(I, th, base)
            if not o.dead and stateless(I, d, base, e, ci, q):
                helpers.append(f"{k}.{q}")
                continue
            n += 1
            covered.append(f"{k}.{q}")
            if not o.dead:
                d.report("answers-unfitted", None, f"{e}.{q}", f"{k}.{q} can return normally before fit")
            for r in o.raises:
                if r[1] not in OKEXC and not r[2].startswith(f"{e}.__init__"):
                    d.report("wrong-error-unfitted", r[3], f"{e}.{q}:{r[1]}", f"{k}.{q} can raise {r[1]} before fit")
            for loc, fn, name in d.none:
                d.report("wrong-error-unfitted", None, f"{e}.{q}:None.{name}", f"{k}.{q} uses attribute {name} of None before fit at {loc} in {fn}")
    return n, covered, helpers


def selftest(rep):
    src = """
import numpy as np
class M:
    def __init__(self, k=2, unit="radian"):
        self.k = k
        self.p = None
    def fit(self, X):
        self.p = np.mean(X)
        return self
    def predict(self, X=None):
        if X is None:
            return 0.0
        if self.p is None:
            raise ValueError("fit first")
        return self.p
    def score(self):
        return self.p.sum()
    def helper(self, a):
        return a * self.k
    def ok(self, X=None):
        self._check()
        return self.p
    def _check(self):
        if self.p is None:
            raise ValueError("fit first")
"""
    d = Unf()
    I = Interp(Program.from_sources({"pycircstat2.clustering": src}), d)
    I.load_all()
    analyse(I, d, "clustering", estimators(I))
    got = {f["construct"].split(":")[0] for f in d.findings.values()}
    if got != {"clustering.M.predict", "clustering.M.score"}:
        raise Broken(f"self-test: {got}")
    rep.cov["selftest_positive"] = sorted(got)


def check(prog, rep, tier):
    d = Unf()
    I = Interp(prog, d, max_steps=80_000_000)
    I.load_all()
    cl = estimators(I)
    n, cov, helpers = analyse(I, d, "clustering", cl)
    rep.take(d)
    rep.cov["methods"] = cov
    rep.cov["pure_helpers_exempt"] = helpers
    rep.floor("classes", len(cl), 5)
    rep.floor("methods_checked", n, 17)
