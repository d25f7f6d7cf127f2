"""C09: refitting equals fitting afresh; queries do not change the model (state provenance over constructor, fit, queries, fit, queries)."""
from .domain import Domain
from .values import *
from .state import HObj
from .interp import Program, Interp, Dead
from .scen import *
from .c10 import estimators, SKIP
from .util import reachable
from .report import Broken

RULES = [
    "estimators: on an object that has been constructed, fitted and queried, nothing the next fit leaves in the object, raises, or that a query after it returns, "
    "is computed from (or decided by) an attribute value left by the earlier fit or queries",
    "fit neither draws from a random generator that existed before the call nor modifies in place an object kept from before (it must create both anew)",
    "queries (every public method but fit, of estimators, regression models and data objects) never assign or modify in place an "
    "attribute that the constructor or fit gave a value",
]
EXPLAIN = ("Each estimator is constructed with unknown options, fitted and queried abstractly; then every attribute that this left behind is labelled as history, fit is "
           "interpreted again with other data, and the labels are followed into the state, the exceptions and the query results.")
ASSUME = ["constructor arguments that are generators or distributions are configuration, shared by the caller on purpose"]
PLOTS = set()       # plots may attach what they drew (a new attribute), not change the model


class Hist(Domain):
    def __init__(self):
        super().__init__()
        self.phase = None
        self.oid = None
        self.written = {}
        self.before = {}
        self.where = ""
        self.draws = set()

    def on_setattr(self, oid, obj, name, v, node):
        if oid == self.oid:
            if self.phase == "fit":
                self.written.setdefault(name, self.I.loc(node))
            elif self.phase == "query":
                old = self.before.get(name)
                if old is not None and not all(isinstance(a, C) and a.v is None for a in old.atoms) and not self.quiet:
                    self.report("query-changes-model", node, f"{self.where}:{name}", f"{self.where} assigns self.{name}, which is part of the fitted model")
        return v

    def on_mutate(self, regions, how, node, base):
        if self.quiet:
            return
        for r in regions:
            if r.startswith("kept:"):
                if self.phase == "fit":
                    self.report("refit-reuses-state", node, f"{self.where}:{r[5:]}", f"{self.where} modifies in place ({how}) what self.{r[5:]} kept from before the call")
                elif self.phase == "query":
                    self.report("query-changes-model", node, f"{self.where}:{r[5:]}", f"{self.where} modifies self.{r[5:]} in place ({how})")

    def ext_first(self, name, args, kw, node):
        if self.quiet or self.phase not in ("fit", "query"):
            return None
        vs = []
        if name.startswith("rng.") and args:
            vs = [args[0]]
            self.draws.add(self.I.loc(node))
        else:
            vs = [v for k, v in kw.items() if k in ("random_state", "rng", "seed")]
        for v in vs:
            for m in self.I.regions(v) | v.deps:
                if m.startswith("kept:") and any(isinstance(a, T) and a.t in ("rng", "any") for a in v.atoms):
                    if self.phase == "fit":
                        self.report("refit-reuses-state", node, f"{self.where}:{m[5:]}", f"{self.where} draws from the generator self.{m[5:]} kept from before the call, so a second fit gets other draws")
                    else:
                        self.report("query-changes-model", node, f"{self.where}:{m[5:]}", f"{self.where} advances the generator self.{m[5:]}")
        return None

    ext_pre = ext_first


def keep(I, oid, region=True, stale=None):
    """mark what the object holds: memory regions kept:<attr> and history labels on the attributes in stale"""
    o = I.st.mut(oid)
    for n, v in list(o.attrs.items()):
        o.attrs[n] = mark(I, v, frozenset([f"kept:{n}"]), frozenset([f"hist:{n}"]) if stale is not None and n in stale else EMPTY, set())


def mark(I, v, reg, lab, seen, depth=0):
    atoms = set()
    for a in v.atoms:
        if isinstance(a, Tup) and depth < 4:
            a = Tup([mark(I, x, reg, lab, seen, depth + 1) for x in a.items])
        elif isinstance(a, Ref) and a.id not in seen and depth < 4:
            seen.add(a.id)
            h = I.st.get(a.id)
            if h is not None and h.kind in ("list", "dict", "set"):
                h = I.st.mut(a.id)
                h.mem = h.mem | reg
                if lab:
                    h.attrs = {k: mark(I, x, reg, lab, seen, depth + 1) for k, x in h.attrs.items()}
                    h.items = None if h.items is None else [mark(I, x, reg, lab, seen, depth + 1) for x in h.items]
                    h.elem = None if h.elem is None else mark(I, h.elem, reg, lab, seen, depth + 1)
        atoms.add(a)
    mut = any(isinstance(a, T) and (a.t in ("arr", "any", "seq", "dict", "rng") or a.t.startswith("ext:")) for a in atoms)
    return V(frozenset(atoms), v.deps | lab, v.cdeps, (v.mem | reg) if mut else v.mem, v.tag)


def hist(v):
    return {x[5:] for x in v.deps | v.cdeps if x.startswith("hist:")}


def analyse(I, d, classes, modname="clustering"):
    base = I.st.copy()
    nfit = nq = 0
    for k, ci in classes:
        e = f"{modname}.{k}"
        qs = [q for q in public_methods(ci) if q not in SKIP]

        # constructor, fit, all queries: which attributes does that give a value?
        def first():
            o = construct(I, e, "any")
            d.oid = o.refs()[0]
            ctor = dict(I.st.get(d.oid).attrs)
            keep(I, d.oid)
            d.phase, d.where = "fit", e + ".fit"
            d.written = {}
            method(I, o, "fit", e, "any")
            d.phase = None
            return V([Tup([o])]).w(tag=None), ctor
        keepst = {}

        def th1():
            o, ctor = first()
            keepst["ctor"] = ctor
            return o
        o1 = run(I, th1, base)
        d.phase = None
        nfit += 1
        if o1.dead:
            raise Broken(f"{e}: no path completes fit")
        obj = next(iter(o1.value.atoms)).items[0]
        # queries on the fitted object
        qw = set()
        st = o1.state
        for q in qs:
            def th(q=q):
                keep(I, d.oid)
                d.before = dict(I.st.get(d.oid).attrs)
                d.phase, d.where = "query" if q not in PLOTS else None, f"{e}.{q}"
                r = method(I, obj, q, e, "any")
                d.phase = None
                return r
            o = run(I, th, st)
            d.phase = None
            nq += 1
            if not o.dead:
                after = o.state.get(d.oid).attrs
                for n, v in after.items():
                    if n not in d.before or v.atoms != d.before[n].atoms:
                        qw.add(n)
                        # a later call sees the attribute as the query left it
                        if n not in st.get(d.oid).attrs:
                            st = o.state
        stale = set(d.written) | qw
        d.before = {}

        def th2():
            keep(I, d.oid, stale=stale)
            for n in stale:
                h = I.st.mut(d.oid)
                if n not in h.attrs:
                    h.attrs[n] = V([T("any")], frozenset([f"hist:{n}"]))
            d.phase, d.where = "fit", e + ".fit"
            method(I, obj, "fit", e, "any")
            d.phase = None
            return obj
        o2 = run(I, th2, st)
        d.phase = None
        if o2.dead:
            raise Broken(f"{e}: no path completes the second fit")
        seen = set()
        for p, v in reachable(o2.state, o2.value):
            top = p.lstrip(".").split(".")[0].split("[")[0].split(":")[0]
            if top == "_rng" or top in qw - set(d.written) - set(keepst["ctor"]):
                continue       # a generator is replaced or reported at the draw; lazily filled attributes are judged by the queries
            for h in hist(v):
                if (top, h) not in seen:
                    seen.add((top, h))
                    why = "keeps its value from before" if h == top else f"is computed from self.{h} of before"
                    d.report("refit-state-stale", None, f"{e}.fit:{top}:{h}", f"after a second {e}.fit, self.{top} {why}")
                    d.findings[("refit-state-stale", f"{e}.fit:{top}:{h}")]["loc"] = d.written.get(top, "?")
        for r in o2.raises:
            for x in r[4]:
                if x.startswith("hist:"):
                    d.report("refit-state-stale", r[3], f"{e}.fit:{r[1]}:{x[5:]}", f"whether {e}.fit raises {r[1]} depends on self.{x[5:]} of before")
        for q in qs:
            def th3(q=q):
                return method(I, obj, q, e, "any")
            o = run(I, th3, o2.state)
            nq += 1
            if o.dead:
                continue
            hs = set()
            for p, v in reachable(o.state, o.value):
                hs |= hist(v)
            for h in hs:
                if not any(f["construct"].startswith(f"{e}.fit:") and f["construct"].endswith(":" + h) for f in d.findings.values()):
                    d.report("query-answer-stale", None, f"{e}.{q}:{h}", f"{e}.{q} after a second fit answers from self.{h} of before")
    return nfit, nq


def others(I, d):
    """regression models and data objects: queries leave the object as it was"""
    base = I.st.copy()
    n = 0
    for c, spec in CLASSES.items():
        if spec["fit"]:
            continue
        q, d.quiet = d.quiet, True
        o1 = run(I, lambda: construct(I, c, "any"), base)
        d.quiet = q
        if o1.dead:
            raise Broken(f"{c}: no path completes the constructor")
        obj = o1.value
        ids = obj.refs()
        ci = get_func(I, c).cls
        for m in sorted(set(spec["query"]) | set(public_methods(ci))):
            if m in PLOTS or m.startswith("_") and m not in spec["query"]:
                continue

            def th(m=m):
                for i in ids:
                    keep(I, i)
                d.oid = ids[0]
                d.before = dict(I.st.get(d.oid).attrs)
                d.phase, d.where = "query", f"{c}.{m}"
                r = method(I, obj, m, c, "any")
                d.phase = None
                return r
            run(I, th, o1.state)
            d.phase = None
            n += 1
    return n


SELF = """
import numpy as np
class Good:
    def __init__(self, k=2, seed=1):
        self.k = k
        self.seed = seed
        self.p = None
        self.done = False
    def fit(self, X):
        rng = np.random.default_rng(self.seed)
        self.done = False
        p = rng.random(self.k)
        for i in range(10):
            p = p + np.mean(X)
            if p.sum() > 3:
                self.done = True
                break
        self.p = p
        self._s = None
        return self
    def score(self):
        if self._s is None:
            self._s = self.p.sum()
        return self._s
class Flag(Good):
    def fit(self, X):
        self.p = X * 2
        self._s = None
        if np.sum(X) > 3:
            self.done = True
        return self
class Lazy(Good):
    def __init__(self, k=2, seed=1):
        super().__init__(k, seed)
        self._s = None
    def fit(self, X):
        self.p = X * 2
        return self
class Gen(Good):
    def __init__(self, k=2, seed=1):
        super().__init__(k, seed)
        self.rng = np.random.default_rng(seed)
    def fit(self, X):
        self.p = X * self.rng.random()
        self._s = None
        return self
class Conf(Good):
    def fit(self, X):
        self.k = min(self.k, X.size)
        self.p = np.zeros(self.k)
        self._s = None
        return self
class Warm(Good):
    def fit(self, X):
        p = self.p if self.p is not None else np.zeros(3)
        self.p = p + X
        self._s = None
        return self
class Hst(Good):
    def __init__(self, k=2, seed=1):
        super().__init__(k, seed)
        self.trace = []
    def fit(self, X):
        self.p = X * 2
        self.trace.append(1)
        self._s = None
        return self
class Que(Good):
    def predict(self, X):
        self.p /= self.p.sum()
        return X * self.p
    def predict2(self, X):
        self.k = 3
        return X * self.p
"""


def selftest(rep):
    d = Hist()
    I = Interp(Program.from_sources({"pycircstat2.clustering": SELF}), d)
    I.load_all()
    analyse(I, d, estimators(I))
    got = {(f["rule"], f["construct"].replace("clustering.", "").split(":")[0]) for f in d.findings.values()}
    need = {("refit-state-stale", "Flag.fit"), ("refit-state-stale", "Lazy.fit"), ("refit-reuses-state", "Gen.fit"), ("refit-state-stale", "Conf.fit"),
            ("refit-state-stale", "Warm.fit"), ("refit-reuses-state", "Hst.fit"), ("query-changes-model", "Que.predict"), ("query-changes-model", "Que.predict2")}
    if not need <= got or any(x[1].startswith("Good") for x in got):
        raise Broken(f"self-test: missing {need - got}, extra {got - need}")
    rep.cov["selftest_positive"] = sorted(map(str, got))


def check(prog, rep, tier):
    d = Hist()
    I = Interp(prog, d, max_steps=300_000_000)
    I.load_all()
    cl = estimators(I)
    nfit, nq = analyse(I, d, cl)
    nq += others(I, d)
    rep.take(d)
    rep.cov["estimators"] = [k for k, c in cl]
    rep.cov["draw_sites_in_fit"] = sorted(d.draws)
    rep.floor("estimators_refitted", nfit, 5)
    rep.floor("queries_checked", nq, 40)
