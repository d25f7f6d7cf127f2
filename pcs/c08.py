"""C08: distribution objects have no memory of earlier calls (cache keys cover cached values; no state is carried between calls)."""
import ast
from .domain import Domain
from .values import *
from .interp import Program, Interp, ClassInfo
from .scen import *
from .util import reachable
from .report import Broken

RULES = [
    "value stored in a container that outlives the call (attribute of a shared distribution object, module variable): every parameter and caller argument it "
    "is computed from is also what its key is computed from; rounding, bucketing, formatting, clipping an argument makes a different quantity, which does not stand for it",
    "one container, one kind of key: all functions that store under keys of the same shape store the result of the same computation",
    "no other attribute of a shared object or module variable that a call assigns is read by a later call before it is assigned again",
    "nothing taken out of such a container is modified in place or handed to the caller without a copy",
]
EXPLAIN = ("Every distribution and every public method (plain, frozen, rvs, fit) is interpreted with one label per caller argument and one label per parameter of an internal "
           "function that is given different values by different callers; labels are followed into every key and every stored value. A second run starts from an object "
           "already used: attributes assigned by calls and cached contents carry a label of their own, which no result may show and no in-place operation may touch.")
ASSUME = ["cached quantities are periodic in angular parameters (a key may hold an angle reduced to one turn)",
          "the stored random generator of a distribution is its random state, not memory"]

LOSSY = {"builtins.round", "builtins.int", "builtins.abs", "builtins.bool", "builtins.str", "builtins.repr", "builtins.format", "builtins.hash", "builtins.len", "builtins.type", "builtins.id",
         "numpy.round", "numpy.around", "numpy.rint", "numpy.floor", "numpy.ceil", "numpy.trunc", "numpy.fix", "numpy.clip", "numpy.abs", "numpy.absolute",
         "numpy.fabs", "numpy.sign", "math.floor", "math.ceil", "math.trunc", "math.fabs", "numpy.float32", "numpy.float16",
         "numpy.digitize", "numpy.searchsorted", "builtins.min", "builtins.max", "numpy.minimum", "numpy.maximum", "numpy.sum", "numpy.mean", "numpy.max", "numpy.min",
         "numpy.size", "numpy.shape", "numpy.ndim"}
LOSSY_METH = {"round", "clip", "format", "sum", "mean", "max", "min", "prod"}


class Mem(Domain):
    """pass 'stores': keys against values; pass 'reuse': labels of an earlier call"""

    def __init__(self):
        super().__init__()
        self.on = False
        self.varying = None          # after pass 0: {(qual, param)} given different constants / values
        self.seen = {}               # (qual, param) -> atoms seen
        self.persist = {}            # heap id -> (class name or module, attr)
        self.shared = {}             # heap id of shared objects -> class name
        self.writes = {}             # (class, attr) -> loc
        self.stores = {}             # container -> {(site function, shape): (tag, loc)}
        self.contents = {}           # container -> joined V
        self.nstores = set()
        self.keyed = set()
        self.loading = True
        self.direct = True           # the labels are the distribution's own parameters
        self.terms, self.inner, self.params, self.leaf, self.inner0, self.sigs = {}, {}, {}, {}, {}, {}

    def forget(self):
        self.terms, self.inner, self.leaf, self.inner0, self.sigs = {}, {}, {}, {}, {}

    # -- labels
    def on_param(self, f, name, v):
        k = (f.qual, name)
        if self.varying is None:
            s = self.seen.setdefault(k, set())
            if len(s) < 6:
                s.add(frozenset(a for a in v.atoms if isinstance(a, C)) if v.only(C) else "other")
            return v
        if k in self.varying:
            lab = f"{f.qual}({name})"
            self.params[lab] = f.qual
            return v.w(deps=v.deps | {lab}, tag=v.tag, sn=v.sn)
        return v

    def term(self, kind, vs):
        """label of a quantity that does not determine its arguments (interned by operation, constants and argument labels)"""
        d, c = self.I.flatdeps(*vs)
        d = d | c
        if not d:
            return None
        cs = tuple(sorted(repr(a) for v in vs for a in v.atoms if isinstance(a, C)))
        leaves = frozenset(y for x in d for y in self.leaf.get(x, (x,)))
        k = (kind, leaves, cs, frozenset(self.sig(x, 3) for x in d))
        lab = self.terms.get(k)
        if lab is None:
            lab = self.terms[k] = f"~{kind}#{len(self.terms)}"
            self.inner[lab] = EMPTY
            self.inner0[lab] = d
            self.leaf[lab] = leaves
        self.inner[lab] = self.inner[lab] | (d - {lab})
        return frozenset([lab])

    def sig(self, d, depth):
        """operations applied to an argument, innermost ones beyond a depth left out"""
        r = self.sigs.get((d, depth))
        if r is None:
            if d not in self.inner:
                r = d
            elif depth == 0:
                r = self.leaf[d]
            else:
                r = (d[1:].split("#")[0], frozenset(self.sig(x, depth - 1) for x in self.inner0[d]))
            self.sigs[(d, depth)] = r
        return r

    def lossy(self, kind, vs, node):
        if not self.on:
            return None
        t = self.term(kind, vs)
        return None if t is None else V([T("str" if kind == "format" else "num")], t)

    def ext_pre(self, name, args, kw, node):
        if not self.on or not args:
            return None
        if not (name in LOSSY or (name.startswith("?.") and name[2:] in LOSSY_METH)):
            return None
        if name == "builtins.int" and all(isinstance(a, T) and a.t in ("int", "bool") or isinstance(a, C) and isinstance(a.v, int) for a in args[0].atoms):
            return None
        if name in ("builtins.str", "builtins.repr") and len(args) == 1:
            return None
        vs = list(args) + list(kw.values())
        if any(a for v in vs for a in v.atoms if isinstance(a, (Ref, Tup))):
            vs = [self.I.flat(v) for v in vs]
        t = self.term(name.split(".")[-1], vs)
        if t is None:
            return None
        last = name.split(".")[-1]
        return V([T("int" if last in ("int", "len", "hash") else "str" if last == "format" else "any")], t)

    ext_first = ext_pre

    # -- what computes a stored value
    def lub(self, a, b):
        return "mixed"

    def bin(self, op, l, r, node):
        return self.mk(type(op).__name__, [l.tag, r.tag])

    def mk(self, n, tags):
        ts = [t for t in tags if t]
        if not ts:
            return None
        if "mixed" in ts:
            return "mixed"
        s = n + "(" + ",".join(ts) + ")"
        return s if len(s) < 200 else "mixed"

    def ext(self, name, cat, args, kw, node):
        last = name.split(".")[-1]
        ts = [a.tag for a in args]
        if last in ("float", "asarray", "array", "item", "copy", "squeeze", "ravel"):
            return next((t for t in ts if t), None)
        return self.mk(last, ts)

    def call_result(self, f, vals, v, node):
        if isinstance(f.node, ast.Lambda) or v.only(C) or v.refs() or v.only(Tup):
            return v
        if v.tag:
            return v
        return v.w(tag=f.qual, sn=v.sn)

    # -- stores
    def container(self, base):
        for a in base.atoms:
            if isinstance(a, Ref) and a.id in self.persist:
                return self.persist[a.id]
        return None

    def shape(self, idx):
        for a in idx.atoms:
            if isinstance(a, Tup):
                return (len(a.items),) + tuple(repr(x.const()[1]) if x.const()[0] and isinstance(x.const()[1], str) else "_" for x in a.items)
        if idx.consts():
            return tuple(sorted(map(repr, idx.consts())))
        return ("?",)

    def on_store(self, base, idx, v, node):
        c = self.container(base)
        if c is None or not self.on:
            return v
        fv, fk = self.I.flat(v), self.I.flat(idx)
        vd = self.norm(self.deep(v))
        kd = self.norm(self.deep(idx, False))
        kc = self.norm(self.deep(idx))
        self.nstores.add((self.I.loc(node), c))
        if self.varying is None:
            o = self.contents.get(c)
            self.contents[c] = fv.w(deps=EMPTY, cdeps=EMPTY) if o is None else self.I.join(o, fv.w(deps=EMPTY, cdeps=EMPTY))
            return v
        # what the value holds has to be held by the key; what merely decided between values may have decided between keys
        # (labels of raw data are not told apart that finely: a fit merges the branches its estimates come from)
        vv = self.norm(self.deep(v, False)) if self.direct else EMPTY
        miss = self.uncovered(vv, kd) | self.uncovered(vd - vv, kc)
        nm = f"{c[0]}.{c[1]}"
        if miss:
            self.report("key-does-not-cover-value", node, f"{self.I.qual()}:{c[1]}",
                        f"entry of {nm} is computed from {', '.join(sorted(miss))}, which its key does not determine (key from {', '.join(sorted(self.names(kd))) or 'nothing'})")
        st = self.stores.setdefault(nm, {})
        sh = self.shape(idx)
        prod = fv.tag
        for (q, s2), (t2, loc2) in st.items():
            if s2 == sh and t2 != prod and "mixed" not in (t2, prod) and t2 and prod:
                self.report("two-computations-one-key", node, f"{self.I.qual()}:{c[1]}",
                            f"{nm} holds the result of {prod} here and of {t2} at {loc2} under the same keys: which one a call finds depends on the calls before it")
        st.setdefault((self.I.qual(), sh), (prod, self.I.loc(node)))
        return self.strip(v)

    def on_lookup(self, base, idx, v, node):
        if not self.on or self.container(base) is None or v.only(C):
            return v
        k = self.I.flat(idx)
        h = frozenset(x for x in v.deps if "hist:" in x)
        s = self.strip(v)
        return V(s.atoms, k.deps | h, k.cdeps, s.mem, s.tag)

    def strip(self, v, depth=0):
        """what a later lookup finds: it depends on the key used there"""
        atoms = set()
        for a in v.atoms:
            if isinstance(a, Tup) and depth < 4:
                a = Tup([self.strip(x, depth + 1) for x in a.items])
            elif isinstance(a, Ref) and depth < 4:
                o = self.I.st.get(a.id)
                if o is not None and o.kind in ("dict", "list", "set"):
                    n = o.copy()
                    n.attrs = {k: self.strip(x, depth + 1) for k, x in o.attrs.items()}
                    n.items = None if o.items is None else [self.strip(x, depth + 1) for x in o.items]
                    n.elem = None if o.elem is None else self.strip(o.elem, depth + 1)
                    i = self.I.newid(o.kind)
                    self.I.st.new(i, n)
                    a = Ref(i)
            atoms.add(a)
        return V(frozenset(atoms), EMPTY, EMPTY, v.mem, v.tag)

    def names(self, ds, depth=0):
        return {d if depth > 4 or d not in self.inner else d[1:].split("#")[0] + "(" + ", ".join(sorted(self.names(self.inner[d], depth + 1))) + ")" for d in ds}

    def deep(self, v, control=True):
        out = set()
        seen = set()

        def go(x, d):
            out.update(x.deps)
            if control:
                out.update(x.cdeps)
            if d > 6:
                return
            for a in x.atoms:
                if isinstance(a, Tup):
                    for y in a.items:
                        go(y, d + 1)
                elif isinstance(a, Ref) and a.id not in seen:
                    seen.add(a.id)
                    o = self.I.st.get(a.id)
                    if o is not None and o.kind in ("list", "set", "dict"):
                        for y in list(o.items or []) + list(o.attrs.values()) + ([o.elem] if o.elem is not None else []):
                            go(y, d + 1)
        go(v, 0)
        return out

    def norm(self, deps):
        return frozenset(d for d in deps if not d.startswith("self.") and not d.startswith("hist:"))

    def uncovered(self, vd, kd):
        """labels of the value that the key does not determine"""
        active = {c.qual for c in self.I.ctxs}
        closed, seen, todo = set(), set(), list(vd)
        while todo:
            d = todo.pop()
            if d not in seen:
                seen.add(d)
                todo += self.inner.get(d, ())

        def leaf(d):
            return d in kd or d.startswith("hist:") or d.startswith("self.") or (d in self.params and self.params[d] not in active)
        closed = {d for d in seen if leaf(d)}
        # a term is determined once all it is computed from is (greatest solution: cycles come from loops)
        cov = closed | {d for d in seen if d in self.inner}
        while True:
            bad = {d for d in cov - closed if not self.inner[d] <= cov}
            if not bad:
                break
            cov -= bad
        out, seen2, todo = set(), set(), [d for d in vd if d not in cov]
        while todo:
            d = todo.pop()
            if d in seen2 or d in cov:
                continue
            seen2.add(d)
            if d in self.inner:
                todo += self.inner[d]
            else:
                out.add(d)
        return out or {d for d in vd if d not in cov}

    # -- state of shared objects
    def on_setattr(self, oid, obj, name, v, node):
        if self.on and oid in self.shared:
            fresh = False
            for a in v.atoms:
                if isinstance(a, Ref):
                    o = self.I.st.get(a.id)
                    if o is not None and o.kind in ("dict", "list", "set"):
                        self.persist[a.id] = (self.shared[oid], name)
                        if not o.attrs and not o.items and o.elem is None:
                            fresh = True
            if not fresh and name not in ("_random_state", "random_state"):
                self.writes.setdefault((self.shared[oid], name), self.I.loc(node))
        return v

    def on_global_write(self, name, v):
        if self.on:
            self.writes.setdefault(("module", name), "")

    def on_mutate(self, regions, how, node, base):
        if not self.on or self.quiet:
            return
        for r in regions:
            if r.startswith("cached:"):
                self.report("cached-value-modified", node, f"{self.I.qual()}:{r[7:]}", f"a value taken from {r[7:]} is modified in place by {how}; later calls see the change")
        if how.startswith(("list.", "set.")):
            c = self.container(base)
            if c is not None:
                self.report("call-state-kept", node, f"{self.I.qual()}:{c[1]}", f"{how} records something of this call in {c[0]}.{c[1]}")


def setup(I, d):
    """shared objects: distribution singletons and module-level containers"""
    for mod, fid in I.modframes.items():
        o = I.st.get(fid)
        for k, v in o.attrs.items():
            for a in v.atoms:
                if not isinstance(a, Ref):
                    continue
                h = I.st.get(a.id)
                if h is None:
                    continue
                if h.kind == "obj" and h.cls is not None and any("rv_continuous" in b for b in h.cls.ext_bases()):
                    d.shared[a.id] = h.cls.name
                    for n, x in h.attrs.items():
                        for r in x.refs():
                            c = I.st.get(r)
                            if c is not None and c.kind in ("dict", "list", "set"):
                                d.persist[r] = (h.cls.name, n)
                elif h.kind in ("dict", "list", "set"):
                    d.persist[a.id] = (mod.split(".")[-1], k)


def mark_used(I, d):
    """the state of an object that has been used: attributes set by calls and cached contents belong to the past"""
    for oid, cn in d.shared.items():
        if I.st.get(oid) is None:
            continue
        o = I.st.mut(oid)
        for (c, n), loc in d.writes.items():
            if c == cn and n not in ("_random_state", "random_state"):
                x = o.attrs.get(n)
                if x is not None and (x.refs() or x.only(Func)):
                    o.attrs[n] = V(x.atoms, x.deps | {f"hist:{cn}.{n}"}, x.cdeps)
                else:
                    o.attrs[n] = V([T("any")], frozenset([f"hist:{cn}.{n}"]))
    for mod, fid in I.modframes.items():
        for (c, n), loc in d.writes.items():
            if c == "module" and n in I.st.get(fid).attrs:
                I.st.mut(fid).attrs[n] = V([T("any")], frozenset([f"hist:{n}"]))
    for rid, c in list(d.persist.items()):
        o = I.st.get(rid)
        if o is None or c not in d.contents or o.kind != "dict":
            continue
        o = I.st.mut(rid)
        x = recache(I, d.contents[c], f"cached:{c[0]}.{c[1]}")
        o.elem = x if o.elem is None else I.join(o.elem, x)


def recache(I, v, region, depth=0):
    """a stored value as a later call finds it"""
    atoms = set()
    for a in v.atoms:
        if isinstance(a, Tup) and depth < 4:
            atoms.add(Tup([recache(I, x, region, depth + 1) for x in a.items]))
        elif isinstance(a, Ref):
            continue
        else:
            atoms.add(a)
    for tup in getattr(v, "parts", ()):
        pass
    arr = any(isinstance(a, T) and a.t in ("arr", "any") for a in atoms)
    return V(atoms or [T("any")], EMPTY, EMPTY, frozenset([region]) if arr or not atoms else EMPTY)


def scens():
    return dist_scens()


def analyse(I, d, sc, passes=("const", "stores", "reuse")):
    base = I.st.copy()
    d.loading = False
    d.on = True
    n = 0
    qz = d.quiet
    d.quiet = True
    for s in sc:
        if not s.info.get("frozen"):
            run(I, lambda: s.fn(I), base)
    d.quiet = qz
    d.varying = {k for k, s in d.seen.items() if len(s) > 1}
    for s in sc:
        d.forget()
        d.direct = s.info.get("method") != "fit"
        run(I, lambda: s.fn(I), base)
        n += 1
    d.on = False
    I.st = base.copy()
    mark_used(I, d)
    used = I.st.copy()
    d.on = True
    vals = d.varying
    for s in sc:
        d.forget()
        o = run(I, lambda: s.fn(I), used)
        if o.dead:
            continue
        hit = {}
        for p, v in reachable(o.state, o.value):
            for x in v.deps | v.cdeps:
                if x.startswith("hist:") or "hist:" in x:
                    hit.setdefault(x[x.index("hist:"):].split(",")[0].split("}")[0], p)
            for m in v.mem:
                if m.startswith("cached:") and any(isinstance(a, T) and a.t == "arr" for a in v.atoms):
                    d.report("cached-value-handed-out", None, f"{s.label}:{m[7:]}", f"{s.label} returns an array kept in {m[7:]} without copying it")
        for x in hit:
            d.report("result-depends-on-history", None, f"{s.label}:{x[5:]}", f"the result of {s.label} depends on {x[5:]} as an earlier call left it")
        for r in o.raises:
            for x in r[4]:
                if x.startswith("hist:"):
                    d.report("result-depends-on-history", r[3], f"{s.label}:{x[5:]}:raise", f"an exception of {s.label} depends on {x[5:]} as an earlier call left it")
    d.on = False
    return n


SELF = """
import numpy as np
from scipy.stats import rv_continuous
def norm_a(kappa, nu):
    return np.exp(kappa) * nu
def norm_b(kappa, nu):
    return np.log(kappa) * nu
class base(rv_continuous):
    def _argcheck(self, kappa, nu):
        return True
    def __init__(self, **k):
        super().__init__(**k)
        self._cache = {}
class good_gen(base):
    def _pdf(self, x, kappa, nu):
        return x * self.get(kappa, nu)
    def get(self, kappa, nu, n=100):
        key = (float(kappa), float(nu), int(n))
        v = self._cache.get(key)
        if v is None:
            v = norm_a(kappa, nu) * n
            self._cache[key] = v
        return v
    def _cdf(self, x, kappa, nu):
        return x + self.get(kappa, nu, 200)
class missing_gen(base):
    def _pdf(self, x, kappa, nu):
        key = (float(kappa),)
        if key not in self._cache:
            self._cache[key] = norm_a(kappa, nu)
        return x * self._cache[key]
class lossy_gen(base):
    def _pdf(self, x, kappa, nu):
        key = (round(float(kappa), 3), float(nu))
        if key not in self._cache:
            self._cache[key] = norm_a(kappa, nu)
        return x * self._cache[key]
class param_gen(base):
    def get(self, kappa, nu, n=100):
        key = (float(kappa), float(nu))
        if key not in self._cache:
            self._cache[key] = norm_a(kappa, nu) * n
        return self._cache[key]
    def _pdf(self, x, kappa, nu):
        return x * self.get(kappa, nu)
    def _cdf(self, x, kappa, nu):
        return x * self.get(kappa, nu, 200)
class two_gen(base):
    def _pdf(self, x, kappa, nu):
        key = (float(kappa), float(nu))
        if key not in self._cache:
            self._cache[key] = norm_a(kappa, nu)
        return x * self._cache[key]
    def _cdf(self, x, kappa, nu):
        key = (float(kappa), float(nu))
        if key not in self._cache:
            self._cache[key] = norm_b(kappa, nu)
        return x * self._cache[key]
class last_gen(base):
    def _pdf(self, x, kappa, nu):
        self._c = norm_a(kappa, nu)
        return x * self._c
    def _cdf(self, x, kappa, nu):
        return x * self._c
class inplace_gen(base):
    def _pdf(self, x, kappa, nu):
        key = (float(kappa), float(nu))
        t = self._cache.get(key)
        if t is None:
            t = np.arange(3) * kappa * nu
            self._cache[key] = t
        t *= 2
        return x * t.sum()
good = good_gen(name="good")
missing = missing_gen(name="missing")
lossy = lossy_gen(name="lossy")
param = param_gen(name="param")
two = two_gen(name="two")
last = last_gen(name="last")
inplace = inplace_gen(name="inplace")
"""


def selftest(rep):
    d = Mem()
    I = Interp(Program.from_sources({"pycircstat2.zz": SELF}), d)
    I.load_all()
    setup(I, d)
    sc = []
    for n in "good missing lossy param two last inplace".split():
        for m in ("_pdf", "_cdf"):
            if n in ("missing", "lossy", "inplace") and m == "_cdf":
                continue
            sc.append(Scen(f"zz.{n}.{m}", "dist", lambda I, n=n, m=m: I.call(I.getattr(I.resolve("zz." + n), m, None), [src(I, "angles", "x"), src(I, "num", "kappa"), src(I, "num", "nu")], {}, None)))
    analyse(I, d, sc)
    got = {(f["rule"], f["construct"].split(":")[0].replace("zz.", "").split(".")[0].replace("_gen", "")) for f in d.findings.values()}
    need = {("key-does-not-cover-value", "missing"), ("key-does-not-cover-value", "lossy"), ("key-does-not-cover-value", "param"), ("two-computations-one-key", "two"),
            ("result-depends-on-history", "last"), ("cached-value-modified", "inplace")}
    if got != need:
        raise Broken(f"self-test: {got ^ need}")
    rep.cov["selftest_positive"] = sorted(map(str, got))


def check(prog, rep, tier):
    d = Mem()
    I = Interp(prog, d, max_steps=300_000_000)
    I.load_all()
    setup(I, d)
    n = analyse(I, d, scens())
    rep.take(d)
    rep.cov["containers_that_outlive_calls"] = sorted({f"{c[0]}.{c[1]}" for l, c in d.nstores})
    rep.cov["attributes_assigned_by_calls"] = sorted(f"{a}.{b}" for a, b in d.writes)
    rep.cov["internal_parameters_with_several_values"] = len(d.varying)
    rep.floor("shared_objects", len(d.shared), 13)
    rep.floor("store_sites", len(d.nstores), 8)
    rep.floor("calls_analysed", n, 200)
