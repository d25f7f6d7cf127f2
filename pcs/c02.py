"""C02: seeded runs are reproducible; no ambient randomness (provenance analysis of random generators)."""
from .domain import Domain
from .values import *
from .interp import Program, Interp
from .scen import *
from .entries import SEEDS
from .util import reachable
from .report import Broken

RULES = [
    "no call of a global-state random function (numpy.random.<legacy>, random.<fn>, unseeded scipy.stats rvs/bootstrap/..., DataFrame.sample) on any path of any entry point",
    "with a seed argument given (or its documented default in force), every generator that is drawn from was created from it: not from None/entropy, "
    "not from the clock/process/hash, not a different constant, not a generator created at import time or stored in module state, not the distribution's own stored generator",
    "no result depends on the clock, process id, os.urandom, uuid, hash() or id()",
    "a seeded draw leaves no generator behind on a shared distribution object or in module state",
]
EXPLAIN = ("Every public entry point is interpreted with its seed given and with its seed omitted. Generators carry their provenance "
           "(seeded by a value / constant / entropy / module level / distribution state); each draw is checked against the seeds of the scenario.")
ASSUME = ["numpy Generator/RandomState streams are functions of their seed",
          "set and dict iteration order is deterministic for the numeric keys used here"]

GEN = {"numpy.random." + n for n in "default_rng RandomState Generator PCG64 PCG64DXSM MT19937 Philox SFC64 SeedSequence".split()} | {
    "random.Random", "scipy._lib._util.check_random_state", "sklearn.utils.check_random_state"}
AMBIENT = ("time.", "datetime.", "os.urandom", "os.getpid", "uuid.", "secrets.")
AMBIENT_EXACT = {"builtins.id", "builtins.hash", "os.times", "threading.get_ident"}
STOCH = {"scipy.stats." + n for n in "bootstrap permutation_test monte_carlo_test goodness_of_fit dunnett".split()} | {
    "scipy.optimize." + n for n in "differential_evolution dual_annealing basinhopping".split()} | {"scipy.cluster.vq.kmeans", "scipy.cluster.vq.kmeans2"}
SEEDKW = ("random_state", "seed", "rng")


class Rand(Domain):
    loading = True
    expect = frozenset()      # labels one of which a generator must derive from
    strict = True             # ambient generators are violations
    nodraw_state = False

    def __init__(self):
        super().__init__()
        self.draws = set()
        self.gens = set()

    def lub(self, a, b):
        return frozenset(a) | frozenset(b)

    def bin(self, op, l, r, node):
        return None

    def index(self, base, idx, kind, node):
        return base.tag if base.tag and any("gen:" in x for x in base.tag) else None

    # provenance of a generator created from argument values
    def prov(self, args, node):
        if self.loading:
            return frozenset(["gen:import"])
        if not args:
            return frozenset(["gen:entropy"])
        out = set()
        a = args[0]
        if a.tag:
            out |= {t for t in a.tag if t.startswith("gen:")}
        if any(isinstance(x, C) and x.v is None for x in a.atoms):
            out.add("gen:entropy")
        amb = [d for d in a.deps if d.startswith("ambient:")]
        if amb:
            out.add("gen:" + amb[0])
        if any(d == "self._random_state" for d in a.deps) and not (a.deps & self.expect):
            out.add("gen:dist-state")
        if not out:
            out.add("gen:const" if a.only(C) and not (a.deps | a.cdeps) else "gen:seeded")
        return frozenset(out)

    def ext(self, name, cat, args, kw, node):
        last = name.split(".")[-1]
        if name in GEN:
            self.gens.add((self.I.loc(node), self.I.qual()))
            return self.prov(list(args) + [v for v in kw.values()], node)
        if name.startswith("rng.") and last not in ("__class__", "bit_generator", "spawn"):
            self.draw(args[0], node, last)
            return None
        if name.startswith("rng."):
            return args[0].tag
        if (name.startswith("numpy.random.") or name.startswith("random.")) and not self.loading:
            self.legacy(name, node)
        elif name.startswith("numpy.random.") and last == "seed":
            self.legacy(name, node)
        if name in STOCH or (name.startswith("scipy.stats.") and last in ("rvs", "random", "resample")) or (name.startswith("?.") and last in ("sample", "rvs")):
            v = next((kw[k] for k in SEEDKW if k in kw), None)
            if v is None:
                self.legacy(name, node)
            else:
                self.draw(v.w(tag=v.tag or self.prov([v], node)), node, last)
        t = None
        for a in list(args):
            if a.tag and any("gen:" in x for x in a.tag) and cat in (None, "view", "method", "ctor"):
                t = self.join(t, a.tag)
        return t

    def ext_pre(self, name, args, kw, node):
        if name.startswith(AMBIENT) or name in AMBIENT_EXACT or name.endswith((".now", ".utcnow", ".today")) and name.startswith(("datetime", "?")):
            if self.loading:
                return None
            d, c = self.I.flatdeps(*args) if args else (EMPTY, EMPTY)
            return V([T("num")], d | {f"ambient:{name}@{self.I.qual()}"}, c)
        return None

    def legacy(self, name, node):
        self.draws.add((self.I.loc(node), name))
        self.report("global-random-state", node, f"{self.I.qual()}:{name}", f"{name} uses the global random state")

    def draw(self, g, node, what):
        if self.quiet:
            return
        self.draws.add((self.I.loc(node), what))
        if not self.strict:
            return
        p = g.tag or (frozenset(["gen:dist-state"]) if "self._random_state" in g.deps and not (g.deps & self.expect) else frozenset())
        bad = None
        if "gen:entropy" in p:
            bad = "a generator seeded from entropy (seed is or may be None)"
        elif any(x.startswith("gen:ambient") for x in p):
            bad = "a generator seeded from an ambient source"
        elif "gen:import" in p or "gen:module" in p:
            bad = "a generator created at import time or kept in module state"
        elif "gen:dist-state" in p:
            bad = "the distribution's own stored generator although a random_state was given"
        elif self.expect and not ((g.deps | g.cdeps) & self.expect):
            bad = f"a generator that does not derive from {'/'.join(sorted(self.expect))}"
        if bad:
            self.report("unseeded-draw", node, f"{self.I.qual()}:{self.kind(bad)}", f"draw ({what}) from {bad}")

    @staticmethod
    def kind(bad):
        return bad.split(" (")[0].replace("a generator ", "").replace("the ", "")[:60]

    def on_global_write(self, name, v):
        if not self.loading and not self.quiet and (v.only(T) and any(a.t == "rng" for a in v.atoms) or (v.tag and any("gen:" in x for x in v.tag))):
            self.report("kept-generator", None, f"{self.I.qual()}:global {name}", f"generator stored in module variable {name}")

    def on_setattr(self, oid, obj, name, v, node):
        if self.nodraw_state and not self.loading and not self.quiet and any(isinstance(a, T) and a.t == "rng" for a in v.atoms) and obj.cls is not None \
                and any("rv_" in b for b in obj.cls.ext_bases()):
            self.report("kept-generator", node, f"{self.I.qual()}:self.{name}", f"a draw with random_state given stores a generator on the distribution object (.{name})")
        return v


def seed_params(f):
    return [n for n, d, ko in func_params(f) if n in SEEDS]


def entry_func(I, e):
    v = get_func(I, e)
    if isinstance(v, ClassA):
        return next(iter(v.cls.find("__init__")[1].atoms))
    return v


def scens(I):
    """(label, thunk, expected seed labels, strict, is_given)"""
    out = []

    def seeded(n):
        return V([T("int")], frozenset([n]))
    for e in FUNCS:
        f = entry_func(I, e)
        sp = seed_params(f)
        over = {n: seeded(n) for n in sp}
        out.append((e, lambda I, e=e, o=over: call_thunk(I, e, "any", o), frozenset(sp), True, bool(sp)))
        defs = [n for n, d, ko in func_params(f) if n in SEEDS and d is not None and not any(isinstance(a, C) and a.v is None for a in d.atoms)]
        if defs:
            out.append((e + "[default seed]", lambda I, e=e, o={n: "omit" for n in defs}: call_thunk(I, e, "any", o), frozenset(), True, False))
    for s in circ_sample_scens():
        f = entry_func(I, s.info["entry"])
        sp = seed_params(f)
        out.append((s.label, s.fn, EMPTY if not sp else EMPTY, True, False) if not sp else (s.label, s.fn, frozenset(sp), True, True))
    for c, spec in CLASSES.items():
        f = entry_func(I, c)
        sp = seed_params(f)
        variants = [(dict((n, seeded(n)) for n in sp), frozenset(sp), "")]
        defs = [n for n, d, ko in func_params(f) if n in SEEDS and d is not None and not any(isinstance(a, C) and a.v is None for a in d.atoms)]
        if defs:
            variants.append(({n: "omit" for n in defs}, frozenset(), "[default seed]"))
        for over, exp, sfx in variants:
            def mk(I, c=c, over=over, spec=spec, sfx=sfx):
                cache = I.__dict__.setdefault("seedfit", {})
                if (c, sfx) in cache:
                    st, o = cache[(c, sfx)]
                    I.st = st.copy()
                    return o
                o = construct(I, c, "any", over)
                if spec["fit"]:
                    method(I, o, "fit", c, "any")
                cache[(c, sfx)] = (I.st.copy(), o)
                return o
            out.append((c + (".fit" if spec["fit"] else "") + sfx, mk, exp, True, bool(sp)))
            for q in spec["query"]:
                out.append((f"{c}.{q}{sfx}", lambda I, c=c, q=q, mk=mk: method(I, mk(I), q, c, "any"), exp, True, bool(sp)))
    for s in dist_scens():
        if s.info["method"] != "rvs":
            out.append((s.label, s.fn, frozenset(), True, False))
    for n in DISTS:
        for fz in (False, True):
            lab = f"distributions.{n}{'(...)' if fz else ''}.rvs"
            for t in ("int", "rng"):
                def g(I, n=n, fz=fz, t=t):
                    k = rvs_extra(I, False)
                    k["random_state"] = V([T(t)], frozenset(["random_state"]), EMPTY, EMPTY, frozenset(["gen:seeded"]) if t == "rng" else None)
                    return dist_call(I, n, "rvs", k, frozen=fz, kwshapes=not fz)
                out.append((f"{lab}[random_state:{t}]", g, frozenset(["random_state"]), True, True))
            out.append((lab + "[no random_state]", lambda I, n=n, fz=fz: dist_call(I, n, "rvs", rvs_extra(I, False), frozen=fz, kwshapes=not fz), frozenset(), False, False))
    return out


def call_thunk(I, e, mode, over):
    f = get_func(I, e)
    if isinstance(f, ClassA):
        return construct(I, e, mode, over)
    return I.call_func(f, [], build_args(I, e, f, mode, over), None)


def analyse(I, d, which=None):
    base = I.st.copy()
    n = 0
    for lab, th, exp, strict, given in scens(I) if which is None else which:
        d.expect, d.strict, d.nodraw_state = exp, strict, given
        o = run(I, lambda: th(I), base)
        n += 1
        if not o.dead and strict:
            kept(I, d, base, o.state, lab)
            for p, v in reachable(o.state, o.value):
                for dep in sorted(v.deps | v.cdeps):
                    if dep.startswith("ambient:"):
                        d.report("ambient-result", None, f"{dep[8:]}", f"{dep[8:].split('@')[0]} (in {dep.split('@')[1]}) reaches the result of {lab}{p}")
    return n


def is_gen(v):
    return v is not None and (any(isinstance(a, T) and a.t == "rng" for a in v.atoms) or bool(v.tag) and any("gen:" in x for x in v.tag)) \
        or v is not None and any(is_gen(i) for a in v.atoms if isinstance(a, Tup) for i in a.items)


def kept(I, d, base, st, lab):
    """a generator left behind in an object that existed before the call (module state, default values, shared distribution objects)"""
    for i, o0 in base.heap.items():
        o1 = st.get(i)
        if o1 is None or o1 is o0:
            continue
        old = list(o0.attrs.values()) + list(o0.items or []) + [o0.elem]
        for k, v in list(o1.attrs.items()) + [("[]", x) for x in o1.items or []] + [("[]", o1.elem)]:
            if is_gen(v) and not any(v is x for x in old) and not any(is_gen(x) for x in ([o0.attrs[k]] if k in o0.attrs else [])):
                where = o1.cls.name if o1.cls is not None else str(i).split("#")[0]
                d.report("kept-generator", None, f"{where}.{k}", f"{lab}: a generator is kept in {where}.{k} after the call, so the next call continues its stream")


def selftest(rep):
    src = """
import numpy as np, time
_RNG = np.random.default_rng(0)
def a(x, seed=2046):
    rng = np.random.default_rng(seed or None)
    return rng.permutation(x)
def b(x, seed=2046):
    return np.random.permutation(x)
def c(x, seed=2046):
    return _RNG.permutation(x)
def d(x, seed=2046):
    return np.random.default_rng(int(time.time())).permutation(x)
def e(x, seed=2046):
    return np.random.default_rng(0).permutation(x)
_KEEP = {}
def g(x, seed=2046):
    rng = _KEEP.setdefault(seed, np.random.default_rng(seed))
    return rng.permutation(x)
def h(x, seed=2046, _memo=[]):
    if not _memo:
        _memo.append(np.random.default_rng(seed))
    return _memo[0].permutation(x)
def ok(x, seed=2046):
    rng = np.random.default_rng(seed)
    return [f(rng, x) for _ in range(3)]
def f(r, x):
    return r.choice(x)
"""
    d = Rand()
    I = Interp(Program.from_sources({"pycircstat2.zz": src}), d)
    I.load_all()
    d.loading = False
    w = [(q, lambda I, q=q: call_thunk(I, "zz." + q, "any", {"seed": V([T("int")], frozenset(["seed"]))}), frozenset(["seed"]), True, True) for q in ("a", "b", "c", "d", "e", "g", "h", "ok")]
    analyse(I, d, w)
    got = {f["construct"].split(":")[0] for f in d.findings.values() if f["rule"] != "kept-generator"}
    keep = {f["msg"].split(":")[0] for f in d.findings.values() if f["rule"] == "kept-generator"}
    if got - {"time.time@zz.d"} != {"zz.a", "zz.b", "zz.c", "zz.d", "zz.e"} or keep != {"g", "h"}:
        raise Broken(f"self-test: {got} {keep}")
    rep.cov["selftest_positive"] = sorted(got)


def check(prog, rep, tier):
    d = Rand()
    I = Interp(prog, d, max_steps=80_000_000)
    I.load_all()
    d.loading = False
    n = analyse(I, d)
    rep.take(d)
    rep.floor("scenarios", n, 350)
    rep.floor("generator_creations", len(d.gens), 8)
    rep.floor("draw_sites", len(d.draws), 20)
    rep.cov["draws"] = sorted(map(str, d.draws))
