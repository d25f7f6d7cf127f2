"""C07: verbosity never changes a result (non-interference of verbosity switches with results, state, draws, exceptions)."""
from .domain import Domain
from .values import *
from .interp import Program, Interp
from .scen import *
from .util import reachable
from .report import Broken

RULES = ["no data or control dependence of a returned value, an attribute of the fitted object or returned result, a raised exception, or a "
         "random draw on a verbosity argument (verbose, print_meta, disp, quiet, silent, debug)"]
EXPLAIN = ("Every entry point that takes a verbosity switch is interpreted with the switch unknown (both truth values explored); explicit and implicit "
           "(branch) dependences on it are propagated to every value reachable from the result, from the receiver after the call and to every raise.")
ASSUME = ["print/warnings calls and formatting have no effect on results"]
NAMES = {"verbose", "print_meta", "disp", "quiet", "silent", "debug", "show_progress"}


class NI(Domain):
    def __init__(self):
        super().__init__()
        self.draws = set()

    def ext(self, name, cat, args, kw, node):
        if name.startswith(("rng.", "numpy.random.")) and not self.quiet and self.I.ctxs:
            self.draws.add(self.I.loc(node))
            pc = EMPTY
            for c in self.I.ctxs:
                pc = pc | self.I.pcdeps(c)
            for v in list(args) + list(kw.values()):
                pc = pc | v.deps | v.cdeps
            hit = pc & self.watch
            if hit:
                self.report("verbosity-draw", node, f"{self.I.qual()}:{sorted(hit)[0]}", f"random draw {name} depends on {sorted(hit)[0]}")
        return None
    watch = frozenset()


def takes(f):
    names = {n for n, d, ko in func_params(f)}
    return names & NAMES


def analyse(I, d, scens):
    base = I.st.copy()
    done = []
    for s, watch in scens:
        d.watch = frozenset(watch)
        o = run(I, lambda: s.fn(I), base)
        done.append(s.label)
        if not o.dead:
            seen = set()
            for p, v in reachable(o.state, o.value):
                last = p.replace(":", ".").split(".")[-1].split("[")[0]
                if last in watch and (v.only(T) or v.only(C)):
                    continue      # the stored switch itself
                hit = (v.deps | v.cdeps) & d.watch
                if hit and (p.split("[")[0]) not in seen:
                    seen.add(p.split("[")[0])
                    fn = s.info.get("entry", s.label)
                    d.report("verbosity-result", None, f"{fn}:{sorted(hit)[0]}",
                             f"the result of {s.label} ({p or 'returned value'}) depends on {sorted(hit)[0]}")
        for r in o.raises:
            hit = r[4] & d.watch
            if hit:
                d.report("verbosity-raise", r[3], f"{s.label}:{r[1]}:{sorted(hit)[0]}", f"{r[1]} is raised depending on {sorted(hit)[0]}")
    return done


def collect(I):
    out = []
    for s in fn_scens() + circ_sample_scens():
        f = get_func(I, s.info["entry"])
        if isinstance(f, Func):
            w = takes(f)
            if w:
                out.append((s, w))
    for c, spec in CLASSES.items():
        ci = get_func(I, c).cls
        init = next(iter(ci.find("__init__")[1].atoms))
        wi = takes(init)
        if wi:
            out.append((Scen(c, "ctor", lambda I, c=c: construct(I, c, "any"), entry=c), wi))
        if spec["fit"]:
            f = next(iter(ci.find("fit")[1].atoms))
            w = takes(f)
            if w or wi:
                def fit(I, c=c):
                    o = construct(I, c, "any")
                    method(I, o, "fit", c, "any")
                    return o
                out.append((Scen(c + ".fit", "fit", fit, entry=c + ".fit"), w | wi))
        for q in spec["query"]:
            m = ci.find(q)[1]
            if m is None:
                continue
            f = next(iter(m.atoms))
            w = takes(f) if isinstance(f, Func) else set()
            if w:
                out.append((Scen(f"{c}.{q}", "query", lambda I, c=c, q=q, spec=spec: method(I, fitted(I, c, "any", spec), q, c, "any"), entry=f"{c}.{q}"), w))
    for n in DISTS:
        dobj = dist_obj(I, n)
        m = I.st.get(dobj.refs()[0]).cls.find("fit")[1]
        if m is not None:
            f = next(iter(m.atoms))
            if isinstance(f, Func) and takes(f):
                out.append((Scen(f"distributions.{n}.fit", "distfit", lambda I, n=n: dist_fit(I, n), entry=f"distributions.{n}.fit"), takes(f)))
    return out


def selftest(rep):
    src = """
import numpy as np
def a(x, verbose=False):
    n = 100
    if verbose:
        n = 10
    return np.sum(x) / n
def b(x, verbose=False):
    if verbose:
        if len(x) > 3:
            raise ValueError("x")
        print(x)
    return np.sum(x)
def c(x, seed=1, verbose=False):
    rng = np.random.default_rng(seed)
    if verbose:
        print(rng.random())
    return rng.random()
def ok(x, verbose=False):
    s = np.sum(x)
    if verbose:
        m = s * 2
        print("s", s, m)
    return s
"""
    d = NI()
    I = Interp(Program.from_sources({"pycircstat2.zz": src}), d)
    I.load_all()
    sc = []
    for q in ("a", "b", "c", "ok"):
        e = "zz." + q
        sc.append((Scen(e, "func", lambda I, e=e: I.call_func(get_func(I, e), [], build_args(I, e, get_func(I, e)), None), entry=e), {"verbose"}))
    analyse(I, d, sc)
    got = {(f["rule"], f["construct"].split(":")[0]) for f in d.findings.values()}
    need = {("verbosity-result", "zz.a"), ("verbosity-raise", "zz.b"), ("verbosity-draw", "zz.c")}
    if not need <= got or any(x[1] == "zz.ok" for x in got):
        raise Broken(f"self-test: {got}")
    rep.cov["selftest_positive"] = sorted(map(str, got))


def check(prog, rep, tier):
    d = NI()
    I = Interp(prog, d, max_steps=80_000_000)
    I.load_all()
    done = analyse(I, d, collect(I))
    rep.take(d)
    rep.cov["entry_points_with_a_switch"] = done
    rep.floor("entry_points", len(done), 28)
    rep.floor("draw_sites", len(d.draws), 3)
