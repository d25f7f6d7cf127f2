"""Scenarios: every public entry point of the package as a thunk for the interpreter.

A scenario is a label plus a function of the interpreter that performs the call(s); `run_all` interprets them
from the state left by loading the package (each one independently)."""
from __future__ import annotations
from .values import *
from .state import HObj
from .interp import Interp, Dead, ClassInfo, Program
from .entries import *


class Scen:
    __slots__ = ("label", "kind", "fn", "info")

    def __init__(self, label, kind, fn, **info):
        self.label, self.kind, self.fn, self.info = label, kind, fn, info


def circ_object(I, label="circ"):
    """a Circular object built by the caller, all constructor branches joined, owned by the caller"""
    q, I.dom.quiet = I.dom.quiet, True      # its construction is analysed as a scenario of its own
    try:
        v = construct(I, "base.Circular", "any")
    finally:
        I.dom.quiet = q
    own(I, v, f"arg:{label}")
    return v


def fn_scens(modes=("any",)):
    out = []
    for f in FUNCS:
        for m in modes:
            out.append(Scen(f, "func", lambda I, f=f, m=m: I.call_func(get_func(I, f), [], build_args(I, f, get_func(I, f), m), None), mode=m, entry=f))
    return out


HYP_SAMPLES = ["watson_williams_test", "watson_u2_test", "wheeler_watson_test", "wallraff_test", "angular_randomisation_test"]


def circ_sample_scens():
    """tests called with Circular objects instead of arrays; circ_corrcc with Circular objects"""
    out = []

    def two(I, name):
        f = get_func(I, "hypothesis." + name)
        c = circ_object(I, "samples")
        kw = build_args(I, "hypothesis." + name, f, "any")
        p = func_params(f)[0][0]
        i = I.newid("samples")
        I.st.new(i, HObj("list", elem=c, mem=frozenset([f"arg:{p}"])))
        kw[p] = V([Ref(i)], frozenset([p]))
        return I.call_func(f, [], kw, None)
    for n in HYP_SAMPLES:
        out.append(Scen(f"hypothesis.{n}[Circular]", "func", lambda I, n=n: two(I, n), entry="hypothesis." + n, mode="any"))

    def corr(I):
        f = get_func(I, "correlation.circ_corrcc")
        kw = build_args(I, "correlation.circ_corrcc", f, "any")
        for p in ("a", "b"):
            kw[p] = circ_object(I, p)
        return I.call_func(f, [], kw, None)
    out.append(Scen("correlation.circ_corrcc[Circular]", "func", corr, entry="correlation.circ_corrcc", mode="any"))

    def plot(I):
        f = get_func(I, "visualization.circ_plot")
        c = circ_object(I, "circ_data")
        kw = {"circ_data": c, "config": config_arg(I, "config")}
        return I.call_func(f, [], kw, None)
    out.append(Scen("visualization.circ_plot", "func", plot, entry="visualization.circ_plot", mode="any"))
    return out


def fitted(I, c, m, spec=None):
    """an estimator after fit; the state reached is computed once per interpreter and shared by the query scenarios"""
    cache = I.__dict__.setdefault("fitcache", {})
    k = (c, m)
    if k in cache:
        st, v = cache[k]
        I.st = st.copy()
        return v
    o = construct(I, c, m)
    if (spec or CLASSES[c])["fit"]:
        method(I, o, "fit", c, m)
    cache[k] = (I.st.copy(), o)
    return o


def class_scens(modes=("any",), queries=True):
    out = []
    for c, spec in CLASSES.items():
        for m in modes:
            out.append(Scen(c, "ctor", lambda I, c=c, m=m: construct(I, c, m), entry=c, mode=m))
            if spec["fit"]:
                def fit(I, c=c, m=m):
                    o = construct(I, c, m)
                    method(I, o, "fit", c, m)
                    return o
                out.append(Scen(c + ".fit", "fit", fit, entry=c, mode=m))
            if queries:
                for q in spec["query"]:
                    def qu(I, c=c, q=q, m=m, spec=spec):
                        o = fitted(I, c, m, spec)
                        return method(I, o, q, c, m)
                    out.append(Scen(f"{c}.{q}", "query", qu, entry=c, method=q, mode=m))
    return out


def dist_call(I, name, meth, extra=None, frozen=False, shapes=None, kwshapes=False, x=None):
    d = dist_obj(I, name)
    names = dist_shapes(I, d)
    sh = shapes if shapes is not None else [src(I, "shape", n, "num").w(atoms=frozenset([T("any")])) for n in names]
    lead = []
    if meth in DIST_X:
        lead = [x if x is not None else src(I, "angles", "x")]
    elif meth in DIST_Q:
        lead = [x if x is not None else src(I, "prob", "q")]
    elif meth == "trig_moment":
        lead = [x if x is not None else src(I, "num", "p", "int")]
    kw = dict(extra or {})
    if frozen:
        fz = I.call(d, sh if not kwshapes else [], dict(zip(names, sh)) if kwshapes else {}, None)
        return I.call(I.getattr(fz, meth, None), lead, kw, None)
    m = I.getattr(d, meth, None)
    if kwshapes:
        return I.call(m, lead, {**dict(zip(names, sh)), **kw}, None)
    return I.call(m, lead + sh, kw, None)


def rvs_extra(I, seed=True):
    k = {"size": src(I, "size", "size", "int")}
    if seed:
        k["random_state"] = src(I, "seed", "random_state", "int")
    return k


def dist_fit(I, name, meth=None, over=None):
    d = dist_obj(I, name)
    cls = I.st.get(d.refs()[0]).cls
    ci, f = cls.find("fit")
    f = next(iter(f.atoms))
    kw = {}
    for i, (n, dv, ko) in enumerate(func_params(f)):
        if i == 0:
            continue
        if over and n in over:
            if over[n] is not None:
                kw[n] = over[n]
            continue
        if n == "data":
            kw[n] = src(I, "angles", "data")
        elif n == "weights":
            kw[n] = src(I, "weights", "weights").w(atoms=frozenset([T("arr"), C(None)]))
        elif n == "return_info":
            kw[n] = src(I, "bool", n, "bool")
        elif n in ("verbose",):
            kw[n] = src(I, "bool", n, "bool")
        elif n == "method" and meth is not None:
            kw[n] = const(meth)
        elif n in ("options", "base_kwargs"):
            kw[n] = V(make(I, "fit", n, "dict").atoms | {C(None)}, frozenset([n]))
        elif n in ("nu_grid", "lmbd_grid"):
            kw[n] = src(I, "arr", n).w(atoms=frozenset([T("arr"), C(None)]))
    return I.call(I.getattr(d, "fit", None), [], kw, None)


def dist_has_fit(name):
    return name != "circularuniform"


def dist_scens(frozen=True):
    out = []
    for n in DISTS:
        for m in DIST_X + DIST_Q + DIST_S:
            out.append(Scen(f"distributions.{n}.{m}", "dist", lambda I, n=n, m=m: dist_call(I, n, m), dist=n, method=m, frozen=False))
            if frozen:
                out.append(Scen(f"distributions.{n}(...).{m}", "dist", lambda I, n=n, m=m: dist_call(I, n, m, frozen=True), dist=n, method=m, frozen=True))
        def rvs(I, n=n):
            return dist_call(I, n, "rvs", rvs_extra(I), kwshapes=True)
        out.append(Scen(f"distributions.{n}.rvs", "rvs", rvs, dist=n, method="rvs", frozen=False))
        if frozen:
            def rvsf(I, n=n):
                return dist_call(I, n, "rvs", rvs_extra(I), frozen=True)
            out.append(Scen(f"distributions.{n}(...).rvs", "rvs", rvsf, dist=n, method="rvs", frozen=True))
        out.append(Scen(f"distributions.{n}.fit", "distfit", lambda I, n=n: dist_fit(I, n), dist=n, method="fit", frozen=False))
    return out


def all_scens(modes=("any",)):
    return fn_scens(modes) + circ_sample_scens() + class_scens(modes) + dist_scens()


def run_all(I, scens, base=None, each=None):
    base = base or I.st.copy()
    stats = dict(scenarios=0, completed=0, raising=0)
    for s in scens:
        I.scen = s
        o = run(I, lambda: s.fn(I), base)
        stats["scenarios"] += 1
        stats["completed"] += 0 if o.dead else 1
        stats["raising"] += 1 if o.raises else 0
        if each is not None:
            each(s, o)
    return stats


def mini(src_, dom, judge, names, mod="zz"):
    """run a domain over the functions of a small source text; returns the functions with findings (self-tests)"""
    I = Interp(Program.from_sources({"pycircstat2." + mod: src_}), dom, max_steps=5_000_000)
    I.load_all()
    for q in names:
        e = f"{mod}.{q}"
        run_all(I, [Scen(e, "func", lambda I, e=e: I.call_func(get_func(I, e), [], build_args(I, e, get_func(I, e)), None), entry=e)], each=judge)
        for f in dom.findings.values():
            f.setdefault("scen", q)
    return {f["scen"] for f in dom.findings.values()}


def expect(got, names):
    bad = {n for n in names if n.startswith("bad")}
    if got != bad:
        from .report import Broken
        raise Broken(f"self-test: alarms on {sorted(got)}, expected {sorted(bad)}")
