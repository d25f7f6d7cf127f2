"""C13: no element of an array-valued parameter is silently ignored (interpretation with a two-element, non-constant parameter)."""
from .domain import Domain
from .values import *
from .interp import Program, Interp, Dead
from .scen import *
from .report import Broken

RULES = ["every public method of every distribution (direct and frozen) is interpreted with one shape parameter, and with all of them, fixed to an array of two different "
         "elements: no value derived from a single fixed element (constant subscript, .flat[0], .item(), next(iter()), take, first/last, mean/median) and from no other part "
         "of that array reaches a returned value of the method or of the hook (_pdf, _cdf, _ppf, _rvs, ...) that computes it"]
EXPLAIN = ("Size, ndim, shape, len, unique and all-equal tests on the two-element parameter are decided, so guarded selections are unreachable (they raise); "
           "every remaining return is checked for values computed from one element only.")
ASSUME = ["scipy's rv_continuous passes array-valued parameters on to the hooks as arrays with one entry per evaluated point"]
ELEMWISE = {"elem", "trig", "invtrig", "mod", "degrad", "view", "copy", "cum", "sort"}
COLLAPSE = {"mean", "nanmean", "average", "median", "nanmedian", "percentile", "quantile"}
HOOKS = {"_pdf", "_logpdf", "_cdf", "_logcdf", "_sf", "_logsf", "_ppf", "_isf", "_rvs", "_stats", "_entropy", "_munp"}


def marks(v):
    return v.tag or EMPTY


def multi(v):
    return [m for m in marks(v) if m[0] == "M"]


class Arr(Domain):
    fold_numeric = True

    def __init__(self):
        super().__init__()
        self.api = HOOKS
        self.selections = set()

    def lub(self, a, b):
        return (a or EMPTY) | (b or EMPTY)

    def join(self, a, b):
        if a is None:
            return b
        if b is None or a == b:
            return a
        return a | b

    # a two-element array of different values
    def is_arr(self, v):
        return bool(multi(v)) and v.atoms and all(isinstance(a, T) and a.t in ("arr", "any", "num") for a in v.atoms)

    def attr_value(self, recv, name, node):
        if self.is_arr(recv):
            if name == "size":
                return V([C(2)])
            if name == "ndim":
                return V([C(1)])
            if name == "shape":
                return V([Tup([V([C(2)])])])
        return None

    def bin(self, op, l, r, node):
        return self.join(l.tag, r.tag)

    def compare(self, op, l, r, node):
        ms = multi(l) + multi(r)
        # comparing the array with one of its own elements: remembers that the outcome differs between entries
        if ms and any(m[0] == "S" and ("M", m[1]) in marks(l) | marks(r) for m in marks(l) | marks(r)):
            return frozenset([("NE", "")])
        return frozenset([("B", "")]) if ms else None

    def index(self, base, idx, kind, node):
        out = set()
        ok, k = idx.const()
        for m in marks(base):
            if m[0] in ("M", "N"):
                if kind == "int":
                    if ok and isinstance(k, (int, float)):
                        out.add(("S", m[1], int(k)))
                        self.selections.add(self.I.loc(node))
                    else:
                        out.add(("E", m[1]))
                elif kind == "slice":
                    sl = next(iter(idx.atoms)) if len(idx.atoms) == 1 else None
                    if isinstance(sl, Slice) and sl.hi is not None and sl.hi.is_const(1):
                        out.add(("S", m[1], 0))
                    else:
                        out.add(m)
                elif idx.only(Tup) and all(i.const()[0] for a in idx.atoms for i in a.items):
                    out.add(m)
                else:
                    out.add(("N", m[1]))
            else:
                out.add(m)
        return frozenset(out) or None

    def iter_elem(self, v):
        return frozenset(("E", m[1]) if m[0] in ("M", "N") else m for m in marks(v)) or None

    def unpack_elem(self, v, i, e):
        return e

    def ext_first(self, name, args, kw, node):
        last = name.split(".")[-1]
        a0 = args[0] if args else None
        if a0 is None or not self.is_arr(a0):
            if a0 is not None and ("NE", "") in marks(a0):
                if last in ("all",):
                    return V([C(False)])
                if last == "any":
                    return V([C(True)])
            if last in ("allclose", "array_equal") and len(args) > 1 and self.is_arr(args[1]) and not self.is_arr(a0):
                return V([C(False)])
            return None
        if name in ("builtins.len", "numpy.size"):
            return V([C(2)])
        if name == "numpy.ndim":
            return V([C(1)])
        if name == "numpy.shape":
            return V([Tup([V([C(2)])])])
        if name == "numpy.isscalar":
            return V([C(False)])
        if last in ("allclose", "array_equal", "array_equiv") and len(args) > 1 and not self.is_arr(args[1]):
            return V([C(False)])
        if name in ("builtins.float", "builtins.int", "builtins.complex") or last == "item" and len(args) == 1:
            self.I.do_raise("TypeError", node)
            raise Dead()
        if name == "builtins.next":
            return V([T("num")], a0.deps, a0.cdeps, EMPTY, frozenset(("S", m[1], 0) if m[0] == "M" else m for m in marks(a0)))
        return None

    def ext(self, name, cat, args, kw, node):
        out = set()
        last = name.split(".")[-1]
        if last in ("isfinite", "isnan", "isclose", "size", "shape", "ndim", "len", "zeros_like", "empty_like", "ones_like", "broadcast_shapes", "range", "equal",
                    "greater", "less", "greater_equal", "less_equal", "not_equal", "logical_and", "logical_or", "logical_not", "any", "all", "allclose"):
            if last == "isclose" and len(args) > 1:
                return self.compare(None, args[0], args[1], node)
            return frozenset([("B", "")]) if any(multi(a) for a in args) else None
        for i, a in enumerate(list(args) + list(kw.values())):
            for m in marks(a):
                if m[0] in ("B", "NE"):
                    continue
                if m[0] in ("M", "N"):
                    if last in COLLAPSE:
                        out.add(("S", m[1], 0))
                    elif last == "unique":
                        out.add(m)
                    elif cat in ELEMWISE or name.startswith(("rv.", "scipy.special", "?.")) or cat is None and name.startswith("numpy."):
                        if last == "take" and i == 0 and len(args) > 1 and args[1].const()[0]:
                            out.add(("S", m[1], 0))
                        elif last == "item":
                            out.add(("S", m[1], 0))
                        else:
                            out.add(m)
                    else:
                        out.add(("R", m[1]))
                else:
                    out.add(m)
        return frozenset(out) or None

    def lone(self, v):
        ms = marks(self.I.flat(v))
        out = []
        for m in ms:
            if m[0] == "S" and not any(x[0] in ("M", "N", "E", "R") and x[1] == m[1] for x in ms) \
                    and len({x[2] for x in ms if x[0] == "S" and x[1] == m[1]}) == 1:
                out.append(m[1])
        return out

    def on_return(self, v, node, ctx):
        if not self.quiet and self.active and ctx.func is not None and ctx.func.cls is not None and ctx.func.qual.split(".")[-1] in self.api:
            for p in self.lone(v):
                self.hits.append((p, self.I.loc(node), ctx.func.qual))
        return v

    active = False
    hits = ()


def analyse(I, d, methods, dists, frozen=True):
    base = I.st.copy()
    n = 0
    cov = []
    for name in dists:
        names = dist_shapes(I, dist_obj(I, name))
        if not names:
            continue
        ci = I.st.get(dist_obj(I, name).refs()[0]).cls
        for m in methods:
            for which in ([[p] for p in names] + ([names] if len(names) > 1 else [])):
                for fz in ((False, True) if frozen and (which == names or m == "rvs") else (False,)):
                    sh = [V([T("arr")], frozenset([p]), EMPTY, EMPTY, frozenset([("M", p)])) if p in which else src(I, "shape", p, "num") for p in names]
                    extra = rvs_extra(I) if m == "rvs" else None
                    d.hits, d.active = [], True
                    d.api = HOOKS | {m}
                    o = run(I, lambda: dist_call(I, name, m, extra, frozen=fz, shapes=sh, kwshapes=(m == "rvs" and not fz)), base)
                    d.active = False
                    n += 1
                    if o.dead:
                        continue
                    for p, loc, fn in d.hits:
                        d.findings.setdefault(("single-element", f"{fn}:{p}"), dict(
                            rule="single-element", construct=f"{fn}:{p}", loc=loc, func=fn, path=f"{name}.{m}",
                            msg=f"{name}.{m} with an array-valued {p} returns a result computed from one element of {p} only"))
                    for p in d.lone(o.value):
                        if not any(k[1].endswith(":" + p) and name in k[1] for k in d.findings):
                            d.findings.setdefault(("single-element", f"{name}.{m}:{p}"), dict(
                                rule="single-element", construct=f"{name}.{m}:{p}", loc="?", func=f"{name}.{m}", path=f"{name}.{m}",
                                msg=f"{name}.{m} with an array-valued {p} returns a result computed from one element of {p} only"))
        cov.append(name)
    return n, cov


def selftest(rep):
    src_ = """
import numpy as np
from scipy.stats import rv_continuous
class a_gen(rv_continuous):
    def _argcheck(self, mu, rho):
        return (mu >= 0.0) & (rho >= 0.0)
    def _pdf(self, x, mu, rho):
        r = float(np.asarray(rho).reshape(-1)[0])
        return np.cos(x - mu) * r
    def _cdf(self, x, mu, rho):
        a = np.asarray(rho)
        if a.size != 1 or np.asarray(mu).size != 1:
            raise ValueError("scalar")
        return x * float(a.reshape(-1)[0])
    def _ppf(self, q, mu, rho):
        a = np.asarray(rho, dtype=float)
        first = float(a.flat[0])
        if not np.allclose(a, first):
            raise ValueError("scalar")
        u = np.unique(np.asarray(mu))
        if u.size != 1:
            raise ValueError("scalar")
        return q * first + float(u[0])
    def _rvs(self, mu, rho, size=None, random_state=None):
        out = np.empty(3)
        for i in range(rho.size):
            out[i] = rho[i]
        return out + np.mod(mu, 2 * np.pi)
    def rvs(self, mu, rho, size=None, random_state=None):
        return self._rvs(np.asarray(mu), np.asarray(rho))
a = a_gen(name="a")
"""
    d = Arr()
    I = Interp(Program.from_sources({"pycircstat2.distributions": src_}), d)
    I.load_all()
    analyse(I, d, ["pdf", "cdf", "ppf", "rvs"], ["a"], frozen=False)
    got = {k[1] for k in d.findings}
    if got != {"distributions.a_gen._pdf:rho"}:
        raise Broken(f"self-test: {got}")
    rep.cov["selftest_positive"] = sorted(got)


def check(prog, rep, tier):
    d = Arr()
    I = Interp(prog, d, max_steps=80_000_000)
    I.load_all()
    n, cov = analyse(I, d, DIST_X + DIST_Q + DIST_S + ["rvs"], [x for x in DISTS if x != "circularuniform"])
    rep.take(d)
    rep.cov["distributions_analysed"] = cov
    rep.floor("selection_sites", len(d.selections), 1)
    rep.floor("calls_with_array_parameters", n, 500)
