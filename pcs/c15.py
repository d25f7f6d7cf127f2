"""C15: unit analysis of angles (user units, cycle lengths, radians)."""
import ast, math
from .domain import Domain
from .values import *
from .state import HObj
from .interp import Program, Interp
from .scen import *
from .util import reachable

TAU = 2 * math.pi
RULES = [
    "every trigonometric function, distribution and directional statistic receives radians: data in the user's unit divided by its own cycle length and multiplied by a turn exactly once",
    "sums, differences, comparisons, remainders, histograms and searches never mix radians with the user's unit or with another cycle length",
    "attributes and results documented in radians hold radians of the original data (doubled axial data are halved again), `data` keeps the user's unit",
    "directions printed for the user are converted back with the user's own cycle length",
]
EXPLAIN = ("Every constructor and method that takes angles is interpreted for each unit (degree, radian, hour, custom) and cycle length (default, unknown symbol), with the angles tagged by the number that stands "
           "for one turn and the power of the cycle length they carry. Arithmetic transforms the tag; trigonometric functions, remainders, comparisons, stored attributes and printed numbers are checked against it.")
ASSUME = ["a numeric factor that is a small ratio (2, 1/2, ...) is a harmonic or an average, not a unit conversion", "a product with a unit-less variable keeps the unit",
          "functions outside the data and clustering objects take radians, as documented", "Circular's rotate argument is in radians, as documented",
          "rao_spacing_test's statistic is documented in degrees"]


def ratl(x, y):
    """x and y stand for the same unit up to a small ratio"""
    if not y or not x or x != x or y != y:
        return False
    q = abs(x / y)
    return any(1 <= round(q * k) <= 12 and abs(q * k - round(q * k)) < 1e-9 * max(1, q * k) for k in range(1, 13))


def A(rho, F=None, dims=()):
    return ("a", dims, rho, F)


def dmul(d1, d2, s=1):
    m = dict(d1)
    for k, e in d2:
        m[k] = m.get(k, 0) + s * e
    return tuple(sorted((k, e) for k, e in m.items() if e))


RAD = A(TAU, TAU)
DEAD = {"nan"}
KEEP = set("""asarray asanyarray ascontiguousarray atleast_1d atleast_2d atleast_3d ravel reshape squeeze transpose T swapaxes expand_dims broadcast_to broadcast_arrays view flat
array copy flatten astype tolist to_numpy values repeat tile take choose compress extract resize flip roll sort unique float float64 item list tuple reversed iter next set sorted
delete nan_to_num round around rint_ mean nanmean median nanmedian percentile quantile nanpercentile nanquantile average choice permutation permuted positive meshgrid split array_split
min max amin amax nanmin nanmax trim_mean circmean require asfortranarray deepcopy Series dropna squeeze unwrap fromiter choices sample shuffle diagonal hsplit vsplit moveaxis""".split())
SUMS = set("sum nansum cumsum nancumsum fsum trapz trapezoid ptp abs absolute fabs std nanstd norm".split())
JOINS = set("where concatenate hstack vstack stack append insert column_stack minimum maximum fmin fmax clip c_ r_ select full full_like union1d intersect1d setdiff1d copyto put".split())
CMP = set("isclose allclose equal not_equal less greater less_equal greater_equal array_equal searchsorted digitize".split())
NONE_ = set("""isnan isfinite isinf size shape ndim len isinstance type hasattr count argsort argmin argmax argwhere nonzero flatnonzero lexsort rankdata zeros_like ones_like empty_like
any all isscalar callable dtype print sign bincount count_nonzero astype_bool bool issubdtype""".split())


PLOT = {"scatter", "plot", "bar", "errorbar", "fill_between", "text", "fill", "axvline", "vlines", "stem", "step", "set_xticks", "hist", "annotate"}


class Unit(Domain):
    fold_numeric = True

    def __init__(self):
        super().__init__()
        self.seen = {}
        self.user = RAD         # tag of the angles the caller passes
        self.fmt = None         # unit printed numbers must have
        self.ncheck = 0

    # tag: frozenset of alternatives ("a", dims, rho, F) angle: rho stands for one turn, F change of the value when all data turn once (None unknown)
    #      ("s", dims, rho) cycle length; ("c", F) component of a unit vector; ("i", dims, rho, F) imaginary; ("h", alt...) histogram
    def alts(self, t):
        return t or frozenset()

    def mk(self, xs):
        xs = [x for x in xs if x is not None]
        if not xs:
            return None
        if len(xs) > 8:
            d = {}
            for x in xs:
                k = x[:3]
                d.setdefault(k, x)
                if d[k] != x and x[0] in "ai":
                    d[k] = (x[0], x[1], x[2], None)
            xs = list(d.values())[:8]
        return frozenset(xs)

    def join(self, a, b):
        if a == b or b is None:
            return a
        if a is None:
            return b
        return self.mk(list(a | b))

    def widen_tag(self, old, new):
        t = self.join(old.tag, new.tag)
        if t is not None and len(t) > 3 and t != old.tag:
            return self.mk([(x[0], x[1], x[2], None) if x[0] in "ai" else x for x in t])
        return t

    def source(self, role, name, v):
        if role in ("angles", "angle"):
            return frozenset([self.user]) if self.user is not None else None
        return None

    # ---- checks
    def bad(self, rule, node, what, msg):
        self.report(rule, node, f"{self.I.qual()}:{what}", msg + f" (unit case: {getattr(self.I.scen, 'label', '')})")

    def name(self, t):
        if t[1]:
            return "the user's unit" if t[1] == (("K", 1),) or t[1] == (("K2", 1),) else "no unit (cycle length to the power " + ", ".join(str(e) for k, e in t[1]) + ")"
        if ratl(t[2], TAU):
            return "radians"
        if ratl(t[2], 360):
            return "degrees"
        if ratl(t[2], 24):
            return "hours"
        return f"{t[2]:.4g} per turn"

    def israd(self, t):
        return not t[1] and ratl(t[2], TAU)

    def same(self, a, b):
        return a[1] == b[1] and ratl(a[2], b[2])

    def trig(self, v, what, node):
        for t in self.alts(v.tag):
            if t[0] in "as" or t[0] == "i":
                self.ncheck += 1
                if not self.israd(t):
                    self.bad("trig-needs-radians", node, what, f"{what} of a number in {self.name(t)} instead of radians")
                    return

    def mix(self, l, r, what, node):
        """l and r are added, compared ...: their units must agree"""
        a = [t for t in self.alts(l.tag) if t[0] in "as"]
        b = [t for t in self.alts(r.tag) if t[0] in "as"]
        if a and b:
            self.ncheck += 1
            if not any(self.same(x, y) for x in a for y in b):
                self.bad("mixed-units", node, what, f"{what} of a number in {self.name(a[0])} and a number in {self.name(b[0])}")
            return
        if not a and not b:
            return
        t, o = (a, r) if a else (b, l)
        if o.tag is not None:
            return
        cs = self.nums(o)
        if not cs:
            return
        for c in cs:
            u = self.unit_const(c)
            if u is None:
                continue
            self.ncheck += 1
            if not any(not x[1] and ratl(x[2], u) for x in t):
                self.bad("mixed-units", node, what, f"{what} of a number in {self.name(t[0])} and the constant {c:.6g}")

    def unit_const(self, c):
        """the turn a literal refers to"""
        if not c or not math.isfinite(c):
            return None
        q = abs(c) / math.pi * 12
        if abs(q - round(q)) < 1e-9 and round(q) >= 1:
            return TAU
        if isinstance(c, (int, float)) and abs(c) in (360, 180, 90, 270, 720, 540):
            return 360.0
        return None

    def nums(self, v):
        c = v.consts()
        if not c or any(isinstance(x, bool) or not isinstance(x, (int, float)) or x != x for x in c) or any(not isinstance(a, C) for a in v.atoms):
            return None
        return c

    # ---- arithmetic
    def unary(self, op, v):
        if op == "USub":
            return self.mk([(t[0], t[1], t[2], -t[3] if t[3] is not None else None) if t[0] in "ai" else t for t in self.alts(v.tag)])
        if op in ("not", "Not", "Invert"):
            return None
        return v.tag

    def scale(self, t, c):
        if t[0] in "ai":
            return (t[0], t[1], t[2] * abs(c), t[3] * c if t[3] is not None else None) if c and math.isfinite(c) else None
        if t[0] == "s":
            return (t[0], t[1], t[2] * abs(c)) if c and math.isfinite(c) else None
        return t

    def mul1(self, x, y, div, node):
        if x[0] == "c" or y[0] == "c":
            if x[0] == "c" and y[0] == "c" or y[0] == "c" and div:
                return None
            o = y if x[0] == "c" else x
            return None if o[0] in "ai" else (x if x[0] == "c" else y)
        if y[0] == "s" and x[0] in "ai":
            if div and y[2] == 0:
                return None
            return (x[0], dmul(x[1], y[1], -1 if div else 1), x[2] / y[2] if div else x[2] * y[2], None if x[3] is None else x[3] / y[2] if div else x[3] * y[2])
        if x[0] == "s" and y[0] in "ai" and not div:
            return self.mul1(y, x, False, node)
        if x[0] == "s" and y[0] == "s":
            return ("s", dmul(x[1], y[1], -1 if div else 1), x[2] / y[2] if div else x[2] * y[2])
        return None

    def bin(self, op, l, r, node):
        o = type(op)
        a, b = l.tag, r.tag
        if a is None and b is None:
            return None
        if o in (ast.Add, ast.Sub):
            return self.addsub(l, r, 1 if o is ast.Add else -1, node)
        if o in (ast.Mult, ast.Div):
            return self.muldiv(l, r, o is ast.Div, node)
        if o is ast.Mod:
            self.mix(l, r, "remainder", node)
            return a
        if o is ast.FloorDiv:
            self.mix(l, r, "floor division", node)
            return None
        return None

    def addsub(self, l, r, sg, node):
        a, b = l.tag, r.tag
        self.mix(l, r, "sum" if sg > 0 else "difference", node)
        if a is None or b is None:
            if a is not None and not self.nums(r) and any(t[0] == "a" for t in a) or b is not None and not self.nums(l) and any(t[0] == "a" for t in b):
                return self.mk([(t[0], t[1], t[2], None) if t[0] == "a" else t for t in a or b])
            return a or b if b is None or sg > 0 else self.unary("USub", r)
        out = []
        pairs = [(x, y) for x in a for y in b]
        for x, y in pairs:
            if x[0] == "a" and y[0] == "a":
                if self.same(x, y) or len(pairs) == 1:
                    out.append(("a", x[1], x[2], x[3] + sg * y[3] if x[3] is not None and y[3] is not None else None))
            elif x[0] == "s" and y[0] == "s":
                out.append(x)
            elif x[0] == "c" or y[0] == "c":
                z = x if x[0] == "c" else y
                out.append(z if x == y or x[0] != "c" or y[0] != "c" else ("c", None))
            else:
                z = x if x[0] in "ai" else y
                out.append(z)
        return self.mk(out)

    def muldiv(self, l, r, div, node):
        a, b = l.tag, r.tag
        if a is not None and b is not None:
            al = [t for t in a if t[0] == "a"]
            bl = [t for t in b if t[0] == "a"]
            if div and al and bl:
                self.mix(l, r, "ratio", node)
            return self.mk([self.mul1(x, y, div, node) for x in a for y in b])
        if b is None:
            t, o = a, r
        else:
            t, o = b, l
            if div:
                cs = self.nums(l)
                if cs and len(cs) == 1 and cs[0] and all(x[0] == "s" for x in t):
                    return self.mk([("s", dmul((), x[1], -1), cs[0] / x[2]) for x in t])
                return None
        c = o.consts() or []
        if len(c) == 1 and isinstance(c[0], complex) and o.only(C):
            return self.mk([("i",) + x[1:] if x[0] == "a" else x for x in t])
        if len(c) == 1 and self.nums(o) and c[0]:
            k = 1 / c[0] if div else c[0]
            return self.mk([self.scale(x, k) for x in t])
        return self.mk([(x[0], x[1], x[2], None) if x[0] in "ai" else ("c", x[1]) if x[0] == "c" else x for x in t])

    def compare(self, op, l, r, node):
        if not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            self.mix(l, r, "comparison", node)
        return None

    def index(self, base, idx, kind, node):
        t = self.alts(base.tag)
        if any(x[0] == "h" for x in t):
            ok, k = idx.const()
            return self.hist_item(t, k if ok else None)
        return base.tag

    def hist_item(self, t, i):
        return None if i == 0 else self.mk([("a",) + x[1:] for x in t if x[0] == "h"])

    def unpack_elem(self, v, i, e):
        if any(x[0] == "h" for x in self.alts(v.tag)):
            return e.w(tag=self.hist_item(v.tag, i))
        return e

    def attr(self, recv, name, node):
        if name in ("size", "shape", "ndim", "dtype", "nbytes"):
            return None
        return recv.tag

    def ext_value(self, atom, base):
        return base.tag

    def lossy(self, kind, vs, node):
        if kind == "format":
            for v in vs:
                self.printed(v, node)
        return None

    def printed(self, v, node):
        if self.fmt is None:
            return
        for t in self.alts(v.tag):
            if t[0] in "a":
                self.ncheck += 1
                if not self.same(t, self.fmt):
                    self.bad("printed-unit", node, "format", f"a number in {self.name(t)} is printed for a user who works in {self.name(self.fmt)}")
                    return
                if t[3] is not None and self.fmt[3] is not None and t[3] and abs(abs(t[3]) - abs(self.fmt[3])) > 1e-9 * abs(self.fmt[3]):
                    self.bad("printed-unit", node, "format", f"a direction is printed scaled by {abs(t[3] / self.fmt[3]):.4g}")
                    return

    def call_result(self, f, vals, v, node):
        if f.node.name in ("angular_std", "circ_std") and hasattr(f.node, "name"):
            x = self.I.flat(v)
            if v.only(Tup):
                return v
            return v.w(tag=frozenset([A(TAU, 0.0)]))
        return v

    def callback_arg(self, name, i, others, fnode):
        if name.startswith(("scipy.optimize", "scipy.integrate")):
            return None
        t = None
        for o in others:
            t = self.join(t, o.tag)
        return t

    def unit_grid(self, vs):
        """tag of a grid or random number between constants"""
        for v in vs:
            for t in self.alts(v.tag):
                if t[0] == "s":
                    return frozenset([("a", t[1], t[2], None)])
                if t[0] == "a":
                    return frozenset([("a", t[1], t[2], None)])
        us = {self.unit_const(c) for v in vs for c in (self.nums(v) or ())} - {None}
        if len(us) == 1 and us != {360.0}:
            return frozenset([A(us.pop())])
        if us == {360.0} and any(c in (360, 720) for v in vs for c in (self.nums(v) or ())):
            return frozenset([A(360.0)])
        return None

    def ext_first(self, name, args, kw, node):
        if name.split(".")[-1] in ("histogram", "histogram_bin_edges") and args:
            for v in list(args[2:3]) + [kw[k] for k in ("range",) if k in kw]:
                for a in v.atoms:
                    if isinstance(a, Tup):
                        for x in a.items:
                            self.mix(self.I.flat(args[0]), x, "histogram", node)
        return None

    def ext(self, name, cat, args, kw, node):
        last = name.split(".")[-1]
        vs = list(args) + list(kw.values())
        if last in ("linspace", "arange"):
            t = None
            for v in args[:2]:
                if v.tag is not None and any(x[0] in "as" for x in v.tag):
                    t = self.join(t, self.unit_grid([v]))
            return t or self.unit_grid(args[:2] + [kw[k] for k in ("start", "stop", "low", "high") if k in kw])
        if last == "uniform" and name.startswith(("rng.", "numpy.random", "random.", "?.")):
            return self.unit_grid(args[:2] + [kw[k] for k in ("low", "high") if k in kw])
        if last == "vonmises" and name.startswith(("rng.", "numpy.random", "random.", "?.")):
            return frozenset([A(TAU)])
        if last in ("arctan2", "atan2"):
            cs = [t for v in args[:2] for t in self.alts(v.tag) if t[0] == "c"]
            F = {t[1] for t in cs}
            return frozenset([A(TAU, F.pop() if len(F) == 1 and all(v.tag is not None for v in args[:2]) else None)])
        if last in ("angle", "phase"):
            F = {t[1] for v in args[:1] for t in self.alts(v.tag) if t[0] == "c"}
            deg = kw.get("deg")
            if deg is not None and deg.consts() == [True]:
                return frozenset([A(360.0)])
            return frozenset([A(TAU, F.pop() if len(F) == 1 else None)])
        if last in ("arctan", "arccos", "arcsin", "atan", "acos", "asin") and not name.startswith("?"):
            return frozenset([A(TAU)])
        if not any(v.tag is not None for v in vs):
            return None
        a0 = args[0] if args else vs[0]
        if last in PLOT and not name.startswith(("numpy", "scipy", "pandas", "builtins")):
            for x in [a0] + [kw[k] for k in ("x", "theta") if k in kw]:
                self.trig(x, last, node)
            return None
        if last in ("sin", "cos", "tan", "sinc"):
            self.trig(a0, last, node)
            return self.mk([("c", t[3]) for t in self.alts(a0.tag) if t[0] == "a"])
        if last == "exp":
            im = [t for t in self.alts(a0.tag) if t[0] == "i"]
            if im:
                self.trig(a0.w(tag=frozenset(im)), "exp(1j...)", node)
            return self.mk([("c", t[3]) for t in im])
        if last in ("circmean", "circvar", "circstd"):
            self.trig(a0, last, node)
            return a0.tag if last == "circmean" else None
        if last in ("rad2deg", "degrees"):
            return self.mk([self.scale(t, 180 / math.pi) for t in self.alts(a0.tag)])
        if last in ("deg2rad", "radians"):
            return self.mk([self.scale(t, math.pi / 180) for t in self.alts(a0.tag)])
        if last in ("conj", "conjugate"):
            return self.mk([("c", -t[1] if t[1] is not None else None) if t[0] == "c" else t for t in self.alts(a0.tag)])
        if last in ("real", "imag"):
            return a0.tag
        if last in ("histogram", "histogram_bin_edges"):
            for k in ("range", "bins"):
                v = kw.get(k)
                if v is not None:
                    self.mix(a0, v, "histogram", node)
            for v in args[1:3]:
                self.mix(a0, v, "histogram", node)
            h = "h" if last == "histogram" else "a"
            return self.mk([(h,) + t[1:3] + (None,) for t in self.alts(a0.tag) if t[0] == "a"])
        if last in NONE_:
            return None
        if last in ("multiply", "divide", "true_divide") and len(args) >= 2:
            return self.muldiv(args[0], args[1], last != "multiply", node)
        if last in ("add", "subtract") and len(args) >= 2:
            return self.addsub(args[0], args[1], 1 if last == "add" else -1, node)
        if last in ("outer",) and len(args) >= 2 and not name.split(".")[-2:][0] in ("subtract", "add"):
            return self.muldiv(args[0], args[1], False, node)
        if last in ("mod", "remainder", "fmod", "floor_divide") and len(args) >= 2:
            self.mix(args[0], args[1], "remainder", node)
            return None if last == "floor_divide" else args[0].tag
        if last in CMP and len(args) >= 2:
            self.mix(args[0], args[1], "comparison", node)
            return None
        if last in ("dot", "vdot", "inner", "matmul", "einsum", "tensordot") and len(args) >= 2:
            cs = [t for v in args for t in self.alts(v.tag) if t[0] == "c"]
            return frozenset(cs) if cs and sum(v.tag is not None for v in args) == 1 else None
        if last in ("diff", "ediff1d"):
            return self.mk([(t[0], t[1], t[2], 0.0) if t[0] == "a" else t for t in self.alts(a0.tag)])
        if last in ("abs", "absolute", "fabs", "hypot", "norm") and any(t[0] == "c" for t in self.alts(a0.tag)):
            return None
        if last in KEEP:
            if last in ("min", "max", "amin", "amax") and len(args) > 1 and name.startswith("builtins."):
                return self.joined(args, node, last)
            return a0.tag
        if last in SUMS:
            return self.mk([(t[0], t[1], t[2], None if t[3] else t[3]) if t[0] in "a" else t for t in self.alts(a0.tag)])
        if last in JOINS:
            xs = args
            if last in ("where", "select") and len(args) >= 3:
                xs = args[1:]
            if last in ("full", "full_like"):
                xs = args[1:2] or [kw[k] for k in ("fill_value",) if k in kw]
            return self.joined(xs, node, last)
        if last in ("polyfit", "interp", "cov", "var", "prod", "sqrt", "log", "power", "square", "histogram2d", "floor", "ceil", "rint", "trunc", "int", "i0", "i1", "ive", "iv", "erf"):
            return None
        return None

    def joined(self, xs, node, last):
        t = None
        if last in ("minimum", "maximum", "fmin", "fmax", "clip", "min", "max", "append", "concatenate", "hstack", "where"):
            for i in range(1, len(xs)):
                self.mix(xs[0], xs[i], last, node)
        for x in xs:
            t = self.join(t, x.tag)
        return t


K1 = (("K", 1),)
K2 = (("K2", 1),)


def kval(I, dims, name):
    return V([T("num")], frozenset([name]), EMPTY, EMPTY, frozenset([("s", dims, 1.0)]))


# name -> (unit argument, full_cycle argument, tag of the user's data)
CIRC = {
    "degree": ("degree", None, A(360.0, 360.0)),
    "radian": ("radian", None, RAD),
    "hour": ("hour", None, A(24.0, 24.0)),
    "degree, own cycle": ("degree", K1, A(1.0, 1.0, K1)),
    "hour, own cycle": ("hour", K1, A(1.0, 1.0, K1)),
    "custom cycle": ("day", K1, A(1.0, 1.0, K1)),
}
CLUS = {
    "degree": ("degree", None, A(360.0, 360.0)),
    "degree, own cycle": ("degree", K1, A(1.0, 1.0, K1)),
    "radian": ("radian", None, RAD),
    "radian, own cycle": ("radian", K1, RAD),
}


def uv(role, name, tag, t="arr"):
    mut = t == "arr"
    return V([T(t)], frozenset([name]), EMPTY, frozenset([f"arg:{name}"]) if mut else EMPTY, frozenset([tag]))


def built(I, c, unit, cyc, tag, extra=None):
    I.dom.user = RAD
    over = {"unit": const(unit), "full_cycle": kval(I, cyc, "full_cycle") if cyc else "default"}
    f = next(iter(get_func(I, c).cls.find("__init__")[1].atoms))
    names = [p[0] for p in func_params(f)]
    if "data" in names:
        over["data"] = uv("angles", "data", tag)
    if "n_clusters_max" in names:
        over["n_clusters_max"] = "default"
    if "rotate" in names:
        over["rotate"] = "none"
    over.update(extra or {})
    return construct(I, c, "any", over)


def make_scens():
    out = []
    for c in ("base.Circular", "base.Axial"):
        for u, (unit, cyc, tag) in CIRC.items():
            for var, ex in (("", {"bins": "none", "w": "none"}), ("w", {"bins": "none", "w": "given"}), ("bins", {"bins": "given", "w": "none"}), ("rotate", {"bins": "none", "w": "none", "rotate": None}),
                            ("mixture", {"bins": "none", "w": "none", "n_clusters_max": const(2)})):
                if var == "rotate" and c == "base.Axial":
                    continue

                def go(I, c=c, unit=unit, cyc=cyc, tag=tag, ex=ex):
                    ex = dict(ex)
                    if "rotate" in ex:
                        ex["rotate"] = uv("angle", "rotate", A(TAU), "num")
                    return built(I, c, unit, cyc, tag, ex)
                out.append(Scen(f"{c}[{u}]{var and ' ' + var}", "ctor", go, entry=c, user=tag))
            for q in ("__repr__", "summary", "plot"):
                def qu(I, c=c, unit=unit, cyc=cyc, tag=tag, q=q):
                    qq, I.dom.quiet = I.dom.quiet, True
                    try:
                        o = built(I, c, unit, cyc, tag, {"bins": "none", "w": "none", **({"n_clusters_max": const(2)} if q == "plot" else {})})
                    finally:
                        I.dom.quiet = qq
                    I.dom.fmt = tag if q != "plot" else None
                    try:
                        return method(I, o, q, c, "any")
                    finally:
                        I.dom.fmt = None
                out.append(Scen(f"{c}.{q}[{u}]", "query", qu, entry=c, method=q))
    for c, spec in CLASSES.items():
        if not c.startswith("clustering."):
            continue
        for u, (unit, cyc, tag) in CLUS.items():
            def fit(I, c=c, unit=unit, cyc=cyc, tag=tag, u=u):
                cache = I.__dict__.setdefault("unitfit", {})
                if (c, u) not in cache:
                    o = built(I, c, unit, cyc, tag)
                    cls = I.st.get(o.refs()[0]).cls
                    m = next(iter(cls.find("fit")[1].atoms))
                    p = func_params(m)[1][0]
                    method(I, o, "fit", c, "any", {p: uv("angles", p, tag)})
                    cache[(c, u)] = (I.st.copy(), o)
                st, o = cache[(c, u)]
                I.st = st.copy()
                return o
            out.append(Scen(f"{c}.fit[{u}]", "fit", fit, entry=c, user=tag))
            for q in spec["query"]:
                for cu, cc in ((None, None), ("degree", None), ("degree", K2), ("radian", None), (None, K2)):
                    for gv in ("given", "grid"):
                        def qu(I, c=c, q=q, fit=fit, unit=unit, cyc=cyc, cu=cu, cc=cc, gv=gv):
                            o = fit(I)
                            cls = I.st.get(o.refs()[0]).cls
                            got = cls.find(q)
                            if got[1] is None:
                                raise AnchorLost(f"{c}.{q}")
                            m = next(iter(got[1].atoms))
                            ps = func_params(m)[1:]
                            names = [p[0] for p in ps]
                            ang = [p for p in ps if p[0] in ("x", "X", "alpha")]
                            if cu or cc:
                                if "unit" not in names:
                                    raise Skip()
                            if gv == "grid" and not (ang and ang[0][1] is not None and any(isinstance(a, C) and a.v is None for a in ang[0][1].atoms)):
                                raise Skip()
                            eu = cu or unit
                            dims = cc or cyc
                            tag = RAD if eu == "radian" else A(1.0, 1.0, dims) if dims else A(360.0, 360.0)
                            over = {}
                            for p in ang:
                                over[p[0]] = "none" if gv == "grid" else uv("angles", p[0], tag)
                            if "unit" in names:
                                over["unit"] = const(cu)
                            if "full_cycle" in names:
                                over["full_cycle"] = kval(I, cc, "full_cycle") if cc else NONE
                            return method(I, o, q, c, "any", over)
                        out.append(Scen(f"{c}.{q}[{u}]" + (f" called with unit={cu}, full_cycle={'own' if cc else None}" if cu or cc else "") + (" default grid" if gv == "grid" else ""),
                                        "query", qu, entry=c, method=q))
    # functions: radians in, radians out
    for f in FUNCS:
        if f in ("utils.data2rad", "utils.rad2data", "utils.rotate_data", "utils.time2float", "utils.load_data"):
            continue

        def fn(I, f=f):
            I.dom.user = RAD
            return I.call_func(get_func(I, f), [], build_args(I, f, get_func(I, f), "any"), None)
        out.append(Scen(f, "func", fn, entry=f, user=RAD))
    for u, (unit, cyc, tag) in CIRC.items():
        if cyc is None:
            def rot(I, unit=unit, tag=tag):
                return I.call_func(get_func(I, "utils.rotate_data"), [], {"alpha": uv("angles", "alpha", tag), "angle": uv("angle", "angle", (tag[0], tag[1], tag[2], None), "num"),
                                                                          "unit": const(unit)}, None)
            out.append(Scen(f"utils.rotate_data[{u}]", "conv", rot, entry="utils.rotate_data", want=tag))

        def k(I, unit=unit, cyc=cyc):
            return kval(I, cyc, "k") if cyc else const({"degree": 360, "radian": TAU, "hour": 24}[unit])

        def fwd(I, tag=tag, k=k):
            return I.call_func(get_func(I, "utils.data2rad"), [], {"data": uv("angles", "data", tag), "k": k(I)}, None)

        def back(I, tag=tag, k=k):
            return I.call_func(get_func(I, "utils.rad2data"), [], {"rad": uv("angles", "rad", RAD), "k": k(I)}, None)
        if u != "hour, own cycle":
            out.append(Scen(f"utils.data2rad[{u}]", "conv", fwd, entry="utils.data2rad", want=RAD))
            out.append(Scen(f"utils.rad2data[{u}]", "conv", back, entry="utils.rad2data", want=tag))
    out.append(Scen("utils.data2rad[default]", "conv", lambda I: I.call_func(get_func(I, "utils.data2rad"), [], {"data": uv("angles", "data", A(360.0, 360.0))}, None), entry="utils.data2rad", want=RAD))
    out.append(Scen("utils.rad2data[default]", "conv", lambda I: I.call_func(get_func(I, "utils.rad2data"), [], {"rad": uv("angles", "rad", RAD)}, None), entry="utils.rad2data", want=A(360.0, 360.0)))
    return out


class Skip(Dead):
    pass


DIRECTIONS = {"alpha", "mean", "median", "mean_lb", "mean_ub", "median_lb", "median_ub", "alpha_lb", "alpha_ub", "m_", "centers_"}
DEGREES = {("hypothesis.rao_spacing_test", "statistic")}


def judge(d, s, o):
    if o.dead:
        return
    kind = s.kind
    if kind == "conv":
        w = s.info["want"]
        ts = set()
        for p, v in reachable(o.state, o.value):
            ts |= set(d.alts(v.tag))
        ok = bool(ts) and all(t[0] == "a" and t[1] == w[1] and abs(t[2] - w[2]) < 1e-9 * w[2] and (t[3] is None or abs(t[3] - w[3]) < 1e-9 * w[3]) for t in ts)
        d.ncheck += 1
        if not ok:
            d.report("conversion", None, s.info["entry"], f"{s.label} returns a number in {', '.join(sorted(d.name(t) if t[0] == 'a' else 'no unit' for t in ts)) or 'no unit'}")
        return
    if kind not in ("ctor", "fit", "func"):
        return
    user = s.info["user"]
    for p, v in reachable(o.state, o.value):
        last = p.split(".")[-1].split("[")[0].split(":")[0]
        if last in ("full_cycle", "k") or ".mixture" in p or "kwargs" in p:
            continue
        for t in d.alts(v.tag):
            if t[0] != "a":
                continue
            d.ncheck += 1
            where = f"{s.info['entry']}.{last}" if last else s.info["entry"]
            if last in ("data", "data_double"):
                if not d.same(t, user):
                    d.report("stored-unit", None, where, f"{s.label} keeps .{last} in {d.name(t)}, not in the user's unit")
                continue
            if (s.info["entry"], last) in DEGREES:
                if t[1] or not ratl(t[2], 360):
                    d.report("stored-unit", None, where, f"{s.label} returns .{last} in {d.name(t)}, not in degrees")
                continue
            if kind == "func":
                if not t[1] and ratl(t[2], 360):
                    d.report("stored-unit", None, where, f"{s.label} returns {'.' + last if last else 'its result'} in degrees, not in radians")
                continue
            if not d.israd(t):
                d.report("stored-unit", None, where, f"{s.label} keeps {'.' + last if last else 'its result'} in {d.name(t)}, not in radians")
                continue
            if kind != "func" and last in DIRECTIONS and p.count(".") == 1 and t[3] is not None and abs(abs(t[3]) - TAU) > 1e-9:
                d.report("stored-unit", None, where, f"{s.label} keeps .{last} scaled by {abs(t[3]) / TAU:.4g} (doubled data not halved again, or halved twice)")


def check(prog, rep, tier):
    d = Unit()
    I = Interp(prog, d, max_steps=300_000_000)
    I.load_all()
    st = run_all(I, make_scens(), each=lambda s, o: judge(d, s, o))
    rep.take(d)
    rep.cov.update(st)
    rep.cov["unit_checks"] = d.ncheck
    rep.floor("scenarios", st["scenarios"], 150)
    rep.floor("completed", st["completed"], 300)
    rep.floor("unit_checks", d.ncheck, 1500)


SELF = """
import numpy as np
def bad_cos(alpha):
    return np.cos(alpha)
def bad_twice(alpha):
    a = np.deg2rad(alpha)
    return np.sin(np.deg2rad(a))
def bad_hour(alpha):
    return np.exp(1j * (2 * np.pi * alpha / 24))
def bad_mod(alpha):
    return np.mod(alpha, 2 * np.pi)
def bad_mix(alpha):
    a = np.deg2rad(alpha)
    return np.sum(alpha - np.angle(np.mean(np.exp(1j * a))))
def bad_cmp(alpha):
    a = 2 * np.pi * alpha / 360
    return np.where(a > 180, a - 2 * np.pi, a)
def bad_hist(alpha):
    return np.histogram(alpha, bins=8, range=(0, 2 * np.pi))[0]
def bad_branch(alpha, centered=False):
    x = alpha if centered else np.deg2rad(alpha)
    return np.sin(x)
def bad_grid(alpha):
    x = np.linspace(0, 360, 10)
    return np.cos(x)
def ok_once(alpha):
    a = alpha * np.pi / 180
    return np.arctan2(np.sum(np.sin(a)), np.sum(np.cos(a))) % (2 * np.pi)
def ok_turns(alpha):
    f = alpha / 360
    f = f % 1
    return np.cos(2 * np.pi * f)
def ok_back(alpha):
    a = np.deg2rad(alpha)
    m = np.angle(np.sum(np.exp(2j * a))) / 2
    return np.abs(alpha - np.rad2deg(m)) % 360
def ok_avg(alpha):
    s = np.sort(np.deg2rad(alpha) % (2 * np.pi))
    return 0.5 * (s[:-1] + s[1:]) - np.pi
def ok_grid(alpha):
    x = np.linspace(0, 2 * np.pi, 10)
    return np.cos(x - np.deg2rad(alpha[0]))
"""


def selftest(rep):
    d = Unit()
    d.user = A(360.0, 360.0)
    names = [l[4:].split("(")[0] for l in SELF.splitlines() if l.startswith(("def bad", "def ok"))]
    expect(mini(SELF, d, lambda s, o: None, names), names)
    rep.cov["selftest_functions"] = len(names)
