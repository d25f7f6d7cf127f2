"""C03: adding whole turns to observations changes nothing (congruence analysis of angles)."""
import ast, math
from .domain import Domain
from .values import *
from .interp import Program, Interp
from .scen import *
from .util import reachable
from .report import Broken

RULES = [
    "an observation (or a sum, difference, integer multiple of observations) reaches a result only through operations that are the same for any of its turns: "
    "sin/cos/exp(1j.), reduction modulo one turn, sin of half of it squared",
    "sorting, ranking, comparing, absolute value, rounding, averaging, scaling by a non-integer, powers, histogram, interpolation and any other function of the "
    "unreduced number make everything computed or decided from it depend on the turns",
    "no exception other than a ValueError refusing the input depends on the turns of an observation",
]
EXPLAIN = ("Each entry point is interpreted with its observations tagged as 'congruent modulo one turn'. Tags are transformed by every operation; an operation that is not "
           "compatible with whole turns puts a label on its result that follows data and control dependences to results, fitted state and exceptions.")
ASSUME = ["moment orders are integers", "equality with a constant boundary (0, 2*pi) is a convention on a single point, not a dependence on turns",
          "a distribution object supplied by the caller treats angles as angles", "numpy and scipy circular functions (circmean, circvar, circstd) reduce their argument", "rounding to a number of decimals is rounding"]
TAU = 2 * math.pi
CYC = {"full_cycle", "k", "n_intervals", "cycle", "period"}
INTPAR = {"p", "order"}


def near(x):
    return abs(x - round(x)) < 1e-9 * max(1.0, abs(x))


def gcd(a, b):
    """largest step both steps are multiples of (0: unknown)"""
    if a == b:
        return a
    x, y = max(a, b), min(a, b)
    if not y:
        return 0.0
    for k in range(1, 13):
        if near(k * x / y):
            return y / k
    return 0.0


SAME = set("""asarray asanyarray ascontiguousarray atleast_1d atleast_2d atleast_3d ravel reshape squeeze transpose T swapaxes expand_dims broadcast_to
broadcast_arrays view flat diagonal moveaxis require asfortranarray split array_split hsplit vsplit values array copy flatten astype tolist to_numpy repeat tile
concatenate stack vstack hstack column_stack row_stack dstack append insert delete take choose compress extract resize flip fliplr flipud rot90 roll pad meshgrid
array_from item c_ r_ ix_ block from_iter fromiter to_list full full_like where select nan_to_num float float64 diff ediff1d sum nansum cumsum nancumsum positive negative
choice permutation permuted reversed iter next Series DataFrame unwrap add subtract dropna set frozenset require_copy deepcopy squeeze_ tuple list vectorize real_if_close
concat explode reset_index iloc loc values_ copyto put place putmask triu tril deg2rad rad2deg radians degrees conj conjugate filled""".split())
FREE = set("""isnan isfinite isinf isreal iscomplex isscalar size shape ndim len isinstance type hasattr callable issubclass dtype print format str repr id zeros_like ones_like
empty_like result_type can_cast range count_nonzero_len common_type iscomplexobj isrealobj may_share_memory shares_memory nbytes itemsize warn broadcast_shapes
circmean circvar circstd issubdtype is_numeric_dtype is_list_like enumerate_index""".split())
UFUNC = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div, "true_divide": ast.Div, "floor_divide": ast.FloorDiv, "power": ast.Pow,
         "mod": ast.Mod, "remainder": ast.Mod}


class Turns(Domain):
    fold_numeric = True
    labels = None
    steps = {}

    def __init__(self):
        super().__init__()
        self.labels = {}
        self.reductions = set()
        self.tainted = 0

    # -- tags: None unaffected; ("A", q) changes by multiples of q; ("i", q) times the imaginary unit; ("S",) changes sign; ("K", u) u times a number of turns
    def brk(self, node, what, msg, under=None):
        lab = f"turn:{self.I.qual()}:{what}"
        if lab not in self.labels:
            self.labels[lab] = (self.I.loc(node), self.I.qual(), msg, self.I.path())
        return Brk(lab, under)

    def source(self, role, name, v):
        if role == "angles":
            self.tainted += 1
            return ("A", TAU)
        return None

    def join(self, a, b):
        if a == b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if a[0] == b[0] and a[0] in "Ai":
            return (a[0], gcd(a[1], b[1]))
        return ("A", 0.0)

    def num(self, v):
        c = v.consts()
        if not c or any(isinstance(x, bool) or not isinstance(x, (int, float)) or x != x for x in c):
            return None
        return c

    def isint(self, v):
        return all(isinstance(a, T) and a.t in ("int", "bool") or isinstance(a, C) and isinstance(a.v, int) for a in v.atoms) or bool(v.deps & INTPAR) and len(v.deps) == 1

    def cyc(self, v):
        return any(d.split(".")[-1].split("(")[-1].strip(")") in CYC for d in v.deps)

    def unary(self, op, v):
        if op == "USub" or op == "UAdd":
            return v.tag
        if op == "not":
            return None
        return v.tag

    def bin(self, op, l, r, node):
        a, b = l.tag, r.tag
        if a is None and b is None:
            return None
        o = type(op)
        nm = o.__name__.lower()
        if o in (ast.Add, ast.Sub):
            if a is None or b is None:
                t = a or b
                if t[0] in "AiK":
                    return t
                return self.brk(node, nm, f"a quantity whose sign depends on the turns is used in {nm}")
            if {a[0], b[0]} == {"A", "K"} and (a[0] == "A" or o is ast.Sub):
                A, K = (a, b) if a[0] == "A" else (b, a)
                if near(K[1] / TAU) or abs(K[1] - A[1]) < 1e-9:
                    self.reductions.add(self.I.loc(node))
                    return None
            if a[0] == b[0] == "A":
                if o is ast.Sub and l.sn == r.sn:
                    return None
                return ("A", gcd(a[1], b[1]))
            if a[0] == b[0] == "i":
                return ("i", gcd(a[1], b[1]))
            return self.brk(node, nm, f"{nm} of quantities that depend on the turns")
        if o is ast.Mult:
            if a is not None and b is not None:
                if a == b == ("S",):
                    return None if l.sn == r.sn else a
                return self.brk(node, nm, "product of two unreduced angles")
            t, k = (a, r) if a is not None else (b, l)
            return self.scale(t, k, node)
        if o is ast.Div:
            if b is not None:
                return self.brk(node, nm, "division by an unreduced angle")
            n = self.num(r)
            if a[0] == "S":
                return a
            if n and set(n) <= {360, 24} and abs(a[1] - TAU * TAU) < 1e-9:
                return ("A", TAU)
            if n and all(n):
                return self.scaled(a, [1.0 / x for x in n])
            if a[0] in "A" and (self.cyc(r)):
                return ("A", TAU if abs(a[1] - TAU * TAU) < 1e-9 else a[1] / TAU)
            return self.brk(node, nm, "unreduced angle divided by a number: dividing does not keep whole turns apart")
        if o is ast.Mod:
            if b is None and a[0] == "A":
                return self.mod(a, r, node)
            return self.brk(node, nm, "remainder of an unreduced angle")
        if o is ast.FloorDiv:
            n = self.num(r)
            if b is None and a[0] == "A" and n and all(x and near(a[1] / x) and a[1] for x in n):
                return ("K", 1.0)
            return self.brk(node, nm, "floor division of an unreduced angle")
        if o is ast.Pow:
            n = self.num(r)
            if a == ("S",) and n and all(x % 2 == 0 for x in n):
                return None
            return self.brk(node, nm, "power of an unreduced angle")
        if o in (ast.BitAnd, ast.BitOr, ast.BitXor):
            return None
        return self.brk(node, nm, f"{nm} of an unreduced angle")

    def mod(self, a, m, node):
        n = self.num(m)
        if n:
            if all(x and (near(a[1] / x) and a[1] > 0 or x in (360, 24) and a[1] > 0 and near(a[1] / TAU)) for x in n):
                self.reductions.add(self.I.loc(node))
                return None
        elif self.cyc(m) and near(a[1] / TAU) and a[1] > 0:
            self.reductions.add(self.I.loc(node))
            return None
        return self.brk(node, "mod", "remainder of an unreduced angle by something that is not one turn of it")

    def scaled(self, t, ks):
        out = None
        for k in ks:
            out = self.join(out, (t[0], abs(t[1] * k)))
        return out

    def scale(self, t, k, node):
        if t[0] == "S":
            return t
        c = k.consts()
        if c and all(isinstance(x, complex) and x.real == 0 for x in c) and t[0] == "A":
            return ("i", abs(t[1] * c[0].imag))
        n = self.num(k)
        if n:
            return self.scaled(t, n)
        if t[0] == "K":
            return ("K", t[1] * TAU) if self.cyc(k) else self.brk(node, "mult", "number of turns times a number")
        if self.isint(k):
            return t
        if t[0] == "A" and self.cyc(k):
            return ("A", TAU * TAU if abs(t[1] - TAU) < 1e-9 else TAU)
        return self.brk(node, "mult", "unreduced angle times a number that need not be an integer")

    def compare(self, op, l, r, node):
        if l.tag is None and r.tag is None:
            return None
        if isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            return None
        o = r if l.tag is not None else l
        if isinstance(op, (ast.Eq, ast.NotEq)) and o.tag is None and (o.only(C) or self.cyc(o)):
            return None
        return self.brk(node, "compare", "comparison of an unreduced angle")

    def index(self, base, idx, kind, node):
        i = self.I.flat(idx)
        if i.tag is not None and i.tag[0] in "ASK":
            return self.brk(node, "index", "an unreduced angle used as index", base.tag)
        return base.tag

    def store_tag(self, base, idx, v):
        return v.tag

    def iter_elem(self, v):
        return v.tag

    def attr(self, recv, name, node):
        if name in FREE:
            return None
        return recv.tag

    def refine_compare(self, test, pos):
        """an empty array holds no angle"""
        if len(test.ops) != 1 or not (isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value in (0, 1)):
            return
        op, k = test.ops[0], test.comparators[0].value
        empty = isinstance(op, ast.Eq) and k == 0 and pos or isinstance(op, (ast.NotEq, ast.Gt)) and k == 0 and not pos or isinstance(op, ast.Lt) and k == 1 and pos
        l = test.left
        t = l.value if isinstance(l, ast.Attribute) and l.attr == "size" else l.args[0] if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and l.args else None
        if empty and t is not None and isinstance(t, (ast.Name, ast.Attribute)):
            self.I.lvalue_update(t, lambda v: v.w(tag=None))

    def on_handler(self, h, names, node):
        """converting a caller's documented argument to an array of floats succeeds"""
        b = node.body
        if len(b) == 1 and isinstance(b[0], (ast.Assign, ast.Return)) and isinstance(b[0].value, ast.Call):
            c = b[0].value
            nm = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ""
            if nm in ("asarray", "array", "float", "atleast_1d", "asanyarray") and c.args and isinstance(c.args[0], (ast.Name, ast.Attribute)):
                return False

    def callback_arg(self, name, i, others, fnode):
        if name.startswith(("scipy.optimize", "scipy.integrate")):
            return None
        t = None
        for o in others:
            t = self.join(t, o.tag)
        return t

    def ext(self, name, cat, args, kw, node):
        last = name.split(".")[-1]
        tags = [v.tag for v in args] + [v.tag for v in kw.values()]
        if not any(t is not None for t in tags):
            return None
        if last == "outer" and name.split(".")[-2:-1] and name.split(".")[-2] in UFUNC:
            last = name.split(".")[-2]
        if last in FREE or name.startswith(("matplotlib", "warnings", "logging")):
            return None
        main = args[0].tag if args else None
        if last in UFUNC and len(args) >= 2:
            return self.bin(UFUNC[last](), args[0], args[1], node)
        if last in ("sin", "cos", "tan") and main:
            if main[0] == "A":
                q = main[1] / TAU
                if q and near(q) or last == "tan" and q and near(2 * q):
                    return None
                if q and near(2 * q):
                    return ("S",)
            return self.brk(node, last, f"{last} of a fraction of an unreduced angle")
        if last in ("exp",) and main and main[0] == "i":
            q = main[1] / TAU
            if q and near(q):
                return None
            if q and near(2 * q):
                return ("S",)
            return self.brk(node, last, "exp of a fraction of an unreduced angle")
        if last == "where" and len(args) == 3 or last == "select":
            t = None
            for x in args[1:]:
                t = self.join(t, x.tag)
            return t
        if last in ("abs", "absolute", "fabs") and main == ("S",):
            return None
        if last == "square" and main == ("S",):
            return None
        if last in ("floor", "round", "rint", "around", "trunc", "ceil", "int") and main and main[0] == "A":
            if len(args) > 1 or kw.get("decimals") is not None:
                return main
            if near(main[1]) and main[1] > 0 and last in ("floor", "round", "rint", "around", "ceil"):
                return ("K", 1.0)
        if last in ("floor", "round", "rint", "ceil", "trunc", "int", "around") and main and main[0] == "K":
            return main
        if last in ("deg2rad", "rad2deg", "radians", "degrees"):
            return main
        if last in ("isclose", "allclose", "equal", "not_equal", "array_equal"):
            o = [v for v in args[:2] if v.tag is None]
            if o and all(v.only(C) or self.constish(v) for v in o):
                return None
        if last in ("agg", "apply", "transform", "map", "aggregate") and len(args) > 2:
            return args[-1].tag
        if name in ("?.fit", "?.logpdf", "?.pdf", "?.cdf", "?.logcdf", "?.sf") and main is None:
            return None
        if last in ("groupby", "unstack", "reset_index", "get_group"):
            return main
        if last == "count":
            return None
        if last in SAME or name.startswith("pandas."):
            if last in ("sum", "nansum", "cumsum", "nancumsum") and main and main[0] not in "Ai":
                return self.brk(node, last, f"{last} of a quantity that depends on the turns")
            t = None
            for x in list(args) + [v for k, v in kw.items() if k not in ("dtype", "axis", "random_state", "rng")]:
                if x.tag is not None:
                    t = self.join(t, x.tag)
            return t
        if name.startswith("scipy.optimize."):
            return kw["x0"].tag if "x0" in kw else args[1].tag if len(args) > 1 and last in ("minimize",) else None
        if name.startswith("rng.") and (args[0].tag is None):
            if last in ("choice", "permutation", "permuted"):
                return args[1].tag if len(args) > 1 else None
        return self.brk(node, last, f"{last} of an unreduced angle depends on the turns")

    def constish(self, v):
        return not (v.deps - {"self._period", "self._lower_bound"}) and not v.tag


RAWATTR = {"data", "alpha", "theta", "x", "X", "y", "_alpha", "_data", "_theta", "feature", "target", "alpha_lb", "alpha_ub"}


def scens():
    out = []
    for s in fn_scens() + circ_sample_scens():
        e = s.info["entry"]
        if e.startswith("utils.") and e.split(".")[1] not in ("angular_distance", "is_within_circular_range") or e.startswith("visualization."):
            continue
        out.append(s)
    out += [s for s in class_scens() if not s.label.endswith((".plot", ".plot_dendrogram", "__repr__", "__str__", ".summary"))]
    out += [s for s in dist_scens() if s.info["method"] in DIST_X + ["fit"]]
    return out


def judge(d, s, o, what="C03"):
    seen = set()
    if not o.dead:
        for p, v in reachable(o.state, o.value):
            last = p.replace(":", ".").split(".")[-1].split("[")[0]
            for x in v.deps | v.cdeps:
                if x.startswith("turn:"):
                    seen.add((x, p))
            if v.tag is not None and not (last in RAWATTR and s.kind != "func"):
                d.report("unreduced-result", None, f"{s.info.get('entry') or s.label}:{last or 'value'}",
                         f"{s.label} returns {p or 'a value'} that moves with the turns of the observations")
    for r in o.raises:
        for x in r[4]:
            if x.startswith("turn:") and r[1] != "ValueError":
                seen.add((x, "raise " + r[1]))
    for x, p in sorted(seen):
        loc, fn, msg, path = d.labels.get(x, ("?", "?", "", ""))
        d.report("depends-on-turns", None, x[5:], f"{msg}; it decides {p or 'the result'} of {s.label}")
        f = d.findings[("depends-on-turns", x[5:])]
        f["loc"], f["func"], f["path"] = loc, fn, path


def check(prog, rep, tier):
    d = Turns()
    I = Interp(prog, d, max_steps=300_000_000)
    I.load_all()
    st = run_all(I, scens(), each=lambda s, o: judge(d, s, o))
    rep.take(d)
    rep.cov.update(st)
    rep.cov["reductions_to_one_turn"] = sorted(d.reductions)
    rep.floor("scenarios", st["scenarios"], 150)
    rep.floor("reduction_sites", len(d.reductions), 10)
    rep.floor("angle_sources", d.tainted, 80)


SELF = """
import numpy as np
TWO = 2 * np.pi
def wrap(x):
    return (x % TWO + TWO) % TWO
def bad_sort(alpha):
    return float(np.max(np.diff(np.sort(alpha))))
def bad_abs(alpha, mean):
    return np.sum(np.abs(np.asarray(alpha) - np.mod(mean, TWO)))
def bad_mean(alpha):
    return np.sin(np.mean(alpha))
def bad_half(alpha):
    return np.sum(np.cos(alpha / 2))
def bad_count(alpha, mean):
    n = 0
    for a in alpha:
        if a > 1.0:
            n += 1
    return n
def bad_raw(alpha):
    return alpha[0]
def bad_mod(alpha):
    return np.sort(np.mod(alpha, np.pi * 1.5))[0]
def bad_key(alpha):
    d = {}
    d["m"] = np.unique(alpha).size
    return d
def ok_mod(alpha):
    return float(np.max(np.diff(np.sort(wrap(alpha)))))
def ok_trig(alpha, p=1):
    return np.hypot(np.sum(np.cos(p * alpha)), np.sum(np.sin(p * alpha)))
def ok_exp(alpha, b):
    return np.angle(np.exp(1j * alpha) / np.exp(1j * b))
def ok_floor(alpha):
    k = np.floor(alpha / TWO)
    return np.sort(alpha - TWO * k)[0]
def ok_diff(alpha):
    d = np.arctan2(np.sin(alpha[:, None] - alpha), np.cos(alpha[:, None] - alpha))
    return np.abs(d).mean()
def ok_sin2(alpha, mean):
    return np.sum(np.sin((alpha - mean) / 2) ** 2)
def ok_axial(alpha):
    return np.mod(2 * alpha, TWO) / 2
"""


def selftest(rep):
    d = Turns()
    names = [l[4:].split("(")[0] for l in SELF.splitlines() if l.startswith(("def bad", "def ok"))]
    expect(mini(SELF, d, lambda s, o: judge(d, s, o), names), names)
    rep.cov["selftest_functions"] = len(names)
