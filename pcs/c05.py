"""C05: the order of the observations does not matter (order-dependence analysis)."""
import ast
from .domain import Domain
from .values import *
from .interp import Program, Interp
from .scen import *
from .util import reachable

RULES = [
    "per-observation data in the caller's order reach a result only through element-wise operations on data in the same order, sorting, counting and symmetric reductions "
    "(sum, mean, extremes, dot products, histograms, accumulation in a loop)",
    "data in the caller's order are never combined element by element with sorted data, positions or data in another order",
    "no difference of neighbours, running total, roll, interpolation or split is taken over data in the caller's order",
    "no single observation is picked by its place in the input (first, last, middle, last of a loop), nor a fixed part of the data cut off; position numbers are not used as values",
    "ranks do not break ties by position",
]
EXPLAIN = ("Each entry point is interpreted with its data tagged 'one value per observation, in the caller's order'. Operations turn the tag into 'sorted', 'symmetric', 'one "
           "observation', 'position'...; an operation that makes the order matter puts a label on its result that follows data and control dependences to the results.")
ASSUME = ["two data arguments of one call are paired observation by observation", "an index array made from random draws is a resample (excluded by the property)",
          "sorting pairs by a key with ties leaves the order of the tied pairs to the input", "picking the first element is symmetric where the path is guarded by 'all coincide' "
          "(a comparison with one)", "results holding one value per observation may follow the input order"]

RED = set("""sum nansum mean nanmean prod nanprod max min amax amin nanmax nanmin median nanmedian std var nanstd nanvar ptp any all average percentile quantile
nanpercentile nanquantile norm count_nonzero fsum logsumexp circmean circvar circstd iqr mode skew kurtosis sem gmean hmean mean_ array_equal allclose
pearsonr spearmanr kendalltau cov corrcoef mannwhitneyu kruskal ks_2samp ttest_ind wilcoxon f_oneway chisquare kstest anderson_ksamp linregress polyfit trace det
logical_and.reduce nunique first_valid""".split())
CONTRACT = {"dot", "vdot", "inner", "matmul", "tensordot", "einsum"}
ORDERED = set("""diff ediff1d cumsum cumprod nancumsum nancumprod gradient convolve correlate trapz trapezoid simpson cumulative_trapezoid fft rfft ifft roll shift rolling
cummax cummin expanding ewm pct_change interp1d CubicSpline savgol_filter accumulate split array_split unwrap lfilter autocorr detrend""".split())
SORT = {"sort", "sorted", "sort_values", "msort", "sort_complex", "partition", "histogram", "histogram2d", "bincount", "value_counts", "set", "frozenset", "unique", "Counter", "union1d",
        "intersect1d", "setdiff1d", "ecdf", "cumfreq", "relfreq"}
RANDOM = ("choice", "permutation", "permuted", "shuffle", "integers", "randint", "resample", "bootstrap")
SAMEPAR = set("""asarray asanyarray ascontiguousarray array copy float64 astype squeeze atleast_1d atleast_2d nan_to_num tolist to_numpy require view list tuple real imag deg2rad
rad2deg radians degrees negative positive values vectorize flatten_ deepcopy item_ iter_""".split())
CAT = {"concatenate", "hstack", "append", "r_", "concat", "extend", "insert", "vstack", "stack", "column_stack", "c_", "row_stack", "block"}
FREE = set("""isinstance type hasattr callable dtype print format str repr id zeros_like ones_like full_like empty_like result_type warn zeros ones empty issubdtype isscalar ndim
may_share_memory shares_memory bool linspace_ Generator default_rng""".split())
RANK = ["M", "E", "O", "e", "R", "P", "W", "U", "p", "x", "f", "Q", "z", "t"]


class Order(Domain):
    fold_numeric = True
    labels = None

    def __init__(self):
        super().__init__()
        self.labels = {}
        self.sorts = set()
        self.reds = set()
        self.sources = 0
        self.looptok = []

    def brk(self, node, what, msg, under=None):
        lab = f"order:{self.I.qual()}:{what}"
        if lab not in self.labels:
            self.labels[lab] = (self.I.loc(node), self.I.qual(), msg, self.I.path())
        return Brk(lab, under)

    def source(self, role, name, v):
        if role in ("angles", "weights") or role == "arr" and name in ("idp", "idq", "x", "X"):
            self.sources += 1
            return ("E", "n")
        return None

    # ---- lattice
    def join(self, a, b):
        if a == b:
            return a
        if a is None or a == ("n",):
            return b
        if b is None or b == ("n",):
            return a
        if a[0] == b[0] == "E":
            s = {a[1], b[1]}
            for k in "suahvmcn":
                if k in s:
                    return ("E", k)
        for k in RANK:
            if k in (a[0], b[0]):
                return a if a[0] == k else b
        return a

    def join_control(self, ctl, a, b, tag):
        return tag

    def iter_elem(self, v):
        t = v.tag
        if t is None:
            return None
        if t[0] == "E":
            return ("E", "n") if t[1] in "amus" else ("e",)
        if t[0] in "RP":
            return ("x",)
        if t[0] in ("e", "x"):
            return t
        return None

    def unpack_elem(self, v, i, e):
        t = v.tag
        if t is None:
            return e
        if t[0] == "U":
            return e.w(tag=self.u_item(t, i))
        if t[0] == "W":
            return e.w(tag=("P",))
        if t[0] == "n":
            return e.w(tag=("n",) if i == 0 else None)
        if t[0] == "E" and t[1] == "s":
            return e.w(tag=("E", "n"))
        if t[0] == "E":
            return e.w(tag=("E", "n"))
        return e.w(tag=t if t[0] == "O" else None)

    def u_item(self, t, i):
        seq = ["O"] + [k for k in t[1]]
        k = seq[i] if i < len(seq) else "O"
        return {"O": ("O", "n"), "i": ("R",), "v": ("E", "n"), "c": ("O", "n")}[k]

    # ---- operators
    def unary(self, op, v):
        if op == "not":
            return None
        return v.tag

    def par(self, fn, a, b, l, r):
        """parity of an element-wise combination of two per-observation values"""
        if "v" in (a, b):
            return "v" if a == b else None
        if {a, b} == {"c", "n"}:
            if fn in ("sub",) and (l.deps == r.deps):
                return "a"
            return "m" if fn in ("add", "mult") and l.deps == r.deps else "u"
        if a == b == "c":
            return "c"
        if "s" in (a, b):
            return "s"
        if a in "amus" or b in "amus":
            if fn in ("add", "sub") and a == b and a in "am":
                return a
            if fn in ("mult", "div"):
                if a in "am" and b in "am":
                    return "m" if a == b else "a"
            if a == b == "m":
                return "m"
            return "u"
        if "h" in (a, b):
            if fn in ("mult", "div"):
                return "n" if a == b else "h"
            if a == b and fn in ("add", "sub"):
                return "h"
            return "x"
        return "n"

    def comb(self, fn, l, r, node):
        a, b = l.tag, r.tag
        a = None if a == ("n",) else a
        b = None if b == ("n",) else b
        if a is None and b is None:
            return None
        for t, what in ((a, "a position"), (b, "a position")):
            if t is not None and t[0] in ("x", "p", "P", "R"):
                o = b if t is a else a
                if t[0] == "x" and (o is None or o[0] == "x"):
                    return ("x",)
                if t[0] == "p" and o is None:
                    return t
                return self.brk(node, "position", "the place of an observation in the input is used as a value")
        if "f" in ((a or "-")[0], (b or "-")[0]):
            if fn in ("eq", "ne") and a is not None and b is not None and "E" in (a[0], b[0]) and l.deps & r.deps:
                return ("Q",)
            return self.brk(node, "first", "one observation, picked by its place in the input, is used")
        if a is None or b is None:
            t = a or b
            if t[0] == "E" and fn in ("lt", "gt", "le", "ge", "eq", "ne", "mod", "pow", "floordiv", "add", "sub", "and", "or", "xor"):
                p = t[1]
                o = r if a is not None else l
                if fn == "pow" and p in "ah":
                    c = o.consts()
                    ev = c and all(isinstance(x, (int, float)) and x % 2 == 0 for x in c)
                    return ("E", {"a": "m", "h": "n"}[p]) if ev else t
                if fn == "pow":
                    return t
                if p == "a":
                    return ("E", "u")
                if p == "h":
                    return self.brk(node, "half", "a comparison of unordered pairs of observations depends on their order")
            return t
        ka, kb = a[0], b[0]
        if "M" in (ka, kb):
            return ("M",)
        if ka == kb == "E":
            p = self.par(fn, a[1], b[1], l, r)
            if p is None:
                return self.brk(node, "misaligned", "observations are combined with observations in reversed order")
            if p == "x":
                return self.brk(node, "half", "differences of unordered pairs of observations depend on their order")
            return ("E", p)
        if {ka, kb} == {"E", "O"}:
            e, o = (a, b) if ka == "E" else (b, a)
            if e[1] in "cmau" or o[1] == "c":
                return ("E", "u") if e[1] in "amus" else ("M",)
            return self.brk(node, "misaligned", "observations in the caller's order are combined element by element with sorted values or positions")
        if ka == kb == "O":
            return ("O", "c" if a[1] == b[1] == "c" else "n")
        if {ka, kb} == {"E", "e"}:
            return a if ka == "E" else b
        if "Q" in (ka, kb):
            return ("Q",)
        if "z" in (ka, kb):
            return None
        if {ka, kb} == {"O", "e"}:
            return ("e",)
        return self.join(a, b)

    def bin(self, op, l, r, node):
        o = type(op)
        nm = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mult", ast.Div: "div", ast.Mod: "mod", ast.FloorDiv: "floordiv", ast.Pow: "pow", ast.MatMult: "matmul",
              ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor"}.get(o, "op")
        if nm == "matmul":
            return self.contract([l, r], node)
        if isinstance(node, ast.AugAssign) or isinstance(node, ast.BinOp):
            a, b = l.tag, r.tag
            acc = node.target if isinstance(node, ast.AugAssign) else None
            if isinstance(node, ast.AugAssign) and nm in ("add", "mult", "sub", "or", "and", "xor") and isinstance(node.target, ast.Name) and b is not None and b[0] == "e" and (a is None or a == ("n",)):
                return None
            if isinstance(node, ast.BinOp) and nm in ("add", "mult", "sub", "or", "and") and self.self_assign(node):
                if (a, b) in ((None, ("e",)), (("e",), None)):
                    return None
        return self.comb(nm, l, r, node)

    def parent(self, node, mod=None):
        mod = mod or self.I.ctxs[-1].mod
        c = self.__dict__.setdefault("_par", {})
        if mod not in c:
            m = {}
            for p in ast.walk(self.I.prog.trees[mod]):
                for k in ast.iter_child_nodes(p):
                    m[k] = p
            c[mod] = m
        return c[mod].get(node)

    def self_assign(self, node):
        p = self.parent(node)
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            return any(isinstance(x, ast.Name) and x.id == p.targets[0].id for x in (node.left, node.right))
        return False

    def compare(self, op, l, r, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            return None
        if isinstance(op, (ast.In, ast.NotIn)):
            return l.tag if l.tag is not None and l.tag[0] == "E" else None
        nm = {ast.Lt: "lt", ast.Gt: "gt", ast.LtE: "le", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne"}.get(type(op), "cmp")
        return self.comb(nm, l, r, node)

    # ---- picking elements
    ONE = (1, 1.0)

    def is_one_test(self, t, pos, fn):
        """does the test, taken with truth `pos`, say that something equals one (all coincide, a single element)?"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.is_one_test(t.operand, not pos, fn)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == pos:
                return any(self.is_one_test(x, pos, fn) for x in t.values)
            return False
        if isinstance(t, ast.Call):
            nm = t.func.attr if isinstance(t.func, ast.Attribute) else getattr(t.func, "id", "")
            if nm in ("isclose", "allclose") and pos and len(t.args) >= 2:
                return any(isinstance(x, ast.Constant) and x.value in self.ONE for x in t.args[:2]) or self.all_same(t)
            if nm == "bool" and t.args:
                return self.is_one_test(t.args[0], pos, fn)
            if nm == "all" and t.args and pos:
                return self.all_same(t.args[0])         # (all weights one says nothing)
            return False
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            o, c = t.ops[0], t.comparators[0]
            k = c.value if isinstance(c, ast.Constant) else t.left.value if isinstance(t.left, ast.Constant) else None
            if isinstance(o, (ast.Eq, ast.NotEq)) and k in self.ONE:
                return isinstance(o, ast.Eq) == pos
            if isinstance(o, (ast.Lt, ast.GtE)) and k == 2:
                return isinstance(o, ast.Lt) == pos
            if isinstance(o, (ast.LtE, ast.Gt)) and k == 1:
                return isinstance(o, ast.LtE) == pos
            if self.small(t):
                return isinstance(o, (ast.Lt, ast.LtE)) == pos
        if isinstance(t, ast.Name) and fn is not None:
            ds = [s.value for s in ast.walk(fn) if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == t.id for x in s.targets)]
            return len(ds) == 1 and self.is_one_test(ds[0], pos, None)
        return False

    def small(self, t):
        """|x - 1| < small"""
        l = t.left
        return isinstance(l, ast.Call) and (getattr(l.func, "attr", None) or getattr(l.func, "id", "")) in ("abs", "absolute", "fabs") and l.args and isinstance(l.args[0], ast.BinOp) and \
            isinstance(l.args[0].op, ast.Sub) and any(isinstance(x, ast.Constant) and x.value in self.ONE for x in (l.args[0].left, l.args[0].right))

    def all_same(self, t):
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq):
            a, b = t.left, t.comparators[0]
        elif isinstance(t, ast.Call) and len(t.args) >= 2:
            a, b = t.args[:2]
        else:
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(y, ast.Subscript) and ast.dump(y.value) == ast.dump(x):
                return True
        return False

    def data_of(self, n):
        """labels of the per-observation data an expression is about"""
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                try:
                    v = self.I.eval_quiet(x)
                except Exception:
                    continue
                if v.tag is not None and v.tag[0] == "E":
                    out |= v.deps
        return out

    def guarded(self, node, base=None):
        """is the current path guarded by a test that only one value is left to pick? (a test about weighted data says so of the data that carry weight)"""
        def one(t, pos, fn):
            if not self.is_one_test(t, pos, fn):
                return False
            return base is None or m != self.I.ctxs[-1].mod or fn is not self.enclosing(node, m) or self.data_of(t) <= base.deps
        nodes = [node] + [c.node for c in self.I.ctxs if c.node is not None]
        mods = set(c.mod for c in self.I.ctxs)
        for n in nodes:
            for m in mods:
                ch, p = n, self.parent(n, m)
                while p is not None:
                    if isinstance(p, (ast.If, ast.IfExp, ast.While)):
                        body = p.body if isinstance(p.body, list) else [p.body]
                        els = p.orelse if isinstance(p.orelse, list) else [p.orelse]
                        fn = self.enclosing(p, m)
                        if ch in body and one(p.test, True, fn) or ch in els and one(p.test, False, fn):
                            return True
                    if isinstance(p, ast.stmt) or isinstance(p, ast.FunctionDef):
                        pass
                    for blk in ("body", "orelse"):
                        seq = getattr(p, blk, None)
                        if isinstance(seq, list) and ch in seq:
                            for s in seq[:seq.index(ch)]:       # early exits
                                if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and \
                                        one(s.test, False, self.enclosing(s, m)):
                                    return True
                    if isinstance(p, (ast.FunctionDef, ast.Lambda)):
                        break
                    ch, p = p, self.parent(p, m)
        return False

    def enclosing(self, n, m):
        while n is not None and not isinstance(n, ast.FunctionDef):
            n = self.parent(n, m)
        return n

    def constval(self, n):
        if n is None:
            return None
        if isinstance(n, ast.Constant):
            return n.value
        try:
            ok, k = self.I.eval_quiet(n).const()
        except Exception:
            return None
        return k if ok else None

    def loop_var(self, name, node):
        p = self.parent(node)
        while p is not None:
            if isinstance(p, ast.For) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(p.target)):
                return True
            if isinstance(p, ast.For) and any(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == name and
                                              isinstance(x.value, ast.Name) and x.value.id in {y.id for y in ast.walk(p.target) if isinstance(y, ast.Name)} for b in p.body for x in ast.walk(b)):
                return True
            if isinstance(p, ast.While):    # a counter, or a copy of one
                st = [x for b in p.body for x in ast.walk(b)]
                cnt = {x.target.id for x in st if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)} | \
                      {x.targets[0].id for x in st if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.BinOp) and
                       any(isinstance(y, ast.Name) and y.id == x.targets[0].id for y in (x.value.left, x.value.right))}
                cnt |= {x.targets[0].id for x in st if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Name) and x.value.id in cnt}
                if name in cnt:
                    return True
            if isinstance(p, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                if any(isinstance(x, ast.Name) and x.id == name for g in p.generators for x in ast.walk(g.target)):
                    return True
            p = self.parent(p)
        return False

    def index(self, base, idx, kind, node):
        i = self.I.flat(idx)
        t, it = base.tag, i.tag
        if t is None or t == ("n",):
            if t is None and it is not None and it[0] == "E":
                return ("E", "n")
            return ("n",) if t is not None and self.constval(getattr(node, "slice", None)) == 0 else None
        k = t[0]
        sl = getattr(node, "slice", None)
        if k == "W":
            return ("P",)
        if k == "U":
            c = self.constval(sl)
            return self.u_item(t, c) if isinstance(c, int) and not isinstance(c, bool) else ("O", "n")
        parts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        newax = any(isinstance(p, ast.Constant) and p.value is None or isinstance(p, ast.Attribute) and p.attr == "newaxis" for p in parts)
        plain = all(isinstance(p, ast.Slice) and p.lower is None and p.upper is None and p.step is None or isinstance(p, ast.Constant) and p.value in (None, Ellipsis) or
                    isinstance(p, ast.Attribute) and p.attr == "newaxis" for p in parts)
        if k == "O":
            if plain and newax:
                first_new = isinstance(parts[0], (ast.Constant, ast.Attribute))
                return ("O", "n" if first_new else "c")
            if it is not None and it[0] == "E":
                return ("E", "n") if it[1] == "n" else ("E", "u")
            if it is not None and it[0] in ("e",):
                return ("e",)
            if it is not None and it[0] in ("x", "R", "P"):
                return self.brk(node, "misaligned", "sorted values are picked by the place of an observation in the input")
            return ("O", "n") if kind != "int" else None
        if k in ("R", "P"):
            if it is not None:
                return t
            if plain:
                return t
            if isinstance(parts[0], ast.Slice):
                if k == "P" and not (self.guarded(node) or self.constval(parts[0].step) == -1 and parts[0].lower is None and parts[0].upper is None):
                    return self.brk(node, "part", "only some of the matching observations, by their place in the input, are kept")
                return ("P",)      # the positions of some sorted values
            if self.guarded(node) or k == "R":
                return ("p",)
            return self.brk(node, "first", "the place of the first matching observation is picked")
        if k != "E":
            return t
        if plain:
            if newax:
                first_new = isinstance(parts[0], (ast.Constant, ast.Attribute)) and not (isinstance(parts[0], ast.Constant) and parts[0].value is Ellipsis)
                return ("E", t[1] if first_new else "c" if t[1] == "n" else t[1])
            return t
        if it is not None and it != ("n",):
            j = it[0]
            if j == "R":
                return ("O", "n")
            if j == "t":
                if t[1] == "u":
                    return self.brk(node, "half", "unordered pairs are taken from a matrix that is not symmetric")
                return ("E", "h" if t[1] == "a" else "n")
            if j == "E":
                return t
            if j == "P":
                return ("E", "n")
            if j == "p":
                return None if t[1] in "nch" else ("E", "n")
            if j in ("x", "e"):
                if isinstance(parts[0], ast.BinOp) and j == "x":
                    return self.brk(node, "neighbour", "an observation is picked by its place relative to another")
                return ("E", "n") if t[1] in "amus" else ("e",)
            if j == "z":
                return None
            if j == "O":
                return self.brk(node, "misaligned", "positions in sorted data are used to pick observations in the caller's order")
            if j == "f":
                return self.brk(node, "first", "one observation, picked by its place in the input, is used")
            return t
        p = parts[0]
        if isinstance(p, ast.Slice):
            if len(parts) > 1 and p.lower is None and p.upper is None and p.step is None:
                return ("E", "n")           # a column
            st = self.constval(p.step) if p.step is not None else None
            if st == -1 and p.lower is None and p.upper is None:
                return ("E", "v") if t[1] in "nv" else t
            lo, hi = self.constval(p.lower), self.constval(p.upper)
            half = any(isinstance(x, ast.BinOp) and isinstance(x.op, ast.FloorDiv) for b in (p.lower, p.upper) if b is not None for x in ast.walk(b))
            if st not in (None, 1) or lo not in (None, 0) or hi is not None or half:
                return self.brk(node, "part", "a fixed part of the observations, by their place in the input, is cut out")
            return t
        lv = any(isinstance(x, ast.Name) and self.loop_var(x.id, node) for x in ast.walk(p))
        c = None if lv and isinstance(p, (ast.Name, ast.BinOp)) else self.constval(p)
        if isinstance(c, int) and not isinstance(c, bool):
            if t[1] == "s":
                return ("E", "n")
            if t[1] in "amus":
                return ("E", "n") if self.guarded(node, base) else self.brk(node, "first", "one observation, picked by its place in the input, is used")
            return None if self.guarded(node, base) or self.single(node.value) else ("f",)
        if isinstance(p, ast.Constant) and isinstance(p.value, str) or isinstance(c, str):
            return t
        if isinstance(p, ast.Name) and self.loop_var(p.id, node):
            return ("E", "n") if t[1] in "amus" else ("e",)
        if kind == "int" or isinstance(p, ast.BinOp) and kind != "fancy":
            if isinstance(p, ast.BinOp) and isinstance(p.op, (ast.Add, ast.Sub)) and any(isinstance(x, ast.Name) and self.loop_var(x.id, node) for x in ast.walk(p)):
                return self.brk(node, "neighbour", "an observation is picked by its place relative to another")
            if isinstance(p, ast.Name) or isinstance(p, ast.BinOp):
                return self.brk(node, "place", "an observation is picked by its place in the input")
        return t

    def single(self, n):
        """array made from a list of one value"""
        return any(isinstance(x, ast.Call) and x.args and isinstance(x.args[0], ast.List) and len(x.args[0].elts) == 1 for x in ast.walk(n))

    def on_lookup(self, base, idx, v, e):
        """an element of a list built in a loop over observations"""
        if v.tag == ("n",) and any(isinstance(a, ExtMeth) for a in base.atoms) and self.constval(getattr(e, "slice", None)) != 0:
            return v.w(tag=None)        # number of columns
        if v.tag == ("e",) and any(isinstance(a, Ref) for a in base.atoms):
            k = self.constval(getattr(e, "slice", None))
            if isinstance(k, int) and not isinstance(k, bool) and not self.guarded(e):
                return v.w(tag=("f",))
        return v

    def store_tag(self, base, idx, v):
        i = self.I.flat(idx)
        if i.tag is not None and i.tag[0] in ("x",):
            return ("E", "n")
        if v.tag == ("e",):
            return ("E", "n")
        return v.tag if v.tag != ("n",) else None

    def attr(self, recv, name, node):
        t = recv.tag
        if name in ("size", "shape"):
            return ("n",) if t is not None and t[0] == "E" else None
        if name in FREE or name in ("nbytes", "itemsize"):
            return None
        if name == "T" and t is not None and t[0] == "E":
            return ("E", {"c": "n", "n": "n"}.get(t[1], t[1]))
        return t

    def ext_value(self, atom, base):
        return base.tag

    # ---- loops: what is left of one observation after the loop was the last one
    def loop_begin(self, s, it):
        return it.tag

    def loop_end(self, s, it, tok):
        names = {x.id for n in s.body for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
                {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        fo = self.I.st.get(self.I.frame())
        for n in sorted(names):
            v = fo.attrs.get(n)
            if v is not None and v.tag is not None and v.tag[0] in ("e", "x") and not v.refs():
                if n in self.minpat(s):
                    self.I.st.mut(self.I.frame()).attrs[n] = v.w(tag=None)
                    continue
                b = self.brk(s, "last", f"{n} keeps what the last observation of a loop left in it")
                self.I.st.mut(self.I.frame()).attrs[n] = v.w(tag=None, deps=v.deps | {b.label})

    def minpat(self, s):
        """names updated as running extremes: `if x < best: best = x`"""
        out = set()
        for n in ast.walk(s):
            if isinstance(n, ast.If):
                tn = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
                for b in n.body:
                    for x in ast.walk(b):
                        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id in tn:
                            out |= {y.targets[0].id for y in ast.walk(n) if isinstance(y, ast.Assign) and len(y.targets) == 1 and isinstance(y.targets[0], ast.Name)}
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                f = n.value.func
                if (getattr(f, "attr", None) or getattr(f, "id", "")) in ("min", "max", "minimum", "maximum", "fmin", "fmax", "hypot", "logaddexp", "add", "multiply"):
                    if any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in n.value.args):
                        out.add(n.targets[0].id)
        return out

    # ---- external calls
    def contract(self, vs, node):
        ts = [v.tag for v in vs if v.tag is not None and v.tag != ("n",)]
        if not ts:
            return None
        ks = {t[0] for t in ts}
        if "M" in ks:
            return None
        if "E" in ks and "O" in ks:
            return self.brk(node, "misaligned", "observations in the caller's order are multiplied with sorted values or positions")
        if ks & {"f"}:
            return self.brk(node, "first", "one observation, picked by its place in the input, is used")
        if ks & {"x", "p", "P", "R"}:
            return self.brk(node, "position", "the place of an observation in the input is used as a value")
        es = [t for t in ts if t[0] == "E"]
        if len(es) >= 2:
            ps = [t[1] for t in es]
            if "v" in ps and set(ps) != {"v"}:
                return self.brk(node, "misaligned", "observations are combined with observations in reversed order")
            if "h" in ps and not ps.count("h") == 2:
                return self.brk(node, "half", "differences of unordered pairs of observations depend on their order")
            self.reds.add(self.I.loc(node))
            return ("E", "n") if set(ps) & set("amus") else None
        if es:
            return ("E", "n")
        return None

    def callback_arg(self, name, i, others, fnode):
        if name.startswith(("scipy.optimize", "scipy.integrate")):
            return None
        if name.split(".")[-1] in ("vectorize", "map", "apply"):
            for o in others:
                if o.tag is not None and o.tag[0] == "E":
                    return ("e",)
        return None

    def axis(self, args, kw, pos=1):
        a = kw.get("axis")
        if a is None and len(args) > pos:
            a = args[pos]
        if a is None:
            return False
        return a.consts() != [None]

    def ext(self, name, cat, args, kw, node):
        last = name.split(".")[-1]
        args = [v.w(tag=("E", "n")) if v.tag == ("e",) and v.refs() else v for v in args]     # a list built in a loop over observations
        vs = list(args) + list(kw.values())
        tags = [v.tag for v in vs]
        rnd = name.startswith(("rng.", "numpy.random", "random.")) or name.startswith("?.") and last in ("permutation", "integers", "randint", "shuffle", "permuted")
        if rnd:
            return ("z",) if last in ("integers", "randint", "choice", "permutation") and not any(t is not None and t[0] in "EOe" for t in tags) else None
        if last in ("arange",):
            return ("O", "n") if not (args and args[0].consts() and len(args) < 3 and all(a.consts() for a in args)) else None
        if last in ("triu_indices", "tril_indices", "triu_indices_from", "tril_indices_from", "combinations"):
            return ("t",) if last != "combinations" else self.main_pairs(args, node)
        if last in ("range",):
            t = args[-1].tag if len(args) != 3 else args[1].tag
            return ("x",) if t is not None and t[0] in ("n", "E", "x") else None
        if last in ("eye", "diag_indices"):
            return None
        if not any(t is not None for t in tags):
            return None
        main = args[0].tag if args else tags[0]
        if last in ("len", "size", "shape", "count"):
            return ("n",) if main is not None and main[0] == "E" else None
        if last in FREE or name.startswith(("matplotlib", "warnings", "logging")):
            return None
        if last in ("reindex",):
            return main
        if all(t is None or t == ("n",) for t in tags):
            return None
        if name.startswith(("scipy.optimize.", "scipy.integrate.")):
            return None
        kinds = {t[0] for t in tags if t is not None}
        if "f" in kinds and last not in ("float", "int", "asarray", "array", "float64"):
            if last in ("isclose", "equal", "allclose", "array_equal", "not_equal") and "E" in kinds:
                return ("Q",) if last in ("isclose", "equal") else None
            return self.brk(node, last, "one observation, picked by its place in the input, is used")
        if main is not None and main[0] == "Q":
            if last in ("all", "bool"):
                return None
            if last in ("logical_not", "logical_and", "logical_or", "asarray", "array"):
                return main
            return self.brk(node, "first", "one observation, picked by its place in the input, is compared with the others")
        if last in ("argmin", "argmax", "nanargmin", "nanargmax"):
            if main is not None and main[0] == "E":
                return ("E", "n") if main[1] in "amus" or self.axis(args, kw) else ("p",)
            return None
        if last in ("argsort", "lexsort", "argpartition"):
            if main is None:
                main = self.mix(args, node)
            if isinstance(main, tuple) and main[0] == "R":
                return self.brk(node, "ranks", "ranks taken by sorting positions break ties by the order of the input")
            if isinstance(main, tuple) and main[0] == "E":
                self.sorts.add(self.I.loc(node))
                return ("R",)
            return main if not isinstance(main, tuple) or main[0] == "O" else ("R",)
        if last == "rankdata":
            c = kw["method"].consts() if "method" in kw else args[1].consts() if len(args) > 1 else ["average"]
            if main is not None and main[0] == "E" and (not c or "ordinal" in c):
                return self.brk(node, "ranks", "ordinal ranks break ties by the order of the input")
            return ("E", "n") if main is not None and main[0] in "Ee" else main
        if last == "rank" and main is not None and main[0] == "E":
            c = kw["method"].consts() if "method" in kw else ["average"]
            if not c or "first" in c:
                return self.brk(node, "ranks", "ranks break ties by the order of the input")
            return main
        if last in ("where", "nonzero", "flatnonzero", "argwhere") and len(args) == 1:
            if main is not None and main[0] in ("E", "e"):
                if main[0] == "e":
                    return main
                return ("P",) if last in ("flatnonzero", "argwhere") else ("W",)
            return ("O", "n") if main is not None and main[0] == "O" else main
        if last == "unique":
            if main is not None and main[0] in ("E", "e"):
                self.sorts.add(self.I.loc(node))
            on = lambda k: k in kw and kw[k].consts() != [False]
            fl = ("i" if on("return_index") else "") + ("v" if on("return_inverse") else "") + ("c" if on("return_counts") else "")
            return ("U", fl) if fl else ("O", "n")
        if last in SORT:
            m = self.mix(vs, node)
            if isinstance(m, tuple) and m[0] in "Ee":
                self.sorts.add(self.I.loc(node))
                if m[0] == "E" and m[1] in "amus" and last == "sort":
                    return ("E", "n")
            return m if isinstance(m, Brk) else ("O", "n")
        if last in ("groupby", "pivot_table", "crosstab", "agg", "aggregate"):
            return None
        if last in ("searchsorted", "digitize"):
            a, v = (args[0], args[1]) if last == "searchsorted" else (args[1], args[0])
            if a.tag is not None and a.tag[0] == "E":
                return self.brk(node, last, "bin edges are taken in the caller's order")
            return v.tag
        if last == "interp" and len(args) >= 3:
            if any(a.tag is not None and a.tag[0] in ("E", "e") for a in args[1:3]):
                return self.brk(node, last, "interpolation over observations in the caller's order")
            return args[0].tag
        if last in ("delete",):
            i = args[1] if len(args) > 1 else None
            lv = isinstance(node, ast.Call) and len(node.args) > 1 and any(isinstance(x, ast.Name) and self.loop_var(x.id, node) for x in ast.walk(node.args[1]))
            if main is not None and main[0] == "E" and i is not None and i.tag is None and i.consts() and not lv:
                return self.brk(node, "part", "an observation is left out by its place in the input")
            return main
        if last in ("take", "compress") and len(args) >= 2:
            b, i = (args[0], args[1]) if last == "take" else (args[1], args[0])
            return self.index(b, i, "fancy", ast.Subscript(value=ast.Constant(0), slice=ast.Name("?", ast.Load()), ctx=ast.Load(), lineno=getattr(node, "lineno", 0)))
        if last in ("outer",):
            m = self.mix(args, node, outer=True)
            if not isinstance(m, tuple) or m[0] != "E" or len(args) < 2:
                return m
            same = args[0].deps == args[1].deps and args[0].tag == args[1].tag
            return ("E", ("a" if ".subtract." in name else "m" if name.endswith(("numpy.outer", ".multiply.outer", ".add.outer")) else "u") if same else "u")
        if last in ("triu", "tril"):
            if main is not None and main[0] == "E":
                if main[1] == "u":
                    return self.brk(node, "half", "unordered pairs are taken from a matrix that is not symmetric")
                return ("E", "h" if main[1] == "a" else "n")
            return main
        if last in ("pdist", "squareform", "fill_diagonal"):
            return ("E", "n") if last == "pdist" else ("E", "m") if main is not None else None
        if last in ("flip", "flipud", "reversed", "fliplr"):
            return ("E", "v") if main == ("E", "n") else main
        if last == "reshape" and main is not None and main[0] == "E":
            col = len(args) > 1 and isinstance(node, ast.Call) and ast.unparse(node).replace(" ", "").endswith(("(-1,1)", "((-1,1))", ",1))"))
            return ("E", "c") if col and main[1] == "n" else main
        if last == "expand_dims" and main == ("E", "n"):
            return ("E", "c")
        if last == "meshgrid":
            return None
        if last in CONTRACT:
            return self.contract(args, node)
        if last in ORDERED or cat == "cum" and last not in ("maximum",):
            m = self.mix(vs, node)
            if isinstance(m, tuple) and m[0] in ("E", "e"):
                if last in ("split", "array_split"):
                    i = args[1] if len(args) > 1 else None
                    if i is not None and (i.tag is not None or not i.consts()):
                        return ("E", "n")
                return self.brk(node, last, f"{last} over observations in the caller's order")
            return m
        if last in RED or last == "reduce" or (last in ("min", "max", "sum") and True):
            two = name.startswith("builtins.") and last in ("min", "max") and len(args) >= 2
            if not two:
                m = self.mix(args[:1] + [kw[k] for k in ("weights", "w", "x") if k in kw] + (args[1:] if last in ("pearsonr", "spearmanr", "average", "cov", "corrcoef") else []), node)
                if not isinstance(m, tuple):
                    return m
                if m[0] == "E":
                    self.reds.add(self.I.loc(node))
                    if m[1] == "h":
                        return self.brk(node, "half", "a total over unordered pairs of observations depends on their order")
                    return ("E", "n") if m[1] in "amus" and self.axis(args, kw) else None
                if m[0] in ("x", "p", "P", "R"):
                    if m[0] in ("x", "R") or last in ("any", "all", "count_nonzero"):
                        return None     # every position, in some order
                    return self.brk(node, "position", "the place of an observation in the input is used as a value")
                return ("O", "n") if m == ("O", "n") and self.axis(args, kw) else None
        if last in ("iter", "next"):
            return ("f",) if last == "next" and main is not None and main[0] in ("E", "e") and not self.guarded(node) else main
        if name in ("builtins.list", "builtins.tuple", "builtins.float", "builtins.int") or last in ("item",):
            return main if last in ("list", "tuple") or main is None or main[0] != "E" else None
        if last in ("repeat", "tile", "concatenate", "hstack", "append", "array", "asarray", "vstack", "stack", "column_stack", "r_", "c_", "concat", "Series", "DataFrame", "fromiter"):
            m = None
            lit = node.args[0] if isinstance(node, ast.Call) and node.args else None
            stack = last in ("array", "asarray", "vstack", "stack", "column_stack") and isinstance(lit, (ast.List, ast.Tuple)) and len(lit.elts) > 1
            for v in vs:
                t = v.tag
                if t is None or t == ("n",):
                    continue
                t = ("E", "n") if t[0] == "e" else t
                if last == "repeat" and m is not None and {m[0], t[0]} == {"E", "O"}:
                    return self.brk(node, "misaligned", "observations in the caller's order are repeated by sorted counts")
                m = t if m is None else ("E", "n") if "E" in (m[0], t[0]) else self.join(m, t)
            return ("E", "s") if stack and m == ("E", "n") else m
        if last in ("isclose", "equal", "not_equal", "less", "greater", "less_equal", "greater_equal") and len(args) >= 2:
            nm = {"isclose": "eq", "equal": "eq", "not_equal": "ne"}.get(last, "lt")
            if nm == "eq" and args[0].tag is not None and args[0].tag[0] == "E" and args[0].tag[1] == "a" and args[1].tag is None:
                return ("E", "m")
            return self.comb(nm, args[0], args[1], node)
        if last in ("add", "subtract", "multiply", "divide", "true_divide", "mod", "remainder", "power") and len(args) >= 2:
            nm = {"subtract": "sub", "multiply": "mult", "divide": "div", "true_divide": "div", "remainder": "mod", "power": "pow"}.get(last, last)
            return self.comb(nm, args[0], args[1], node)
        if name.startswith(("numpy.linalg.", "scipy.linalg.")):
            return None
        if main is not None and main[0] == "E" and main[1] in "ah":
            if last in ("abs", "absolute", "fabs", "cos", "cosh", "square"):
                return ("E", "m" if main[1] == "a" else "n")
            if last in ("sin", "tan", "arcsin", "arctan", "sinh", "tanh", "sign", "cbrt", "float", "round", "around", "rint", "arcsinh") or last in SAMEPAR:
                return main
            if last in ("arctan2",):
                return main
            return ("E", "u") if main[1] == "a" else self.brk(node, "half", "differences of unordered pairs of observations depend on their order")
        return self.mix(vs, node)

    def main_pairs(self, args, node):
        t = args[0].tag if args else None
        if t is not None and t[0] in ("E", "x", "n", "e"):
            return ("E", "n")
        return t

    def mix(self, vs, node, outer=False):
        """element-wise combination of several values"""
        out = None
        for v in vs:
            if v.tag is None or v.tag == ("n",):
                continue
            if out is None:
                out = v
                continue
            if outer:
                out = out.w(tag=self.join(out.tag, v.tag))
                continue
            t = self.comb("op", out, v, node)
            if isinstance(t, Brk):
                return t
            out = out.w(tag=t) if t is not None else out.w(tag=None)
            if t is None:
                out = None
        return out.tag if out is not None else None


SEQUENCE = ("hypothesis.change_point_test",)       # its data are a sequence in time


def scens():
    out = []
    for s in fn_scens() + circ_sample_scens():
        e = s.info["entry"]
        if e.startswith(("utils.", "visualization.")) or e in SEQUENCE:
            continue
        out.append(s)
    out += [s for s in class_scens() if s.info["entry"].startswith(("base.", "regression.")) and s.info.get("method") not in ("plot", "__repr__", "__str__", "summary")]
    out += [s for s in dist_scens(frozen=False) if s.info["method"] == "fit"]
    return out


def judge(d, s, o):
    seen = set()
    if not o.dead:
        for p, v in reachable(o.state, o.value):
            last = p.replace(":", ".").split(".")[-1].split("[")[0]
            for x in v.deps | v.cdeps:
                if x.startswith("order:"):
                    seen.add((x, p))
            t = v.tag
            if t is not None and (t[0] in ("f", "p") or t[0] in ("e", "x") and not p.endswith("[]")) and not v.refs():
                d.report("one-observation", None, f"{s.info.get('entry') or s.label}:{last or 'value'}",
                         f"{s.label} returns {p or 'a value'} that is picked by its place in the input")
    for r in o.raises:
        for x in r[4]:
            if x.startswith("order:"):
                seen.add((x, "raise " + r[1]))
    for x, p in sorted(seen):
        loc, fn, msg, path = d.labels.get(x, ("?", "?", "", ""))
        d.report("depends-on-order", None, x[6:], f"{msg}; it decides {p or 'the result'} of {s.label}")
        f = d.findings[("depends-on-order", x[6:])]
        f["loc"], f["func"], f["path"] = loc, fn, path


def check(prog, rep, tier):
    d = Order()
    I = Interp(prog, d, max_steps=300_000_000)
    I.load_all()
    st = run_all(I, scens(), each=lambda s, o: judge(d, s, o))
    rep.take(d)
    rep.cov.update(st)
    rep.cov["sort_sites"] = sorted(d.sorts)
    rep.cov["symmetric_reductions"] = sorted(d.reds)
    rep.floor("scenarios", st["scenarios"], 70)
    rep.floor("sort_sites", len(d.sorts), 8)
    rep.floor("reduction_sites", len(d.reds), 40)


SELF = """
import numpy as np
from scipy.stats import rankdata
def bad_first(alpha):
    return alpha[0]
def bad_rotate(alpha):
    return np.mean(np.cos(alpha - alpha[0]))
def bad_diff(alpha):
    return np.max(np.diff(alpha))
def bad_misaligned(alpha, w):
    a = np.sort(alpha)
    return np.sum(np.cos(a) * w)
def bad_closing(alpha):
    a = np.sort(alpha)
    return np.max(np.diff(np.append(a, alpha[0])))
def bad_last(alpha):
    for a in alpha:
        z = np.cos(a)
    return z
def bad_rank(alpha):
    r = np.argsort(np.argsort(alpha))
    return np.sum(np.cos(r / len(alpha)))
def bad_ordinal(alpha):
    return np.sum(np.cos(rankdata(alpha, method="ordinal")))
def bad_weight(alpha):
    return np.sum(np.arange(len(alpha)) * np.cos(alpha))
def bad_half(alpha):
    n = len(alpha)
    return np.mean(np.cos(alpha[: n // 2]))
def bad_drop(alpha):
    return np.mean(np.cos(alpha[1:]))
def bad_pairs(alpha):
    d = np.sin(np.subtract.outer(alpha, alpha)[np.triu_indices(len(alpha), k=1)])
    return np.sum(d)
def bad_cum(alpha, w):
    i = np.argsort(alpha)
    c = np.cumsum(w)
    return np.interp(0.5, c, np.sort(alpha))
def bad_median(alpha):
    n = len(alpha)
    return alpha[n // 2]
def bad_neigh(alpha):
    s = 0.0
    for i in range(1, len(alpha)):
        s += np.cos(alpha[i] - alpha[i - 1])
    return s
def bad_pos(alpha):
    return np.argmax(np.cos(alpha))
def bad_flag(alpha, w):
    if np.sum(w == w[0]) > 1:
        return 1.0
    return 0.0
def bad_weightless(alpha, w):
    if np.isclose(np.abs(np.sum(w * np.exp(1j * alpha))) / np.sum(w), 1.0):
        return alpha[0]
    return np.median(alpha)
def ok_weighted(alpha, w):
    if np.isclose(np.abs(np.sum(w * np.exp(1j * alpha))) / np.sum(w), 1.0):
        return alpha[w > 0][0]
    return np.median(alpha)
def bad_tied(alpha):
    d = np.abs(alpha[:, None] - alpha).mean(1)
    idx = np.where(d == d.min())[0]
    if len(idx) > 2:
        idx = idx[:2]
    return np.mean(alpha[idx])
def ok_sorted(alpha, w):
    i = np.argsort(alpha)
    a, v = alpha[i], w[i]
    return a[np.searchsorted(np.cumsum(v), np.sum(w) / 2)]
def ok_gap(alpha):
    a = np.sort(alpha)
    return np.max(np.diff(np.append(a, a[0] + 2 * np.pi)))
def ok_pairs(alpha, b):
    i = np.triu_indices(len(alpha), k=1)
    da = np.sin(np.subtract.outer(alpha, alpha)[i])
    db = np.sin(np.subtract.outer(b, b)[i])
    return np.sum(da * db) / np.sqrt(np.sum(da**2) * np.sum(db**2))
def ok_loop(alpha):
    s = 0.0
    for a in alpha:
        s += np.cos(a)
    return s
def ok_jack(alpha):
    n = len(alpha)
    out = np.empty(n)
    for i in range(n):
        out[i] = np.mean(np.cos(np.delete(alpha, i)))
    return np.mean(out)
def ok_while(alpha):
    n = len(alpha)
    out = np.empty(n)
    i = 0
    while i < n:
        out[i] = np.mean(np.cos(np.delete(alpha, i) - alpha[i]))
        i += 1
    return np.mean(out)
def bad_while(alpha):
    s, i = 0.0, 1
    while i < len(alpha):
        s += np.cos(alpha[i] - alpha[i - 1])
        i += 1
    return s
def ok_const(alpha, w):
    if not np.all(w == w[0]):
        return np.sum(w * alpha)
    return np.sum(alpha)
def ok_single(alpha):
    if np.isclose(np.abs(np.mean(np.exp(1j * alpha))), 1.0):
        return alpha[0]
    return np.median(alpha)
def ok_cand(alpha):
    d = np.abs(alpha[:, None] - alpha).mean(1)
    idx = np.where(d == d.min())[0]
    if len(idx) == 1:
        return alpha[idx][0]
    return np.mean(alpha[idx])
def ok_best(alpha):
    best = 10.0
    for a in alpha:
        if np.cos(a) < best:
            best = np.cos(a)
    return best
def ok_argmin(alpha):
    d = np.sum(np.abs(np.sin(alpha[:, None] - alpha[None, :])), axis=0)
    return alpha[np.argmin(d)]
def ok_per(alpha):
    return np.mod(alpha, 2 * np.pi)
def ok_rank(alpha):
    r = rankdata(alpha)
    return np.sum(np.cos(r / len(alpha)))
def bad_near(alpha, b):
    c = np.mod(alpha - 1.0, 2 * np.pi)
    e = np.min(np.array([c, 2 * np.pi - c]), axis=0)
    return np.sum(e * np.sort(b))
def ok_near(alpha, b):
    c = np.mod(alpha - 1.0, 2 * np.pi)
    e = np.min(np.array([c, 2 * np.pi - c]), axis=0)
    return np.sum(e * b)
def ok_two(alpha, b):
    x = np.hstack([alpha, b])
    r = rankdata(x)
    return np.sum(r[: len(alpha)])
"""


def selftest(rep):
    d = Order()
    names = [l[4:].split("(")[0] for l in SELF.splitlines() if l.startswith(("def bad", "def ok"))]
    expect(mini(SELF, d, lambda s, o: judge(d, s, o), names), names)
    rep.cov["selftest_functions"] = len(names)
