"""Interval domain: for every numeric value a range, symbolic element counts and a symbolic upper bound (NaN is never excluded)."""
import ast, math
from typing import NamedTuple, Optional
from .domain import Domain
from .values import *

INF, PI = math.inf, math.pi
TAU = 2 * math.pi
CUTS = [-INF, -TAU, -PI, -1.0, 0.0, 1.0, PI, TAU, INF]


class Iv(NamedTuple):
    lo: float = -INF
    hi: float = INF
    kind: str = ""          # "c" complex, "lg" logarithm of factorials
    eq: Optional[tuple] = None      # (value version, offset): the value is exactly that
    ub: Optional[tuple] = None      # upper bound of the same form
    shape: Optional[tuple] = None   # upper bounds of the element counts along the leading axes
    org: Optional[tuple] = None     # an elementwise condition on a value: (version, lo, hi where true, lo, hi where false)


TOP, BOT = Iv(), Iv(INF, -INF)
BOOL, PROB, NONNEG, ANGLE = Iv(0.0, 1.0), Iv(0.0, 1.0), Iv(0.0, INF), Iv(0.0, TAU)
CPLX = Iv(kind="c")


def snap(lo, hi):
    return max(c for c in CUTS if c <= lo) if lo > -INF else -INF, min(c for c in CUTS if c >= hi) if hi < INF else INF


def mul(a, b):
    return 0.0 if a == 0 or b == 0 else a * b


def tidy(x):
    """bounds that are a rounding error away from a landmark are that landmark"""
    for c in CUTS:
        if c not in (INF, -INF) and x != c and abs(x - c) < 1e-12:
            return c
    return x


SAME = set("""asarray asanyarray ascontiguousarray atleast_1d atleast_2d atleast_3d ravel reshape squeeze transpose T swapaxes expand_dims broadcast_to broadcast_arrays view flat
diagonal moveaxis asfortranarray split array_split hsplit vsplit values array copy flatten astype tolist to_numpy repeat tile concatenate stack vstack hstack column_stack row_stack dstack append
insert delete take choose compress extract resize flip fliplr flipud rot90 roll pad meshgrid item c_ r_ ix_ sort sorted unique float float64 choice permutation permuted shuffle
reversed iter next list tuple set frozenset max min amax amin nanmax nanmin mean nanmean median nanmedian average quantile percentile nanquantile nanpercentile mode midrange
positive real_if_close Series DataFrame nditer full full_like deepcopy conj groupby agg first last iloc loc head tail fillna_ dropna cycle partition msort trim_mean pop get values item_ setdefault
float32 asfarray float_ enumerate zip_""".split())
KEEPSHAPE = set("asarray asanyarray array copy astype sort sorted roll flip abs fabs exp log sqrt square isclose isnan float64 nan_to_num round".split())
POSRED = set("sum nansum cumsum nancumsum trapz trapezoid simpson prod nanprod cumprod dot vdot inner matmul".split())
NN = set("len size count_nonzero std var nanstd nanvar hypot norm ptp nunique count bincount gammaincc i0 i0e iv ive pdf entropy nnz shape ndim abs absolute fabs argmin argmax argsort rankdata searchsorted digitize "
         "lexsort factorial comb binom gamma cosh expit range arange_ integers randint geometric poisson exponential chisquare histogram pairwise_distances where_ nonzero flatnonzero perf_counter time".split())
PR = set("cdf sf expit pvalue random logical_and logical_or logical_not logical_xor equal not_equal greater less greater_equal less_equal isnan isfinite isclose allclose any all isinf isin in1d "
         "array_equal bool isinstance hasattr callable betainc gammainc gammaincc ndtr random_sample rand pval".split())


class Ival(Domain):
    fold_numeric = True
    numeric_inputs = True

    # ---- view
    def iv(self, v):
        if v.tag is not None:
            return v.tag
        lo, hi = INF, -INF
        for a in v.atoms:
            if isinstance(a, C):
                x = a.v
                if x is None or isinstance(x, (str, bytes)):
                    continue
                if isinstance(x, complex):
                    return CPLX
                if isinstance(x, range):
                    lo, hi = min(lo, min(x, default=INF)), max(hi, max(x, default=-INF))
                    continue
                if isinstance(x, (list, tuple)) and all(isinstance(y, (int, float)) for y in x):
                    x = [y for y in x if y == y]
                    lo, hi = min([lo] + x), max([hi] + x)
                    continue
                if not isinstance(x, (int, float)):
                    return TOP
                if x != x:
                    continue
                lo, hi = min(lo, x), max(hi, x)
            elif isinstance(a, T) and a.t == "bool":
                lo, hi = min(lo, 0.0), max(hi, 1.0)
            elif isinstance(a, U):
                continue
            elif isinstance(a, Tup):
                for y in a.items:
                    t = self.iv(y)
                    lo, hi = min(lo, t.lo), max(hi, t.hi)
            else:
                return TOP
        return Iv(lo, hi)

    def eq(self, v):
        if v.tag is not None and v.tag.eq is not None:
            return v.tag.eq
        c = v.consts()
        if c and len(c) == 1 and isinstance(c[0], (int, float)) and not isinstance(c[0], bool):
            return (0, float(c[0]))
        return (v.sn, 0.0)

    def ub(self, v):
        return v.tag.ub if v.tag is not None and v.tag.ub is not None else self.eq(v)

    # ---- lattice
    def jj(self, a, b, exact=False):
        if a is None or b is None:
            return None
        if a.kind != b.kind:
            return TOP if "c" not in (a.kind, b.kind) else CPLX
        lo, hi = (min(a.lo, b.lo), max(a.hi, b.hi))
        if not exact and (lo, hi) != (a.lo, a.hi) and (lo, hi) != (b.lo, b.hi) and a[:2] != BOT[:2] and b[:2] != BOT[:2]:
            pass
        return Iv(lo, hi, a.kind, a.eq if a.eq == b.eq else None, self.jub(a, b), self.jshape(a.shape, b.shape))

    def jub(self, a, b):
        x, y = a.ub or a.eq, b.ub or b.eq
        if x is None or y is None or x[0] != y[0]:
            return None
        return (x[0], max(x[1], y[1]))

    def jshape(self, s, t):
        if s is None or t is None:
            return s if t is None and s else t if s is None else None
        if len(s) != len(t):
            return None
        return tuple(x if x == y else None for x, y in zip(s, t))

    def join(self, a, b):
        return self.jj(a, b)

    def join_v(self, a, b):
        if a.tag is None and b.tag is None:
            return None
        x, y = self.iv(a), self.iv(b)
        t = self.jj(x, y)
        # constants stay exact; anything growing is widened along the landmarks
        if (t.lo, t.hi) not in ((x.lo, x.hi), (y.lo, y.hi)) and x.lo <= x.hi and y.lo <= y.hi:
            pass
        return t

    def widen_tag(self, old, new):
        o, n = self.iv(old), self.iv(new)
        if o.lo > o.hi:
            return n
        lo = n.lo if n.lo >= o.lo else max(c for c in CUTS if c <= n.lo) if n.lo in CUTS else (0.0 if n.lo >= 0 else -INF)
        hi = n.hi if n.hi <= o.hi else n.hi if n.hi in (1.0, PI, TAU) else INF
        return n._replace(lo=lo, hi=hi, ub=n.ub if n.ub == o.ub else None, eq=n.eq if n.eq == o.eq else None)

    def flat_tag(self, v, xs):
        base = v.tag
        out = None
        for x in xs:
            t = self.iv(x)
            out = t if out is None else self.jj(out, t)
        rest = [a for a in v.atoms if not isinstance(a, (Tup, Ref))]
        if rest and out is not None:
            out = self.jj(out, self.iv(V(rest)))
        if out is None:
            return base
        out = out._replace(eq=None, ub=None, shape=None)
        if base is not None:
            if base.shape is not None:
                out = out._replace(shape=base.shape)
        return out

    def cut(self, t, org, pos):
        """t where the condition holds (pos) or does not"""
        lo, hi = org[1:3] if pos else org[3:5]
        lo, hi = max(t.lo, lo), min(t.hi, hi)
        return BOT if lo > hi else t._replace(lo=lo, hi=hi, eq=None, ub=None)

    def masked(self, base, idx, pos):
        """the part of an array a comparison of that same array selects"""
        t, m = self.iv(base), idx.tag if idx is not None else None
        if t.kind or m is None or m.org is None or len(m.org) != 5 or m.org[0] != base.sn or t.lo > t.hi:
            return None
        return self.cut(t, m.org, pos)

    def join_store(self, old, tag, idx=None):
        t = self.iv(old)
        rest = self.masked(old, idx, False)
        if rest is not None:
            return self.jj(rest, tag if tag is not None else TOP)._replace(shape=t.shape)
        return self.jj(t, tag if tag is not None else TOP)._replace(shape=t.shape)

    def store_tag(self, base, idx, v):
        return self.iv(v)._replace(eq=None, ub=None, shape=None)

    # ---- operators
    def unary(self, op, v):
        t = self.iv(v)
        if op == "USub":
            if t.kind == "lg":
                return t
            return Iv(-t.hi, -t.lo, t.kind, shape=t.shape)
        if op in ("not", "Not"):
            return BOOL
        if op == "Invert":
            o = t.org
            return t._replace(eq=None, ub=None, org=(o[0],) + o[3:5] + o[1:3] if o and len(o) == 5 else None) if (t.lo, t.hi) == (0.0, 1.0) else TOP
        return t

    def bshape(self, l, r):
        a, b = (l.shape or ()), (r.shape or ())
        if len(a) == len(b):
            return tuple(x if x is not None else y for x, y in zip(a, b)) or None
        return (a if len(a) > len(b) else b) or None

    def bin(self, op, l, r, node):
        a, b = self.iv(l), self.iv(r)
        o = type(op)
        sh = self.bshape(a, b)
        if "c" in (a.kind, b.kind):
            return Iv(kind="c", shape=sh)
        if "lg" in (a.kind, b.kind):
            return Iv(kind="lg") if o in (ast.Add, ast.Sub) else TOP
        if a.lo > a.hi or b.lo > b.hi:
            return Iv(INF, -INF, shape=sh) if a.lo > a.hi and b.lo > b.hi or o is not ast.Mod else Iv(*BOT[:2])
        eq = ub = None
        if o is ast.Add:
            lo, hi = a.lo + b.lo, a.hi + b.hi
            ea, eb = self.eq(l), self.eq(r)
            if eb[0] == 0:
                eq, ub = (ea[0], ea[1] + eb[1]), (self.ub(l)[0], self.ub(l)[1] + eb[1])
            elif ea[0] == 0:
                eq, ub = (eb[0], eb[1] + ea[1]), (self.ub(r)[0], self.ub(r)[1] + ea[1])
        elif o is ast.Sub:
            lo, hi = a.lo - b.hi, a.hi - b.lo
            if l.sn == r.sn and not (l.tag and l.tag.shape):
                pass
            eb = self.eq(r)
            if eb[0] == 0:
                ea = self.eq(l)
                eq, ub = (ea[0], ea[1] - eb[1]), (self.ub(l)[0], self.ub(l)[1] - eb[1])
        elif o is ast.Mult:
            c = [mul(x, y) for x in a[:2] for y in b[:2]]
            lo, hi = min(c), max(c)
            if l.sn == r.sn:
                lo = max(lo, 0.0)
        elif o is ast.Div:
            if a.lo >= 0 and b.lo >= 0 and (u := self.ub(l))[0] == (e := self.eq(r))[0] != 0 and u[1] <= e[1]:
                return Iv(0.0, 1.0, shape=sh)
            lo, hi = self.div(a, b)
        elif o is ast.FloorDiv:
            lo, hi = self.div(a, b)
            lo, hi = (math.floor(lo) if abs(lo) < INF else lo), hi
        elif o is ast.Mod:
            if b.lo >= 0:
                lo, hi = (0.0, b.hi)
                if a.lo >= 0:
                    hi = min(hi, a.hi)
            else:
                lo, hi = -INF, INF
        elif o is ast.Pow:
            lo, hi = self.power(a, b, r)
        elif o in (ast.BitAnd, ast.BitOr, ast.BitXor):
            return Iv(0.0, 1.0, shape=sh) if a.lo >= 0 and a.hi <= 1 and b.lo >= 0 and b.hi <= 1 else Iv(shape=sh)
        elif o is ast.MatMult:
            return NONNEG if a.lo >= 0 and b.lo >= 0 else TOP
        else:
            lo, hi = -INF, INF
        if lo != lo or hi != hi:
            lo, hi = -INF, INF
        # x - P * floor(x / P) is x modulo P
        org = None
        c = self.one(r)
        if o in (ast.Div, ast.FloorDiv) and c is not None and c > 0:
            org = ("quot" if o is ast.Div else "turns", l.sn, c)
        elif o is ast.Mult:
            for x, y in ((a, self.one(r)), (b, self.one(l))):
                if x.org and x.org[0] == "turns" and y == x.org[2]:
                    org = ("whole",) + x.org[1:]
        elif o is ast.Sub and b.org and b.org[0] == "whole" and b.org[1] == l.sn:
            lo, hi = 0.0, b.org[2]
        return Iv(tidy(lo), tidy(hi), "", eq, ub, sh, org)

    def one(self, v):
        c = v.consts()
        return float(c[0]) if c and len(c) == 1 and isinstance(c[0], (int, float)) else None

    def div(self, a, b):
        if b.lo > 0 or b.hi < 0:
            c = []
            for x in a[:2]:
                for y in b[:2]:
                    c.append(0.0 if abs(y) == INF else x / y)
            return min(c), max(c)
        if a.lo >= 0 and b.lo >= 0:
            return 0.0, INF
        return -INF, INF

    def power(self, a, b, r):
        c = r.consts()
        if a.lo >= 0:
            if b.lo >= 0 and a.hi <= 1:
                return 0.0, 1.0
            try:
                if c and len(c) == 1 and c[0] >= 0:
                    return a.lo ** c[0], (INF if a.hi == INF and c[0] > 0 else a.hi ** c[0])
            except OverflowError:
                pass
            return 0.0, INF
        if c and all(isinstance(x, (int, float)) and float(x).is_integer() and int(x) % 2 == 0 for x in c):
            m = max(abs(a.lo), abs(a.hi))
            return 0.0, (m ** 2 if all(x == 2 for x in c) else 1.0 if m <= 1 else INF)
        if a.lo >= -1 and a.hi <= 1 and b.lo >= 0:
            return -1.0, 1.0
        return -INF, INF

    def compare(self, op, l, r, node):
        a, b = self.iv(l), self.iv(r)
        org = None
        up, dn = (ast.Gt, ast.GtE), (ast.Lt, ast.LtE)
        if isinstance(op, up + dn) and not a.kind and not b.kind and a.lo <= a.hi and b.lo <= b.hi:
            for x, y, hi in ((l, b, isinstance(op, up)), (r, a, isinstance(op, dn))):
                if x.consts() is None:
                    # x above y where the condition holds, below it elsewhere (or the other way round)
                    org = (x.sn, y.lo, INF, -INF, y.hi) if hi else (x.sn, -INF, y.hi, y.lo, INF)
                    break
        return Iv(0.0, 1.0, shape=self.bshape(a, b), org=org)

    def index(self, base, idx, kind, node):
        t = self.masked(base, idx, True) or self.iv(base)
        sh = t.shape
        if sh:
            if isinstance(getattr(node, "slice", None), ast.Slice) or isinstance(getattr(node, "slice", None), ast.Tuple):
                sh = sh if isinstance(node.slice, ast.Slice) else None
            else:
                at = idx.atoms if idx is not None else ()
                sh = sh[1:] if at and all(isinstance(x, C) and isinstance(x.v, int) or isinstance(x, T) and x.t == "int" for x in at) else None
        return t._replace(eq=None, ub=None, shape=sh or None, org=None)

    def iter_elem(self, v):
        t = self.iv(v)
        return t._replace(eq=None, ub=None, shape=t.shape[1:] or None if t.shape else None, org=None)

    def attr(self, recv, name, node):
        if name in ("eps", "tiny", "smallest_normal", "resolution"):
            return Iv(0.0, 1e-15)
        if name in NN:
            return NONNEG
        if name in PR:
            return PROB
        if name in ("T", "values", "flat", "real") and self.iv(recv).kind == "":
            return self.iv(recv)._replace(shape=None)
        return TOP

    # ---- refinement by comparisons with known numbers
    def refine_compare(self, test, pos):
        op = test.ops[0]
        inv = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}
        flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
        o = type(op)
        l, r = test.left, test.comparators[0]
        if isinstance(r, ast.Constant) and (r.value == 0 and (o is ast.Eq and pos or o is ast.NotEq and not pos or o is ast.Gt and not pos) or r.value == 1 and o is ast.Lt and pos):
            x = l.value if isinstance(l, ast.Attribute) and l.attr == "size" else l.args[0] if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and l.args else None
            if x is not None:       # an empty array holds no value at all
                self.I.lvalue_update(x, lambda v: v if any(isinstance(a, (Ref, Tup)) for a in v.atoms) or v.consts() is not None else v.w(tag=BOT))
                return
        if o not in inv:
            return
        if not pos:
            o = inv[o]
        for node, other, k in ((test.left, test.comparators[0], o), (test.comparators[0], test.left, flip[o])):
            if not isinstance(node, (ast.Name, ast.Attribute)):
                continue
            t = self.iv(self.I.flat(self.I.eval_quiet(other)))
            if t.kind or t.lo > t.hi:
                continue

            def upd(v):
                if any(isinstance(a, (Ref, Func, Bound, Tup)) for a in v.atoms) or v.consts() is not None:
                    return v
                x = self.iv(v)
                if x.kind:
                    return v
                lo, hi = x.lo, x.hi
                integral = v.only(T) and all(a.t in ("int", "bool") for a in v.atoms)
                if k in (ast.Gt, ast.GtE):
                    lo = max(lo, math.floor(t.lo) + 1 if integral and k is ast.Gt and t.lo > -INF else t.lo)
                else:
                    hi = min(hi, math.ceil(t.hi) - 1 if integral and k is ast.Lt and t.hi < INF else t.hi)
                if (lo, hi) == (x.lo, x.hi) or lo > hi:
                    return v
                return v.w(tag=x._replace(lo=lo, hi=hi), sn=v.sn)
            self.I.lvalue_update(node, upd)

    # ---- counting loops
    def trip(self, node, it):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "range" and len(node.args) == 1:
            return self.eq(self.I.eval_quiet(node.args[0]))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("enumerate", "tqdm", "list", "reversed") and node.args:
            return self.trip(node.args[0], self.I.eval_quiet(node.args[0]))
        t = it.tag
        return t.shape[0] if t is not None and t.shape else None

    def steps(self, body, name):
        """largest number of +1 steps of a local counter along a path through body; None if it changes otherwise"""
        n = 0
        for s in body:
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                if not (isinstance(s.op, ast.Add) and (isinstance(s.value, ast.Constant) and s.value.value in (0, 1) and not isinstance(s.value.value, float)
                        or self.boolish(s.value))):
                    return None
                n += 1
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name:
                v = s.value
                if not (isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and any(isinstance(p, ast.Name) and p.id == name and (isinstance(q, ast.Constant) and q.value in (0, 1)
                        or self.boolish(q)) for p, q in ((v.left, v.right), (v.right, v.left)))):
                    return None
                n += 1
            elif isinstance(s, ast.If):
                a, b = self.steps(s.body, name), self.steps(s.orelse, name)
                if a is None or b is None:
                    return None
                n += max(a, b)
            elif any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(s)):
                return None
        return n

    def boolish(self, e):
        if isinstance(e, ast.Compare):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("int", "bool", "float") and e.args:
            return self.boolish(e.args[0])
        return False

    def appends(self, body, name):
        n = 0
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == name:
                if s.value.func.attr != "append":
                    return None
                n += 1
            elif isinstance(s, ast.If):
                a, b = self.appends(s.body, name), self.appends(s.orelse, name)
                if a is None or b is None:
                    return None
                n += max(a, b)
            elif any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s)):
                return None
        return n

    def loop_begin(self, s, it):
        trip = self.trip(s.iter, it)
        if trip is None:
            return None
        tok = []
        names = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name)}
        for nm in names:
            node = ast.Name(nm, ast.Load())
            k = self.steps(s.body, nm)
            if k == 1:
                v = self.I.lvalue_get(node)
                if v is not None:
                    t = self.iv(v)
                    if t.lo <= t.hi < INF and not t.kind:
                        tok.append(("n", nm, (trip[0], trip[1] + t.hi), t.lo))
            elif k == 0 and self.appends(s.body, nm) == 1:
                v = self.I.lvalue_get(node)
                if v is not None and len(v.atoms) == 1 and self.I.known_items(v) == []:
                    tok.append(("l", nm, trip, 0))
        return tok

    def loop_end(self, s, it, tok):
        for kind, nm, b, lo in tok or ():
            node = ast.Name(nm, ast.Load())
            if kind == "n":
                self.I.lvalue_update(node, lambda v: v if v.consts() is not None and len(v.atoms) == 1 else v.w(tag=self.iv(v)._replace(ub=b, eq=None, lo=max(lo, self.iv(v).lo))))
            else:
                self.I.lvalue_update(node, lambda v: v.w(tag=(v.tag or TOP)._replace(shape=(b,))))

    def comp_result(self, v, ctls, outs, node):
        if isinstance(node, (ast.ListComp, ast.GeneratorExp)) and len(node.generators) == 1 and ctls:
            g = node.generators[0]
            tr = self.trip(g.iter, ctls[0])
            if tr is not None:
                sh = (tr,)
                es = [x.tag.shape for x in outs if x.tag is not None and x.tag.shape]
                if len(es) == len(outs) and len(set(es)) == 1:
                    sh += es[0]
                return v.w(tag=Iv(shape=sh))
        return v

    # ---- calls
    def rv_arg(self, last, x):
        """what scipy's public method hands to the private one: quantiles are probabilities, points lie inside the support"""
        t = PROB if last in ("ppf", "isf") else ANGLE
        return x.w(tag=t) if x.consts() is None else x

    def recursion(self, f, args):
        return TOP

    def unknown_call(self, fv, args, node):
        return TOP

    def callback_arg(self, name, i, others, fnode):
        if name.startswith(("scipy.optimize", "scipy.integrate")):
            return TOP
        t = BOT
        for o in others:
            t = self.jj(t, self.iv(o))
        return t._replace(eq=None, ub=None, shape=None)

    def sizes(self, v):
        """shape tag for a size argument"""
        ok = self.I.known_items(v)
        xs = ok if ok is not None else [v]
        out = []
        for x in xs:
            if ok is None and not all(isinstance(a, T) and a.t in ("int", "num") or isinstance(a, C) for a in x.atoms):
                return None
            out.append(self.eq(x))
        return tuple(out) or None

    def ext(self, name, cat, args, kw, node):
        last = name.split(".")[-1]
        t = self.ext_(name, last, args, kw, node)
        if t is None:
            return TOP
        if t.lo != t.lo or t.hi != t.hi:
            return TOP
        if t.org is not None and last not in ("floor", "asarray", "array", "copy", "multiply", "divide", "true_divide", "floor_divide", "subtract"):
            t = t._replace(org=None)
        return t._replace(lo=tidy(t.lo), hi=tidy(t.hi)) if not t.kind else t

    def axis0(self, kw, args):
        """which leading axes survive a reduction"""
        a = kw.get("axis") or (args[1] if len(args) > 1 else None)
        if a is None:
            return None
        ok, c = a.const()
        return c if ok and isinstance(c, int) else None

    def ext_(self, name, last, args, kw, node):
        if name.startswith("builtins.") and last in ("print", "super"):
            return TOP
        if name in ("rv.ppf", "rv.isf"):
            # scipy fills the end points of the support in; the rest is the distribution's own inverse
            t = self.iv(args[0]) if args else TOP
            return Iv(min(t.lo, 0.0), max(t.hi, TAU)) if not t.kind and t.lo <= t.hi else TOP
        a = self.iv(args[0]) if args else TOP
        b = self.iv(args[1]) if len(args) > 1 else None
        sh = a.shape
        if last in ("sin", "cos", "sinc", "tanh", "erf", "sign", "corrcoef", "pearsonr", "sj0", "j0", "cosdg"):
            return CPLX if a.kind == "c" else Iv(-1.0, 1.0, shape=sh)
        if last in ("arctan2", "angle", "atan2", "phase"):
            return Iv(-PI, PI, shape=sh)
        if last in ("arccos", "acos"):
            return Iv(0.0, PI, shape=sh)
        if last in ("arcsin", "arctan", "asin", "atan"):
            return Iv(-PI / 2, PI / 2, shape=sh)
        if last in ("mod", "remainder", "fmod"):
            if b is not None and b.lo >= 0 and last != "fmod":
                return Iv(0.0, b.hi, shape=self.bshape(a, b))
            return TOP
        if last in ("abs", "absolute", "fabs"):
            if a.kind or a.lo > a.hi:
                return Iv(0.0, INF, shape=sh)
            lo = 0.0 if a.lo <= 0 <= a.hi else min(abs(a.lo), abs(a.hi))
            return Iv(lo, max(abs(a.lo), abs(a.hi)), shape=sh)
        if last in ("lgamma", "gammaln", "loggamma") or last == "log" and a.lo >= 0 and a.kind == "lg":
            return Iv(kind="lg")
        if last == "exp":
            if a.kind == "lg":
                self.lemmas = getattr(self, "lemmas", set()) | {self.I.loc(node)}
                return PROB
            if a.kind == "c":
                return Iv(kind="c", shape=sh)
            if a.lo > a.hi:
                return NONNEG
            return Iv(0.0 if a.lo < -700 else math.exp(min(a.lo, 700)), INF if a.hi > 700 else math.exp(a.hi), shape=sh)
        if last == "log":
            if a.kind == "c":
                return CPLX
            return Iv(-INF if a.lo <= 0 else math.log(a.lo), INF if a.hi == INF or a.hi <= 0 else math.log(a.hi), shape=sh)
        if last == "sqrt":
            return CPLX if a.kind == "c" else Iv(math.sqrt(a.lo) if 0 < a.lo < INF else 0.0, math.sqrt(a.hi) if 0 <= a.hi < INF else INF, shape=sh)
        if last == "square":
            lo, hi = self.power(a, Iv(2, 2), V([C(2)]))
            return Iv(lo, hi, shape=sh)
        if last in ("power", "pow") and b is not None:
            return self.bin(ast.Pow(), args[0], args[1], node)
        ops = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div, "true_divide": ast.Div, "floor_divide": ast.FloorDiv, "outer": ast.Mult}
        if last in ops and b is not None:
            return self.bin(ops[last](), args[0], args[1], node)
        if last == "negative":
            return self.unary("USub", args[0])
        if last == "nextafter" and b is not None:
            return Iv(min(a.lo, b.lo), max(a.hi, b.hi), shape=sh)
        if last == "clip":
            lo_, hi_ = self.argn(args, kw, 1, ("a_min", "min", "min_")), self.argn(args, kw, 2, ("a_max", "max", "max_"))
            lo, hi = a.lo, a.hi
            if a.lo > a.hi:
                lo, hi = -INF, INF
            if lo_ is not None and lo_.consts() != [None]:
                t = self.iv(lo_)
                lo, hi = max(lo, t.lo), max(hi, t.hi)
            if hi_ is not None and hi_.consts() != [None]:
                t = self.iv(hi_)
                lo, hi = min(lo, t.lo), min(hi, t.hi)
            return Iv(lo, hi, shape=sh)
        if last in ("minimum", "fmin") and b is not None or last == "min" and name.startswith("builtins") and len(args) > 1:
            ts = [self.iv(x) for x in args]
            return Iv(min(t.lo for t in ts), min(t.hi for t in ts), shape=sh)
        if last in ("maximum", "fmax") and b is not None or last == "max" and name.startswith("builtins") and len(args) > 1:
            ts = [self.iv(x) for x in args]
            return Iv(max(t.lo for t in ts), max(t.hi for t in ts), shape=sh)
        if last == "where" and len(args) == 3:
            org = a.org
            if org is not None and len(org) == 5 and isinstance(node, ast.Call) and len(node.args) == 3 and not node.keywords:
                x, y = self.under(node.args[1], args[1], org, True), self.under(node.args[2], args[2], org, False)
                return self.jj(x, y)._replace(eq=None, ub=None, org=None)
            return self.jj(self.iv(args[1]), self.iv(args[2]))._replace(eq=None, ub=None)
        if last == "select" and len(args) > 1:
            t = b
            d = self.argn(args, kw, 2, ("default",))
            return self.jj(t, self.iv(d) if d is not None else Iv(0.0, 0.0))._replace(eq=None, ub=None)
        if last == "nan_to_num":
            v = kw.get("nan")
            return self.jj(a, self.iv(v) if v is not None else Iv(0.0, 0.0))
        if last in ("zeros", "zeros_like"):
            return Iv(0.0, 0.0, shape=self.sizes(args[0]) if last == "zeros" and args else sh)
        if last in ("ones", "ones_like"):
            return Iv(1.0, 1.0, shape=self.sizes(args[0]) if last == "ones" and args else sh)
        if last in ("empty", "empty_like"):
            return Iv(INF, -INF, shape=self.sizes(args[0]) if last == "empty" and args else sh)
        if last == "full" or last == "full_like":
            f = self.argn(args, kw, 1, ("fill_value",))
            return (self.iv(f) if f is not None else TOP)._replace(eq=None, ub=None, shape=self.sizes(args[0]) if last == "full" and args else sh)
        if last == "linspace" and b is not None:
            return Iv(min(a.lo, b.lo), max(a.hi, b.hi))
        if last == "arange":
            if len(args) == 1:
                return Iv(0.0, a.hi, shape=(self.eq(args[0]),))
            return Iv(a.lo, b.hi) if b is not None and b.lo >= 0 else TOP
        if last == "range":
            if len(args) == 1:
                return Iv(0.0, max(a.hi - 1, 0.0), shape=(self.eq(args[0]),))
            return Iv(a.lo, max(b.hi - 1, a.lo)) if len(args) == 2 else Iv(min(a.lo, b.lo), max(a.hi, b.hi))
        if last == "uniform" and name.startswith(("rng.", "numpy.random", "?.")):
            xs = args[1:] if name.startswith(("rng.", "?.")) else args
            lo, hi = self.argn(xs, kw, 0, ("low",)), self.argn(xs, kw, 1, ("high",))
            s = self.argn(xs, kw, 2, ("size",))
            return Iv(self.iv(lo).lo if lo is not None else 0.0, self.iv(hi).hi if hi is not None else 1.0, shape=self.sizes(s) if s is not None else None)
        if last == "vonmises":
            return Iv(-PI, PI)
        if last == "random":
            s = self.argn(args[1:], kw, 0, ("size",))
            return Iv(0.0, 1.0, shape=self.sizes(s) if s is not None else None)
        if last in ("count_nonzero", "nnz"):
            ax = kw.get("axis")
            return Iv(0.0, INF, ub=sh[0] if sh and len(sh) == 1 and ax is None else None)
        if last in ("cdf", "sf", "ndtr") and not name.startswith("rv."):
            x = b if name.startswith("?.") or last != "ndtr" and len(args) > 1 and a is TOP and name.startswith("?.") else a
            if x is not None and name.split(".")[-2:-1] == ["norm"] and x.lo >= 0:
                return Iv(0.5, 1.0, shape=x.shape) if last != "sf" else Iv(0.0, 0.5, shape=x.shape)
            return Iv(0.0, 1.0, shape=x.shape if x is not None else None)
        if last in PR:
            return Iv(0.0, 1.0, shape=sh)
        if last == "interp" and len(args) > 2:
            return self.iv(args[2])._replace(eq=None, ub=None, shape=sh)
        if last in ("sum", "nansum") and a.kind == "":
            ax = self.axis0(kw, args)
            s2 = None
            if sh and ax is not None:
                s2 = sh[:ax] + sh[ax + 1:] if ax >= 0 else (sh[:ax] + (sh[ax + 1:] if ax != -1 else ()))
            ub = sh[0] if sh and len(sh) == 1 and ax is None and a.lo >= 0 and a.hi <= 1 else None
            return Iv(0.0 if a.lo >= 0 else -INF, 0.0 if a.hi <= 0 else INF, shape=s2 or None, ub=ub)
        if last in POSRED:
            if a.kind == "c" or b is not None and b.kind == "c" and last not in ("sum", "prod", "cumsum"):
                ax = self.axis0(kw, args)
                return Iv(kind="c", shape=sh[:1] if sh and ax not in (None, 0) else None)
            if last in ("prod", "cumprod") and a.lo >= 0 and a.hi <= 1:
                return Iv(0.0, 1.0)
            second = last in ("dot", "vdot", "inner", "matmul")
            if a.lo >= 0 and (not second or b is not None and b.lo >= 0):
                return NONNEG
            return CPLX if a.kind == "c" else TOP
        if last in ("sum", "nansum", "mean") and a.kind == "c":
            ax = self.axis0(kw, args)
            return Iv(kind="c", shape=sh[:1] if sh and ax not in (None, 0) else None)
        if last in ("conj", "conjugate", "fft"):
            return a
        if last in ("real", "imag"):
            return TOP if a.kind == "c" else a
        if last in ("diff", "ediff1d"):
            return Iv(a.lo - a.hi, a.hi - a.lo) if a.lo <= a.hi else TOP
        if last in ("round", "around", "rint") and not a.kind:
            return Iv(a.lo if a.lo in (0.0, 1.0, -1.0) else a.lo - 0.5, a.hi if a.hi in (0.0, 1.0) else (a.hi if a.hi == TAU and (len(args) > 1 or kw) else a.hi + 0.5), shape=sh)
        if last in ("floor", "ceil", "trunc", "int") and not a.kind:
            if a.lo > a.hi:
                return TOP
            f = {"floor": math.floor, "ceil": math.ceil}.get(last)
            lo = a.lo if abs(a.lo) == INF else math.floor(a.lo) if last != "ceil" else math.ceil(a.lo)
            hi = a.hi if abs(a.hi) == INF else math.ceil(a.hi) if last != "floor" else math.floor(a.hi)
            return Iv(float(lo), float(hi), shape=sh, org=("turns",) + a.org[1:] if last == "floor" and a.org and a.org[0] == "quot" else None, eq=self.eq(args[0]) if last == "int" and args[0].only(T) and all(x.t == "int" for x in args[0].atoms) else None, ub=a.ub)
        if last in ("deg2rad", "radians"):
            return Iv(a.lo * PI / 180, a.hi * PI / 180, shape=sh)
        if last in ("rad2deg", "degrees"):
            return Iv(a.lo * 180 / PI, a.hi * 180 / PI, shape=sh)
        if last in SAME:
            if name.startswith(("numpy.random", "rng.")) or name.startswith("?.") and last in ("choice", "permutation"):
                a = b if b is not None and name.startswith(("rng.", "?.")) else a
                return a._replace(eq=None, ub=None, shape=None)
            if last in ("concatenate", "stack", "vstack", "hstack", "append", "insert", "column_stack", "dstack", "r_", "c_", "array", "asarray", "meshgrid", "Series", "DataFrame"):
                t = a
                if last in ("append", "insert"):
                    for x in args[1:]:
                        t = self.jj(t, self.iv(x))
                return t._replace(eq=None, ub=None, shape=sh if last in ("array", "asarray") else None)
            if last == "get" or last == "pop" or last == "setdefault":
                return TOP
            if last == "quantile" or last == "percentile":
                return a._replace(eq=None, ub=None, shape=None)
            return a._replace(eq=None if last not in ("float", "float64") else a.eq, ub=None if last not in ("float", "float64") else a.ub, shape=sh if last in KEEPSHAPE else None)
        if last in ("float", "float64") or last == "bool":
            return a
        if last in NN:
            return Iv(0.0, INF)
        return TOP

    def under(self, e, v, org, pos):
        """range of an elementwise expression where the condition holds (pos) or does not"""
        ok = (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Attribute, ast.operator, ast.unaryop, ast.expr_context)
        if not all(isinstance(x, ok) for x in ast.walk(e)):
            return self.iv(v)
        hit = [x for x in ast.walk(e) if isinstance(x, ast.Name) and (w := self.I.lvalue_get(x)) is not None and w.sn == org[0]]
        if not hit:
            return self.iv(v)
        I = self.I
        keep = I.st
        I.st = keep.copy()
        try:
            for x in hit:
                I.lvalue_update(x, lambda w: w if w.sn != org[0] or any(isinstance(q, (Ref, Tup)) for q in w.atoms) else w.w(tag=self.cut(self.iv(w), org, pos), sn=w.sn))
            return self.iv(I.flat(I.eval_quiet(e)))
        finally:
            I.st = keep

    def argn(self, args, kw, i, names):
        for n in names:
            if n in kw:
                return kw[n]
        return args[i] if len(args) > i else None
