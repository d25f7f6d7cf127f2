"""Constant propagation through numeric library functions (opt-in: Domain.fold_numeric = True).

A numeric constant stands for a scalar or an array all of whose entries have that value. A NaN constant is absorbing for arithmetic, makes every
ordering false, and False is absorbing for &."""
from __future__ import annotations
import ast, math
from .values import *

IDENT = set("""asarray asanyarray array ascontiguousarray atleast_1d atleast_2d ravel reshape flatten copy squeeze broadcast_to astype item expand_dims
float64 float_ real unique sort full_like tile repeat view""".split())
ELEM = set("""add subtract multiply divide true_divide floor_divide power negative positive absolute abs fabs sqrt cbrt square exp exp2 expm1 log log2 log10 log1p
sign floor ceil rint trunc maximum minimum clip sin cos tan arcsin arccos arctan arctan2 sinh cosh tanh mod remainder fmod isfinite isnan isinf
greater greater_equal less less_equal equal not_equal logical_and logical_or logical_not hypot deg2rad rad2deg radians degrees iv i0 i1 gamma gammaln isclose allclose""".split())
CMPN = {"greater": ast.Gt, "greater_equal": ast.GtE, "less": ast.Lt, "less_equal": ast.LtE, "equal": ast.Eq, "not_equal": ast.NotEq}
NANFREE = {"isfinite": False, "isnan": True, "isinf": False, "isclose": False, "allclose": False}
# isfinite/isnan/isinf of +-inf are folded by numpy itself


def numeric(x):
    return isinstance(x, (bool, int, float)) and x is not None


def isnan(v):
    ok, c = v.const()
    return ok and isinstance(c, float) and c != c


def _mod(a, b):
    return a % b if math.isfinite(a) and b else math.nan


def _div(a, b):
    if b == 0:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a)
    return a / b


def _sqrt(a):
    return math.sqrt(a) if a >= 0 else math.nan


def _log(a):
    return math.log(a) if a > 0 else (-math.inf if a == 0 else math.nan)


def _tr(f):
    return lambda a: f(a) if math.isfinite(a) else math.nan


FN = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b, "divide": _div, "true_divide": _div,
      "power": lambda a, b: math.pow(a, b), "negative": lambda a: -a, "positive": lambda a: a, "absolute": abs, "abs": abs, "fabs": abs, "sqrt": _sqrt,
      "square": lambda a: a * a, "exp": lambda a: math.exp(a) if a < 700 else math.inf, "log": _log, "floor": lambda a: float(math.floor(a)),
      "ceil": lambda a: float(math.ceil(a)), "rint": lambda a: float(round(a)), "maximum": max, "minimum": min, "max": max, "min": min,
      "clip": lambda x, lo, hi: min(max(x, lo if lo is not None else -math.inf), hi if hi is not None else math.inf),
      "sin": _tr(math.sin), "cos": _tr(math.cos), "tan": _tr(math.tan), "mod": _mod, "remainder": _mod,
      "isfinite": lambda a: math.isfinite(a), "isnan": lambda a: math.isnan(a), "isinf": lambda a: math.isinf(a),
      "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b, "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b,
      "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b, "logical_and": lambda a, b: bool(a and b), "logical_or": lambda a, b: bool(a or b),
      "logical_not": lambda a: not a, "hypot": math.hypot, "deg2rad": math.radians, "radians": math.radians, "rad2deg": math.degrees, "degrees": math.degrees,
      "isclose": lambda a, b: abs(a - b) <= 1e-8 + 1e-5 * abs(b) or a == b, "allclose": lambda a, b: abs(a - b) <= 1e-8 + 1e-5 * abs(b) or a == b}


def fold_call(I, name, args, kw):
    """V or None"""
    last = name.split(".")[-1]
    if not name.startswith(("numpy.", "math.", "scipy.special.", "builtins.")) or name.startswith("numpy.random"):
        return None
    if not args:
        return None
    d, c = I.flatdeps(*(list(args) + list(kw.values())))
    if last == "full_like" or last == "full":
        f = args[1] if len(args) > 1 else kw.get("fill_value")
        if f is not None and f.const()[0] and numeric(f.const()[1]):
            return V([C(f.const()[1])], d, c)
        return None
    if last == "broadcast_arrays" and "star" not in kw:
        if any(a.const()[0] for a in args):
            return V([Tup([a if a.const()[0] else V([T("arr")], I.flat(a).deps, I.flat(a).cdeps, a.mem, a.tag) for a in args])], d, c)
        return None
    a0 = args[0]
    if last in IDENT and a0.only(C) and all(numeric(x.v) for x in a0.atoms):
        return V(a0.atoms, d, c, EMPTY, a0.tag)
    if last in ("all", "any") and a0.only(C) and len(args) == 1:
        cs = {bool(x.v) for x in a0.atoms if numeric(x.v)}
        if len(cs) == 1 and all(numeric(x.v) for x in a0.atoms):
            return V([C(cs.pop())], d, c)
        return None
    if last in ELEM or name in ("builtins.abs", "builtins.min", "builtins.max"):
        if name.startswith("math.") and last in ("clip",):
            return None
        # boolean connectives with one decided operand
        if last in ("logical_and", "logical_or") and len(args) == 2:
            absorb = last == "logical_or"
            for a in args:
                if a.const()[0] and numeric(a.const()[1]) and bool(a.const()[1]) is absorb:
                    return V([C(absorb)], d, c)
        if any(isnan(a) for a in args[:2]) and last not in ("logical_and", "logical_or", "logical_not", "clip") or (last == "clip" and isnan(a0)):
            if last in NANFREE:
                return V([C(NANFREE[last])], d, c)
            if last in CMPN:
                return V([C(last == "not_equal")], d, c)
            if last in ("sign", "negative") or True:
                return V([C(math.nan)], d, c)
        vals = []
        for a in list(args) + list(kw.values()):
            ok, x = a.const()
            if not ok or not (numeric(x) or x is None):
                return None
            vals.append(x)
        if kw and set(kw) - {"rtol", "atol", "a_min", "a_max"}:
            return None
        f = FN.get(last)
        if f is None or kw:
            return None
        try:
            r = f(*vals)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            return None
        if numeric(r):
            return V([C(r)], d, c)
    return None


def fold_bin(I, op, l, r):
    lc, rc = l.const(), r.const()
    d, c = I.flatdeps(l, r)
    if isinstance(op, (ast.BitAnd, ast.BitOr)):
        absorb = isinstance(op, ast.BitOr)
        for k in (lc, rc):
            if k[0] and isinstance(k[1], bool) and k[1] is absorb:
                return V([C(absorb)], d, c)
        for k, o in ((lc, r), (rc, l)):
            if k[0] and isinstance(k[1], bool) and k[1] is not absorb and not o.only(C):
                return V(o.atoms, d, c)
        return None
    if isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Mod, ast.FloorDiv)) and (isnan(l) or isnan(r)):
        return V([C(math.nan)], d, c)
    if isinstance(op, ast.Pow) and isnan(l):
        return V([C(math.nan)], d, c)
    if lc[0] and rc[0] and isinstance(op, (ast.Div, ast.Mod, ast.Pow)):
        try:
            return V([C({ast.Div: FN["divide"], ast.Mod: FN["mod"], ast.Pow: FN["power"]}[type(op)](float(lc[1]), float(rc[1])))], d, c)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            return None
    return None


def fold_cmp(op, l, r):
    """True/False/None for a comparison"""
    if isnan(l) or isnan(r):
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq)):
            return False
        if isinstance(op, ast.NotEq):
            return True
    return None
