"""Models of the external functions, types and methods the package uses."""
from __future__ import annotations
import ast, math, builtins
from . import folding
from .values import *
from .state import HObj

# --------------------------------------------------------------------------- categories of numeric functions
CATS = {}


def _c(cat, names):
    for n in names.split():
        CATS[n] = cat


_c("elem", """add subtract multiply divide true_divide floor_divide power float_power negative positive absolute abs fabs sqrt cbrt
square exp exp2 expm1 log log2 log10 log1p sign floor ceil rint trunc fix round around round_ clip minimum maximum fmin fmax
isfinite isnan isinf logical_and logical_or logical_not logical_xor greater greater_equal less less_equal equal not_equal isclose
reciprocal hypot heaviside nan_to_num real_if_close isreal iscomplex conj conjugate signbit copysign ldexp frexp modf
bitwise_and bitwise_or invert gamma gammaln i0 i1 i0e i1e iv ive kv jv erf erfc erfinv beta betaln comb factorial binom psi digamma
ndtr ndtri hyp1f1 hyp2f1 lpmv ellipk ellipe ellipkinc ellipeinc sinc logaddexp expit logit xlogy poch zeta loggamma
where select logsumexp_elem nextafter remainder_elem""")
_c("trig", "sin cos tan sinh cosh tanh")
_c("invtrig", "arcsin arccos arctan arctan2 arcsinh arccosh arctanh angle phase asin acos atan atan2")
_c("mod", "mod remainder fmod divmod")
_c("degrad", "deg2rad rad2deg radians degrees")
_c("view", """asarray asanyarray ascontiguousarray atleast_1d atleast_2d atleast_3d ravel reshape squeeze transpose T swapaxes
expand_dims broadcast_to broadcast_arrays real imag view flat diagonal moveaxis require asfortranarray split array_split hsplit vsplit values""")
_c("copy", """array copy flatten astype tolist to_numpy repeat tile concatenate stack vstack hstack column_stack row_stack dstack append insert
delete take choose compress extract resize flip fliplr flipud rot90 roll pad meshgrid array_from item c_ r_ ix_ block from_iter fromiter
broadcast_shapes full_like_copy require_copy to_list""")
_c("ctor", "zeros ones empty full eye identity arange linspace logspace geomspace indices tri")
_c("ctor_like", "zeros_like ones_like empty_like full_like")
_c("reduce", """sum nansum mean nanmean average var std nanvar nanstd prod nanprod dot vdot inner outer matmul einsum tensordot trace trapz trapezoid
simpson quad logsumexp norm det cumulative_trapezoid kron convolve correlate cov corrcoef""")
_c("reduce_ord", "min max amin amax nanmin nanmax median nanmedian percentile quantile nanpercentile ptp argmin argmax nanargmin nanargmax")
_c("bool_red", "any all array_equal allclose array_equiv")
_c("count", "count_nonzero size shape ndim len")
_c("sort", "sort unique lexsort msort partition sort_complex")
_c("argsort", "argsort argpartition rankdata searchsorted digitize")
_c("cum", "cumsum cumprod nancumsum diff ediff1d gradient cumulative_sum")
_c("hist", "histogram histogram2d bincount histogram_bin_edges")
_c("index", "nonzero flatnonzero argwhere where1 triu_indices tril_indices triu tril diag isin in1d setdiff1d intersect1d union1d")
_c("interp", "interp interp1d CubicSpline PchipInterpolator UnivariateSpline")

METHOD_TO_NP = set("""sum mean min max any all argmin argmax argsort cumsum cumprod reshape ravel flatten copy astype squeeze transpose repeat
take clip round std var dot nonzero tolist item conj conjugate prod ptp swapaxes searchsorted trace diagonal view tobytes to_numpy
compress choose""".split())
INPLACE_METH = set("sort fill put resize partition setflags itemset setfield byteswap".split())
NP_ATTRS = set("""shape size ndim T dtype real imag flat nbytes itemsize base strides flags data mT""".split()) | METHOD_TO_NP | INPLACE_METH

INPLACE_FUNCS = {"numpy.put": 0, "numpy.place": 0, "numpy.copyto": 0, "numpy.fill_diagonal": 0, "numpy.putmask": 0,
                 "numpy.put_along_axis": 0, "numpy.random.shuffle": 0, "random.shuffle": 0,
                 "heapq.heapify": 0, "heapq.heappush": 0, "bisect.insort": 0}

LIST_MUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "add", "discard", "update", "popitem",
            "setdefault", "appendleft", "popleft", "difference_update", "intersection_update", "move_to_end"}


def cat(name):
    last = name.split(".")[-1]
    if name.startswith(("numpy.", "scipy.", "math.", "cmath.", "builtins.")):
        if name.startswith("numpy.random"):
            return "random"
        if name.startswith("scipy.stats") and last not in ("rankdata",):
            return None
        if name == "builtins.abs" or name == "builtins.round":
            return "elem"
        if name in ("builtins.min", "builtins.max"):
            return "reduce_ord"
        if name == "builtins.sum":
            return "reduce"
        if name == "builtins.sorted":
            return "sort"
        if name.startswith("builtins."):
            return None
        if name.startswith("scipy.optimize") or name.startswith("scipy.cluster") or name.startswith("scipy.spatial"):
            return None
        return CATS.get(last)
    return None


CONSTS = {"numpy.pi": math.pi, "numpy.e": math.e, "numpy.inf": math.inf, "numpy.nan": math.nan, "numpy.newaxis": None,
          "math.pi": math.pi, "math.e": math.e, "math.inf": math.inf, "math.nan": math.nan, "math.tau": math.tau, "numpy.euler_gamma": 0.5772156649015329,
          "numpy.NaN": math.nan, "numpy.Inf": math.inf}


def ext_attr(I, mod, name):
    full = f"{mod}.{name}"
    if mod == "np":
        full = "numpy." + name
    if full in CONSTS:
        return V([C(CONSTS[full])])
    if full.startswith("typing.") and name == "TYPE_CHECKING":
        return V([C(False)])
    return V([Ext(full)])


# --------------------------------------------------------------------------- type tests
PYT = {"int": int, "float": float, "str": str, "bool": bool, "complex": complex, "NoneType": type(None)}
ARR_NAMES = {"ndarray"}
NUM_NAMES = {"integer", "floating", "number", "Number", "Real", "Integral", "float64", "int64", "generic", "Rational", "int32", "float32", "complexfloating", "bool_"}
SEQ_NAMES = {"list", "tuple", "Sequence", "Iterable", "Collection"}


def type_names(I, tv):
    out = set()
    for x in I.contents(tv):
        for a in x.atoms:
            if isinstance(a, Ext):
                out.add(a.name.split(".")[-1])
            elif isinstance(a, ClassA):
                out.add(a.cls)
            else:
                out.add("?")
    return out


def narrow_type(typ):
    if typ <= ARR_NAMES:
        return "arr"
    if typ <= {"str"}:
        return "str"
    if typ <= {"int", "integer", "Integral"}:
        return "int"
    if typ <= {"int", "float", "complex"} | NUM_NAMES:
        return "num"
    if typ <= {"bool", "bool_"}:
        return "bool"
    if typ <= {"dict", "Mapping", "MutableMapping"}:
        return "dict"
    if typ <= {"list", "tuple", "Sequence"}:
        return "seq"
    return None


def isinstance_atom(I, a, tv):
    names = type_names(I, tv)
    res = set()
    for n in names:
        res.add(_isinst1(I, a, n))
    if True in res:
        return True
    if None in res or "?" in res:
        return None
    return False


def _isinst1(I, a, n):
    if n == "?":
        return None
    if isinstance(a, C):
        if not isinstance(n, str):
            return False
        t = PYT.get(n)
        if t is not None:
            return isinstance(a.v, t)
        if n in ("Number", "Real", "Integral"):
            if isinstance(a.v, bool) or isinstance(a.v, int):
                return True
            return isinstance(a.v, float) and n != "Integral"
        if n in NUM_NAMES or n in ARR_NAMES or n in SEQ_NAMES or n in ("dict", "set", "Mapping", "Callable"):
            return isinstance(a.v, str) and n in ("Sequence", "Iterable", "Collection")
        return False
    if isinstance(a, Tup):
        return n in ("tuple", "Sequence", "Iterable", "Collection", "object")
    if isinstance(a, Ref):
        o = I.st.get(a.id)
        if o is None:
            return None
        if o.kind == "list":
            return n in ("list", "Sequence", "Iterable", "Collection", "MutableSequence")
        if o.kind == "dict":
            return n in ("dict", "Mapping", "MutableMapping", "Iterable", "Collection")
        if o.kind == "set":
            return n in ("set", "Iterable", "Collection")
        if o.kind == "obj" and o.cls is not None:
            if isinstance(n, str):
                return any(isinstance(c, str) and c.split(".")[-1] == n for c in o.cls.mro()) or n == "object"
            return n in o.cls.mro()
        return None
    if isinstance(a, T):
        t = a.t
        if not isinstance(n, str):
            return None if t == "any" else False
        if t == "any":
            return None
        if t == "arr":
            return n in ARR_NAMES or (n in ("Iterable", "Collection", "object"))
        if t == "str":
            return n in ("str", "Sequence", "Iterable", "object")
        if t == "bool":
            return n in ("bool", "int", "Integral", "Number", "Real", "bool_")
        if t == "int":
            return True if n in ("int", "integer", "Integral", "Number", "Real") else (None if n in NUM_NAMES else False)
        if t == "num":
            if n in ("int", "float", "complex") or n in NUM_NAMES:
                return None
            return False
        if t == "callable":
            return n == "Callable"
        if t == "seq":
            return n in SEQ_NAMES or (n == "list" and None)
        if t == "rng":
            return None
        return None
    if isinstance(a, (Func, Bound)):
        return n in ("Callable", "FunctionType")
    return None


def callable_atom(I, a):
    if isinstance(a, (Func, Bound, Ext, ClassA)):
        return True
    if isinstance(a, (C, Tup)):
        return False
    if isinstance(a, T):
        if a.t == "callable":
            return True
        if a.t in ("num", "int", "str", "bool", "arr", "seq", "dict", "range"):
            return False
    return None


def index_kind(I, idx):
    """'int' | 'slice' | 'fancy' | 'newaxis' | 'mixed'"""
    kinds = set()
    for a in idx.atoms:
        if isinstance(a, Slice):
            kinds.add("slice")
        elif isinstance(a, C):
            if a.v is None or a.v == "...":
                kinds.add("slice")
            elif isinstance(a.v, str):
                kinds.add("key")
            else:
                kinds.add("int")
        elif isinstance(a, T):
            kinds.add("fancy" if a.t in ("arr", "seq") else "int" if a.t in ("int", "num", "bool") else "unknown")
        elif isinstance(a, Ref):
            kinds.add("fancy")
        elif isinstance(a, Tup):
            ks = {index_kind(I, x) for x in a.items}
            kinds.add("fancy" if "fancy" in ks else "slice" if "slice" in ks else "unknown" if "unknown" in ks else "int")
        else:
            kinds.add("unknown")
    if len(kinds) == 1:
        return kinds.pop()
    if "unknown" in kinds or not kinds:
        return "unknown"
    if kinds <= {"int", "slice"}:
        return "slice"
    return "unknown"


# --------------------------------------------------------------------------- attributes of unknown values
VIEW_ATTRS = {"T", "real", "imag", "flat", "values", "mT", "data"}


def value_attr(I, recv, name, node, default=None):
    a = next(iter(recv.atoms))
    if isinstance(a, T) and a.t in ("arr", "num", "int", "bool", "str", "seq", "dict", "callable", "range") or isinstance(a, (C, Tup)):
        known = name in NP_ATTRS if not (isinstance(a, (C,)) and isinstance(a.v, str)) and not (isinstance(a, T) and a.t in ("str", "dict", "seq")) else True
        if isinstance(a, T) and a.t == "str" or isinstance(a, C) and isinstance(a.v, str):
            known = hasattr(str, name)
        elif isinstance(a, C):
            known = hasattr(a.v, name) or name in NP_ATTRS
        elif isinstance(a, Tup):
            known = hasattr(tuple, name)
        elif a.t == "dict":
            known = hasattr(dict, name)
        elif a.t == "seq":
            known = hasattr(list, name)
        elif a.t == "callable":
            known = name.startswith("__")
        if not known:
            return default if default is not None else top("any", recv)
    r = I.dom.attr_value(recv, name, node)
    if r is not None:
        return r
    tag = I.dom.attr(recv, name, node)
    if name in ("size", "ndim"):
        return V([T("int")], recv.deps, recv.cdeps, EMPTY, tag)
    if name in VIEW_ATTRS:
        if I.dom.fold_numeric and isinstance(a, C) and folding.numeric(a.v):
            return recv
        if isinstance(a, T) and a.t in ("arr", "any", "num"):
            return V([T(a.t)], recv.deps, recv.cdeps, recv.mem, tag)
    out = V([ExtMeth(recv, name)], recv.deps, recv.cdeps, recv.mem if name not in ("shape", "size") else EMPTY, tag)
    if default is not None and isinstance(a, T) and a.t == "any":
        out = I.join(out, default)
    return out


# --------------------------------------------------------------------------- callbacks
ELEMENTWISE = ("agg", "aggregate", "apply", "transform", "map", "pipe", "apply_along_axis")


def run_callbacks(I, name, allv, node, kw=None):
    """explore user callables passed to external code; returns joined result value or None"""
    out = None
    extra = (kw or {}).get("args") if name.startswith(("scipy.optimize", "scipy.integrate")) else None
    if extra is not None and extra.may_none():
        extra = None
    for i, v in enumerate(allv):
        for a in v.atoms:
            if isinstance(a, Func) or (isinstance(a, Bound) and isinstance(a.func, Func)):
                f = a if isinstance(a, Func) else a.func
                n = len(f.node.args.posonlyargs + f.node.args.args) - (1 if isinstance(a, Bound) else 0)
                nreq = n - len(f.defaults)
                others = [I.flat(x) for j, x in enumerate(allv) if j != i and not x.only(Func)]
                args = []
                for k in range(max(nreq, min(n, 1) if name.split(".")[-1] in ELEMENTWISE else 0) if extra is None else 1):
                    x = top("any", *others)
                    x = x.w(tag=I.dom.callback_arg(name, k, others, f.node))
                    if name.startswith(("scipy.optimize", "numpy.vectorize", "scipy.integrate")):
                        x = x.w(atoms=frozenset([T("arr" if "minimize" in name or name.endswith(("differential_evolution", "fmin")) else "num")]))
                    args.append(x)
                start = I.st.copy()
                try:
                    items = I.known_items(extra) if extra is not None else None
                    if items is not None:
                        args += items
                    r = I.call(V([a]), args, {}, node, extra if extra is not None and items is None else None)
                    out = I.join(out, r)
                    I.st = I.join_states(start, I.st)
                except _dead():
                    I.st = start
    return out


def _dead():
    from .interp import Dead
    return Dead


def rtype(I, name, cat_, args):
    last = name.split(".")[-1]
    if cat_ in ("bool_red",):
        return "bool"
    if last in ("isscalar", "hasattr", "isinstance", "callable"):
        return "bool"
    if last in ("isnan", "isfinite", "isinf", "isclose", "logical_and", "logical_or", "logical_not", "greater", "less", "equal"):
        return "any" if not any(isinstance(a, T) and a.t == "arr" for v in args for a in v.atoms) else "arr"
    if cat_ in ("elem", "trig", "invtrig", "mod", "degrad"):
        if name.startswith(("math.", "cmath.")):
            return "num"
        return I.numtype(*args) if args else "any"
    if cat_ in ("view", "copy", "ctor", "ctor_like", "sort", "cum", "index", "argsort", "hist"):
        if last in ("tolist", "item", "meshgrid", "broadcast_arrays", "histogram", "modf", "nonzero"):
            return "any"
        if last in ("real", "imag", "T"):
            return I.numtype(*args)
        if last == "searchsorted" or last == "digitize":
            return "any"
        return "arr"
    if cat_ == "count":
        return "int" if last != "shape" else "any"
    if cat_ == "reduce" or cat_ == "reduce_ord":
        if last in ("argmin", "argmax", "nanargmin", "nanargmax"):
            return "any"
        return "any"
    return "any"


# --------------------------------------------------------------------------- external calls
def ext_call(I, name, args, kw, node, star=None, dstar=None):
    r = I.dom.ext_first(name, args, kw, node)
    if r is not None:
        return r
    h = BUILTIN.get(name)
    if h is not None:
        r = h(I, args, kw, node, star, dstar)
        if r is not None:
            return r
    last = name.split(".")[-1]
    if last in _exc() and (name.startswith("builtins.") or last.endswith(("Error", "Warning", "Exception"))):
        return V([Ext(name)])
    if name.startswith("scipy.stats.rv_continuous.") or name.endswith(".rv_continuous.__init__"):
        # unbound base-class call: rv_continuous.fit(self, ...)
        if args and args[0].refs():
            return bound_ext_call(I, Bound(args[0], Ext(name)), args[1:], kw, node, star, dstar)
    if name in ("copy.copy", "copy.deepcopy"):
        return copy_value(I, args[0], name.endswith("deepcopy"), node=node)
    if name == "functools.partial":
        i = I.newid("partial")
        I.st.new(i, HObj("partial", info=(tuple(args[1:]), dict(kw)), elem=args[0]))
        return V([Ref(i)])
    if name == "types.MethodType" and len(args) == 2 and args[0].atoms and all(isinstance(a, Func) for a in args[0].atoms):
        return V([Bound(args[1], a) for a in args[0].atoms])
    if name in ("dataclasses.field",):
        f = kw.get("default_factory")
        if f is not None:
            return I.call(f, [], {}, node)
        return kw.get("default", ANY)
    if name == "dataclasses.replace" and args:
        outs = []
        for a in args[0].atoms:
            o = I.st.get(a.id) if isinstance(a, Ref) else None
            if o is not None and o.kind == "obj" and o.cls is not None:
                base = {n: o.attrs[n] for n, _ in o.cls.all_fields() if n in o.attrs}
                base.update(kw)
                outs.append(I.instantiate(o.cls, [], base, node))
        if outs:
            return I.joinall(outs)
    if name in ("dataclasses.asdict", "builtins.vars") and args:
        i = I.alloc("dict", "dict")
        for a in args[0].atoms:
            o = I.st.get(a.id) if isinstance(a, Ref) else None
            if o is not None:
                I.st.mut(i).attrs.update(o.attrs)
        return V([Ref(i)])
    if name in ("dataclasses.dataclass", "typing.cast", "functools.wraps", "functools.lru_cache", "functools.cache", "typing.overload"):
        if name == "typing.cast" and len(args) > 1:
            return args[1]
        I.dom.on_unknown_call(Ext(name), V([Ext(name)]), args, kw, node)
        return V([Ext(name + "()")])
    allv = list(args) + list(kw.values()) + ([star] if star is not None else []) + ([dstar] if dstar is not None else [])
    r = I.dom.ext_pre(name, args, kw, node)
    if r is not None:
        return r
    if I.dom.fold_numeric and star is None and dstar is None:
        r = folding.fold_call(I, name, args, kw)
        if r is not None:
            return r
    # --- effects
    if name in INPLACE_FUNCS and len(args) > INPLACE_FUNCS[name]:
        tgt = args[INPLACE_FUNCS[name]]
        regs = I.regions(tgt)
        if regs:
            I.dom.on_mutate(regs, f"in-place call {name}", node, tgt)
    if last == "at" and args:
        regs = I.regions(args[0])
        if regs:
            I.dom.on_mutate(regs, f"in-place call {name}", node, args[0])
        tg = I.flat(I.joinall(allv))
        _upd_arg0(I, node, tg)
    out_kw = kw.get("out")
    if out_kw is not None:
        for x in I.contents(out_kw):
            regs = I.regions(x)
            if regs:
                I.dom.on_mutate(regs, f"out= of {name}", node, x)
    for flag in ("overwrite_input", "overwrite_x", "overwrite_a", "overwrite_b"):
        if flag in kw and I.truth(kw[flag]) is not False and args:
            regs = I.regions(args[0])
            if regs:
                I.dom.on_mutate(regs, f"{flag} of {name}", node, args[0])
    if last == "nan_to_num" and "copy" in kw and I.truth(kw["copy"]) is not True and args:
        regs = I.regions(args[0])
        if regs:
            I.dom.on_mutate(regs, f"copy=False of {name}", node, args[0])
    cb = None
    if any(isinstance(a, (Func, Bound)) for v in allv for a in v.atoms):
        if last == "vectorize":
            f = args[0]
            return V([ExtMeth(f, "__vectorized__")], f.deps)
        cb = run_callbacks(I, name, allv, node, kw)
    fl = [I.flat(a) for a in args]
    fkw = {k: I.flat(v) for k, v in kw.items()}
    flx = [I.flat(x) for x in (star, dstar) if x is not None]
    d, c = EMPTY, EMPTY
    for v in fl + list(fkw.values()) + flx + ([I.flat(cb)] if cb is not None else []):
        d |= v.deps
        c |= v.cdeps
    ca = cat(name)
    mem = EMPTY
    if ca == "view" and args and not (last == "require"):
        src = args[0]
        mem = src.mem
        if last == "broadcast_arrays":
            mem = EMPTY
            for s in args:
                mem |= s.mem
    elif last == "array" and "copy" in kw and I.truth(kw["copy"]) is not True and args:
        mem = args[0].mem
    elif last == "astype" and "copy" in kw and I.truth(kw["copy"]) is not True and args:
        mem = args[0].mem
    elif ca in ("ctor", "ctor_like") or last in ("array", "copy"):
        mem = frozenset([f"new:{I.loc(node)}:{getattr(node, 'col_offset', 0)}"])
    if out_kw is not None:
        for x in I.contents(out_kw):
            mem |= x.mem
    tag = I.dom.ext(name, ca, fl + flx + ([I.flat(cb)] if cb is not None else []), fkw, node)
    if out_kw is not None:
        _upd_out(I, node, d, c, tag, "where" in kw)
    if last == "broadcast_arrays":
        outs = [V([T("arr")], v.deps, v.cdeps, m.mem, tag if v.tag is None else v.tag) for v, m in zip(fl, args)]
        if star is None:
            return V([Tup(outs)])
        i = I.alloc("list", "list")
        I.st.mut(i).elem = V([T("arr")], d, c, mem | (star.mem if star is not None else EMPTY), tag)
        return V([Ref(i)], d, c)
    t = rtype(I, name, ca, fl)
    if name in ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "random.Random"):
        t = "rng"
    elif name.startswith("scipy.optimize."):
        t = "ext:" + name
    if last in ("histogram", "modf", "frexp", "divmod", "quad", "eigh", "eig", "kmeans", "kmeans2", "linregress"):
        pass
    return V([T(t)], d, c, mem, tag)


def _upd_arg0(I, node, f):
    if isinstance(node, ast.Call) and node.args:
        I.lvalue_update(node.args[0], lambda old: old.w(deps=old.deps | f.deps, cdeps=old.cdeps | f.cdeps,
                                                         tag=old.tag if old.tag == f.tag else I.dom.join(old.tag, f.tag)))


def _upd_out(I, node, d, c, tag, partial):
    """f(..., out=x) overwrites x with the result"""
    for k in getattr(node, "keywords", ()):
        if k.arg == "out" and not (isinstance(k.value, ast.Constant) and k.value.value is None):
            whole = isinstance(k.value, (ast.Name, ast.Attribute)) and not partial
            for e in (k.value.elts if isinstance(k.value, ast.Tuple) else [k.value]):
                I.lvalue_update(e, lambda old: old if old.consts() == [None] else old.w(
                    deps=old.deps | d, cdeps=old.cdeps | c, tag=tag if whole else I.dom.join(old.tag, tag)))


_EXC = None


def _exc():
    global _EXC
    if _EXC is None:
        from .interp import EXC_NAMES
        _EXC = EXC_NAMES
    return _EXC


def copy_value(I, v, deep, depth=0, memo=None, node=None):
    """copy.copy / copy.deepcopy; a site executed again in the same frame (a loop) reuses its abstract copies"""
    memo = {} if memo is None else memo
    outs = set()
    for a in v.atoms:
        if isinstance(a, Ref):
            o = I.st.get(a.id)
            if o is not None and o.kind in ("list", "dict", "set", "obj"):
                if a.id in memo:
                    outs.add(Ref(memo[a.id]))
                    continue
                root = I.copyroot.get(a.id, a.id)
                key = (I.ctxs[-1].frame if I.ctxs else None, id(node) if node is not None else id(v), root)
                i = I.copysite.get(key) if node is not None else None
                again = i is not None and i in I.st.heap
                if i is None:
                    i = I.newid("copy")
                    I.copysite[key] = i
                I.copyroot[i] = root
                memo[a.id] = i
                n = o.copy()
                n.mem = EMPTY
                if not again:
                    I.st.new(i, n)
                if deep:
                    if depth < 6:
                        for k in list(n.attrs):
                            n.attrs[k] = copy_value(I, n.attrs[k], True, depth + 1, memo, node)
                        if n.items is not None:
                            n.items = [copy_value(I, x, True, depth + 1, memo, node) for x in n.items]
                        if n.elem is not None:
                            n.elem = copy_value(I, n.elem, True, depth + 1, memo, node)
                if again:
                    I.st.heap[i] = I.join_obj(I.st.heap[i], n, None, EMPTY, EMPTY)
                    I.st.owned.add(i)
                outs.add(Ref(i))
                continue
        elif isinstance(a, Tup) and deep:
            outs.add(Tup([copy_value(I, x, True, depth + 1, memo, node) for x in a.items]))
            continue
        outs.add(a)
    return V(frozenset(outs), v.deps, v.cdeps, EMPTY, v.tag)


# --------------------------------------------------------------------------- builtins
BUILTIN = {}


def bi(*names):
    def d(f):
        for n in names:
            BUILTIN["builtins." + n if "." not in n else n] = f
        return f
    return d


@bi("len")
def b_len(I, args, kw, node, star, dstar):
    if not args:
        return None
    v = args[0]
    k = I.known_items(v)
    f = I.flat(v)
    tag = I.dom.ext("builtins.len", "count", [f], {}, node)
    if k is not None:
        return V([C(len(k))], v.deps, v.cdeps, EMPTY, tag)
    ok, c = v.const()
    if ok and isinstance(c, str):
        return V([C(len(c))], v.deps, v.cdeps, EMPTY, tag)
    return V([T("int")], f.deps, f.cdeps, EMPTY, tag)


@bi("range")
def b_range(I, args, kw, node, star, dstar):
    cs = [a.const() for a in args]
    d, c = I.flatdeps(*args) if args else (EMPTY, EMPTY)
    tag = I.dom.ext("builtins.range", "range", [I.flat(a) for a in args], {}, node)
    if args and all(o and isinstance(x, int) for o, x in cs):
        return V([C(range(*[x for _, x in cs]))], d, c, EMPTY, tag)
    return V([T("range")], d, c, EMPTY, tag)


@bi("isinstance")
def b_isinstance(I, args, kw, node, star, dstar):
    if len(args) < 2:
        return None
    v, tv = args[0], args[1]
    res = {isinstance_atom(I, a, tv) for a in v.atoms if not isinstance(a, U)}
    atoms = [C(x) if x is not None else T("bool") for x in res]
    return V(atoms, EMPTY, v.cdeps)


@bi("issubclass")
def b_issub(I, args, kw, node, star, dstar):
    return V([T("bool")])


@bi("callable")
def b_callable(I, args, kw, node, star, dstar):
    res = {callable_atom(I, a) for a in args[0].atoms}
    return V([C(x) if x is not None else T("bool") for x in res], EMPTY, args[0].cdeps)


def has_attr(I, a, name, node):
    if isinstance(a, Ref):
        o = I.st.get(a.id)
        if o is None:
            return None
        if o.kind == "obj":
            if name in o.attrs:
                us = [x for x in o.attrs[name].atoms if isinstance(x, U)]
                if us:
                    return False if len(us) == len(o.attrs[name].atoms) else None
                return True
            if o.cls is not None:
                if o.cls.find(name)[1] is not None:
                    return True
                if o.cls.ext_bases():
                    return None
            return None if o.open else False
        t = {"list": list, "dict": dict, "set": set}.get(o.kind)
        if t:
            return hasattr(t, name)
        return None
    if isinstance(a, T):
        if a.t == "arr":
            return name in NP_ATTRS or name.startswith("__")
        if a.t in ("num", "int"):
            return True if name in NP_ATTRS else False
        if a.t == "str":
            return hasattr(str, name)
        if a.t == "seq":
            return hasattr(list, name)
        return None
    if isinstance(a, C):
        return hasattr(a.v, name)
    if isinstance(a, Tup):
        return hasattr(tuple, name)
    if isinstance(a, ClassA):
        return True if a.cls.find(name)[1] is not None else None
    return None


@bi("hasattr")
def b_hasattr(I, args, kw, node, star, dstar):
    ok, name = args[1].const()
    if not ok:
        return V([T("bool")])
    res = {has_attr(I, a, name, node) for a in args[0].atoms if not isinstance(a, U)}
    return V([C(x) if x is not None else T("bool") for x in res], EMPTY, args[0].cdeps)


@bi("getattr")
def b_getattr(I, args, kw, node, star, dstar):
    ok, name = args[1].const()
    if ok and isinstance(name, str):
        I.dom.on_getattr_call(args[0], name, node, len(args) > 2) if hasattr(I.dom, "on_getattr_call") else None
        return I.getattr(args[0], name, node, args[2] if len(args) > 2 else None)
    cs = args[1].consts()
    if cs and all(isinstance(x, str) for x in cs):
        outs = []
        for x in cs:
            outs.append(I.getattr(args[0], x, node, args[2] if len(args) > 2 else None))
        return I.joinall(outs)
    return top("any", *args)


@bi("setattr")
def b_setattr(I, args, kw, node, star, dstar):
    ok, name = args[1].const()
    if ok and isinstance(name, str):
        I.setattr(args[0], name, args[2], node)
    else:
        for a in args[0].atoms:
            o = I.st.get(a.id) if isinstance(a, Ref) else None
            if o is not None and o.kind == "obj":
                if o.mem:
                    I.dom.on_mutate(o.mem, "setattr", node, args[0])
                I.st.mut(a.id).open = True
    return NONE


@bi("object.__setattr__", "builtins.object.__setattr__")
def b_osetattr(I, args, kw, node, star, dstar):
    if len(args) == 3:
        ok, name = args[1].const()
        if ok:
            for a in args[0].atoms:
                o = I.st.get(a.id) if isinstance(a, Ref) else None
                if o is not None and o.kind == "obj":
                    if o.mem:
                        I.dom.on_mutate(o.mem, "object.__setattr__", node, args[0])
                    I.st.mut(a.id).attrs[name] = args[2]
    return NONE


BUILTIN["builtins.object.__setattr__"] = b_osetattr


@bi("list", "tuple", "set", "frozenset", "sorted", "reversed")
def b_list(I, args, kw, node, star, dstar):
    nm = node.func.id if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) else "list"
    if not args:
        return V([Tup([])]) if nm == "tuple" else I.mklist([], "set" if nm in ("set", "frozenset") else "list")
    v = args[0]
    if nm == "sorted":
        if any(isinstance(a, (Func, Bound)) for x in kw.values() for a in x.atoms):
            for x in kw.values():
                for a in x.atoms:
                    if isinstance(a, (Func, Bound)):
                        try:
                            I.call(V([a]), [I.elem(v)], {}, node)
                        except _dead():
                            pass
        fv = I.flat(v)
        tag = I.dom.ext("builtins.sorted", "sort", [fv], {k: I.flat(x) for k, x in kw.items()}, node)
        i = I.alloc("list", "list")
        e = I.elem(v)
        I.st.mut(i).elem = e.w(tag=tag)
        return V([Ref(i)], v.deps, v.cdeps)
    k = I.known_items(v)
    if k is not None and nm in ("list", "tuple", "reversed"):
        if nm == "reversed":
            k = k[::-1]
        return V([Tup(k)], v.deps, v.cdeps) if nm == "tuple" else I.mklist(k).w(deps=v.deps, cdeps=v.cdeps)
    e = I.elem(v)
    if nm in ("set", "frozenset"):
        e = e.w(tag=I.dom.ext("builtins.set", "set", [I.flat(v)], {}, node))
    i = I.alloc("set" if nm in ("set", "frozenset") else "list", "list")
    I.st.mut(i).elem = e
    return V([Ref(i)], v.deps, v.cdeps)


@bi("dict")
def b_dict(I, args, kw, node, star, dstar):
    i = I.alloc("dict", "dict")
    for a in args:
        I.dict_merge(i, a)
    for k, v in kw.items():
        I.st.mut(i).attrs[k] = v
    if dstar is not None:
        I.dict_merge(i, dstar)
    return V([Ref(i)])


@bi("enumerate")
def b_enum(I, args, kw, node, star, dstar):
    k = I.known_items(args[0])
    if k is not None and len(k) <= 12:
        return I.mklist([V([Tup([const(i), x])]) for i, x in enumerate(k)]).w(deps=args[0].deps, cdeps=args[0].cdeps)
    i = I.alloc("list", "enum")
    e = I.elem(args[0])
    ix = V([T("int")], EMPTY, EMPTY, EMPTY, I.dom.ext("builtins.range", "range", [I.flat(args[0])], {}, node))
    I.st.mut(i).elem = V([Tup([ix, e])])
    return V([Ref(i)], args[0].deps, args[0].cdeps)


@bi("zip")
def b_zip(I, args, kw, node, star, dstar):
    if star is not None:
        e = I.elem(star)
        i = I.alloc("list", "zip")
        j = I.alloc("list", "zipt")
        I.st.mut(j).elem = I.elem(e)
        I.st.mut(i).elem = V([Ref(j)])
        return V([Ref(i)], star.deps, star.cdeps)
    ks = [I.known_items(a) for a in args]
    d, c = EMPTY, EMPTY
    for a in args:
        d |= a.deps
        c |= a.cdeps
    if ks and all(k is not None for k in ks) and len(ks[0]) <= 12:
        return I.mklist([V([Tup(list(t))]) for t in zip(*ks)]).w(deps=d, cdeps=c)
    i = I.alloc("list", "zip")
    I.st.mut(i).elem = V([Tup([I.elem(a) for a in args])])
    return V([Ref(i)], d, c)


@bi("map", "filter")
def b_map(I, args, kw, node, star, dstar):
    nm = node.func.id if isinstance(node.func, ast.Name) else "map"
    es = [I.elem(a) for a in args[1:]]
    try:
        r = I.call(args[0], es, {}, node)
    except _dead():
        r = ANY
    i = I.alloc("list", "map")
    I.st.mut(i).elem = r if nm == "map" else es[0]
    d, c = I.flatdeps(*args[1:])
    return V([Ref(i)], d, c)


@bi("print")
def b_print(I, args, kw, node, star, dstar):
    for a in args:
        pass
    I.dom.on_print(node) if hasattr(I.dom, "on_print") else None
    return NONE


@bi("type")
def b_type(I, args, kw, node, star, dstar):
    outs = set()
    for a in args[0].atoms:
        o = I.st.get(a.id) if isinstance(a, Ref) else None
        if o is not None and o.kind == "obj" and o.cls is not None:
            outs.add(ClassA(o.cls))
        else:
            outs.add(T("any"))
    return V(outs, EMPTY, args[0].cdeps)


@bi("iter")
def b_iter(I, args, kw, node, star, dstar):
    return args[0] if args else None


@bi("next")
def b_next(I, args, kw, node, star, dstar):
    e = I.elem(args[0])
    if len(args) > 1:
        e = I.join(e, args[1])
    return e


@bi("slice")
def b_slice(I, args, kw, node, star, dstar):
    a = [x for x in args]
    if len(a) == 1:
        return V([Slice(None, a[0], None)])
    return V([Slice(a[0] if a else None, a[1] if len(a) > 1 else None, a[2] if len(a) > 2 else None)])


@bi("int", "float", "bool", "str", "complex")
def b_cast(I, args, kw, node, star, dstar):
    nm = node.func.id if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) else None
    if nm is None or nm not in ("int", "float", "bool", "str", "complex"):
        nm = "float"
    if not args:
        return V([C({"int": 0, "float": 0.0, "bool": False, "str": "", "complex": 0j}[nm])])
    v = args[0]
    f = I.flat(v)
    tag = I.dom.ext("builtins." + nm, "cast", [f], {}, node)
    cs = v.consts()
    if cs is not None and len(cs) == 1 and (nm != "str" or isinstance(cs[0], (str, int))):
        try:
            return V([C(getattr(builtins, nm)(cs[0]))], v.deps, v.cdeps, EMPTY, tag)
        except Exception:
            from .interp import Dead
            I.do_raise("ValueError" if isinstance(cs[0], str) or isinstance(cs[0], float) else "TypeError", node)
            raise Dead()
    if nm == "bool":
        t = I.truth(v)
        if t is not None:
            return V([C(t)], f.deps, f.cdeps, EMPTY, tag)
    return V([T({"int": "int", "float": "num", "complex": "num", "bool": "bool", "str": "str"}[nm])], f.deps, f.cdeps, EMPTY, tag)


@bi("numpy.isscalar")
def b_isscalar(I, args, kw, node, star, dstar):
    res = set()
    for a in args[0].atoms:
        if isinstance(a, C):
            res.add(a.v is not None and not isinstance(a.v, range))
        elif isinstance(a, (Tup, Ref)):
            res.add(False)
        elif isinstance(a, T) and a.t == "arr":
            res.add(False)
        elif isinstance(a, T) and a.t in ("num", "int", "bool", "str"):
            res.add(True)
        else:
            res.add(None)
    return V([C(x) if x is not None else T("bool") for x in res], EMPTY, args[0].cdeps)


@bi("round")
def b_round(I, args, kw, node, star, dstar):
    return None


@bi("vars")
def b_vars(I, args, kw, node, star, dstar):
    if args:
        return I.getattr(args[0], "__dict__", node)
    return ANY


# --------------------------------------------------------------------------- methods of values
def method_call(I, m, args, kw, node, star=None, dstar=None):
    recv, name = m.recv, m.name
    allv = list(args) + list(kw.values()) + ([star] if star is not None else []) + ([dstar] if dstar is not None else [])
    if name == "__vectorized__":
        es = [I.elem(a) if not a.only(C) else a for a in args]
        r = I.call(recv, es, {k: (I.elem(v) if not v.only(C) else v) for k, v in kw.items()}, node)
        f = I.flat(r)
        return V([T("arr")], f.deps, f.cdeps, EMPTY, f.tag)
    outs = []
    for a in recv.atoms:
        rv = recv.w(atoms=[a], sn=recv.sn)
        if isinstance(a, Ref):
            o = I.st.get(a.id)
            if o is not None and o.kind in ("list", "set"):
                outs.append(list_method(I, a, o, rv, name, args, kw, node))
                continue
            if o is not None and o.kind == "dict":
                outs.append(dict_method(I, a, o, rv, name, args, kw, node, dstar))
                continue
        if isinstance(a, C) and isinstance(a.v, str) or isinstance(a, T) and a.t == "str":
            outs.append(str_method(I, a, rv, name, args, kw, node))
            continue
        if isinstance(a, Tup) and name in ("index", "count"):
            outs.append(V([T("int")], *I.flatdeps(rv, *args)))
            continue
        outs.append(value_method(I, a, rv, name, args, kw, node, star, dstar))
    return I.joinall([o for o in outs if o is not None] or [ANY])


def str_method(I, a, rv, name, args, kw, node):
    d, c = I.flatdeps(rv, *args)
    if isinstance(a, C) and all(x.const()[0] for x in args) and name in ("lower", "upper", "casefold", "lstrip", "rstrip", "removeprefix", "removesuffix", "strip", "startswith", "endswith", "replace", "title", "capitalize"):
        try:
            return V([C(getattr(a.v, name)(*[x.const()[1] for x in args]))], d, c)
        except Exception:
            pass
    if isinstance(a, C) and name == "split" and not kw and all(x.const()[0] and isinstance(x.const()[1], (str, type(None), int)) for x in args):
        try:
            return I.mklist([V([C(p)]) for p in a.v.split(*[x.const()[1] for x in args])]).w(deps=d, cdeps=c)
        except Exception:
            pass
    if name in ("split", "splitlines", "rsplit"):
        i = I.alloc("list", "list")
        I.st.mut(i).elem = V([T("str")], d, c)
        return V([Ref(i)], d, c)
    if name in ("startswith", "endswith", "isdigit", "isidentifier", "isalpha"):
        return V([T("bool")], d, c)
    if name in ("find", "index", "count"):
        return V([T("int")], d, c)
    return V([T("str")], d, c)


def list_method(I, a, o, rv, name, args, kw, node):
    if name in LIST_MUT:
        if o.mem:
            I.dom.on_mutate(o.mem, f"list.{name}", node, rv)
        o = I.st.mut(a.id)
        av = args[0] if args else NONE
        pc = I.pcdeps(I.ctxs[-1]) if I.ctxs else EMPTY
        if name in ("append", "add", "appendleft"):
            av = I.dom.on_store(rv, NONE, av, node)
            if o.items is not None and len(o.items) < 24 and o.kind == "list":
                o.items.append(av)
            else:
                if o.items:
                    o.elem = I.join(o.elem, I.joinall(o.items))
                o.items = None
                o.elem = I.join(o.elem, av)
            return NONE
        if name in ("extend", "update"):
            k = I.known_items(av)
            if k is not None and o.items is not None and len(k) + len(o.items) < 24:
                o.items.extend(k)
            else:
                if o.items:
                    o.elem = I.join(o.elem, I.joinall(o.items))
                o.items = None
                o.elem = I.join(o.elem, I.elem(av))
            return NONE
        if name == "insert":
            ok, k = av.const()
            if o.items is not None and len(args) > 1 and ok and isinstance(k, int) and len(o.items) < 24 and o.kind == "list":
                o.items.insert(k, args[1])
                return NONE
            if o.items:
                o.elem = I.join(o.elem, I.joinall(o.items))
            o.items = None
            o.elem = I.join(o.elem, args[1] if len(args) > 1 else ANY)
            return NONE
        if name == "pop":
            ok, k = av.const()
            if o.items is not None and o.items and (not args or (ok and isinstance(k, int) and -len(o.items) <= k < len(o.items))):
                return o.items.pop(k if args else -1)
            allv = (o.items or []) + ([o.elem] if o.elem is not None else [])
            r = I.joinall(allv) if allv else ANY
            if o.items:
                o.elem, o.items = r, None
            return r
        if name == "clear":
            o.items, o.elem = [], None
            return NONE
        if name == "sort":
            I.dom.on_inplace_sort(rv, node) if hasattr(I.dom, "on_inplace_sort") else None
            allv = (o.items or []) + ([o.elem] if o.elem is not None else [])
            if allv:
                e = I.joinall(allv)
                o.items = None
                o.elem = e.w(tag=I.dom.ext("builtins.sorted", "sort", [e], {}, node))
            return NONE
        if name == "reverse":
            if o.items is not None:
                o.items.reverse()
            return NONE
        if name in ("remove", "discard"):
            if o.items is not None:
                o.elem = I.join(o.elem, I.joinall(o.items)) if o.items else o.elem
                o.items = None
            return NONE
        return ANY
    if name == "copy":
        return copy_value(I, V([a]), False)
    if name in ("index", "count"):
        return V([T("int")], *I.flatdeps(rv, *args))
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        i = I.alloc("set", "set")
        I.st.mut(i).elem = I.joinall([I.elem(rv)] + [I.elem(x) for x in args])
        return V([Ref(i)])
    if name in ("issubset", "issuperset", "isdisjoint"):
        return V([T("bool")], *I.flatdeps(rv, *args))
    return top("any", I.flat(rv))


def _clean(I, v):
    if any(isinstance(q, U) for q in v.atoms):
        return v.w(atoms=frozenset(q for q in v.atoms if not isinstance(q, U)) or [T("any")])
    return v


def dict_method(I, a, o, rv, name, args, kw, node, dstar=None):
    cs = args[0].consts() if args else None
    if name in LIST_MUT:
        if o.mem:
            I.dom.on_mutate(o.mem, f"dict.{name}", node, rv)
    if name in ("get", "pop", "setdefault"):
        outs = []
        dflt = args[1] if len(args) > 1 else kw.get("default", NONE if name != "pop" else None)
        if cs is not None:
            for k in cs:
                x = o.attrs.get(k)
                if x is not None:
                    outs.append(_clean(I, x))
                    if any(isinstance(q, U) for q in x.atoms) and dflt is not None:
                        outs.append(dflt)
                else:
                    if o.open or o.elem is not None:
                        outs.append(o.elem if o.elem is not None else top("any", rv))
                    if dflt is not None:
                        outs.append(dflt)
                    elif not (o.open or o.elem is not None):
                        I.dom.on_missing_key(o, k, node, True)
                if name == "pop" and x is not None:
                    o = I.st.mut(a.id)
                    if len(cs) == 1:
                        o.attrs.pop(k, None)
                if name == "setdefault" and dflt is not None and (x is None or any(isinstance(q, U) for q in x.atoms)):
                    I.dom.on_store(rv, args[0], dflt, node)
                    I.st.mut(a.id).attrs[k] = I.joinall(outs)
        else:
            outs = [_clean(I, x) for x in o.attrs.values()] + ([o.elem] if o.elem is not None else [])
            if dflt is not None:
                outs.append(dflt)
            if name == "pop":
                I.st.mut(a.id).open = True
            if name == "setdefault" and dflt is not None:
                I.dom.on_store(rv, args[0], dflt, node)
                I.dict_set(a.id, args[0], dflt)
        if not outs:
            I.do_raise("KeyError", node)
            raise _dead()()
        v = I.joinall(outs)
        f = I.flat(args[0]) if args else NONE
        if f.deps - v.deps or rv.deps - v.deps:
            v = v.w(deps=v.deps | f.deps | rv.deps)
        return I.dom.on_lookup(rv, args[0], v, node) if args else v
    if name in ("keys", "__iter__"):
        k = [const(x) for x in o.attrs]
        if o.open:
            i = I.alloc("list", "keys")
            I.st.mut(i).elem = I.joinall(k + [V([T("str")], rv.deps)])
            return V([Ref(i)], rv.deps, rv.cdeps)
        return I.mklist(k)
    if name == "values":
        if o.open or o.elem is not None:
            i = I.alloc("list", "vals")
            I.st.mut(i).elem = I.joinall([_clean(I, x) for x in o.attrs.values()] + [o.elem if o.elem is not None else top("any", rv)])
            return V([Ref(i)], rv.deps, rv.cdeps)
        return I.mklist([_clean(I, x) for x in o.attrs.values()])
    if name == "items":
        if o.open or o.elem is not None:
            i = I.alloc("list", "items")
            ks = I.joinall([const(x) for x in o.attrs] + [V([T("str")], rv.deps)])
            vs = I.joinall([_clean(I, x) for x in o.attrs.values()] + [o.elem if o.elem is not None else top("any", rv)])
            I.st.mut(i).elem = V([Tup([ks, vs])])
            return V([Ref(i)], rv.deps, rv.cdeps)
        return I.mklist([V([Tup([const(k), _clean(I, v)])]) for k, v in o.attrs.items()])
    if name == "update":
        for x in args:
            I.dict_merge(a.id, x)
        for k, x in kw.items():
            I.st.mut(a.id).attrs[k] = x
        if dstar is not None:
            I.dict_merge(a.id, dstar)
        return NONE
    if name == "copy":
        return copy_value(I, V([a]), False)
    if name == "clear":
        o = I.st.mut(a.id)
        o.attrs, o.elem, o.open = {}, None, False
        return NONE
    if name in ("popitem", "move_to_end"):
        o = I.st.mut(a.id)
        o.open = True
        allv = [_clean(I, x) for x in o.attrs.values()] + ([o.elem] if o.elem is not None else [])
        return V([Tup([V([T("any")]), I.joinall(allv) if allv else ANY])])
    return top("any", I.flat(rv))


def value_method(I, a, rv, name, args, kw, node, star, dstar):
    allv = list(args) + list(kw.values()) + ([star] if star is not None else []) + ([dstar] if dstar is not None else [])
    if isinstance(a, T) and (a.t == "rng" or a.t.startswith("ext:")):
        full = a.t + "." + name
        if name == "shuffle" and args:
            regs = I.regions(args[0])
            if regs:
                I.dom.on_mutate(regs, "rng.shuffle", node, args[0])
        return generic_method(I, full, rv, args, kw, node, star, dstar)
    isarr = isinstance(a, T) and a.t in ("arr", "num", "int", "any", "bool", "seq") or isinstance(a, (C, Tup, ExtMeth))
    if name in METHOD_TO_NP and isarr:
        return ext_call(I, "numpy." + name, [rv] + list(args), kw, node, star, dstar)
    if name in INPLACE_METH and isarr:
        regs = I.regions(rv)
        if regs:
            I.dom.on_mutate(regs, f"in-place method .{name}", node, rv)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            f = I.flat(I.joinall(allv)) if allv else NONE
            if name == "sort":
                I.lvalue_update(node.func.value, lambda old: old.w(tag=I.dom.ext("numpy.sort", "sort", [old], {}, node)))
            else:
                I.lvalue_update(node.func.value, lambda old: old.w(deps=old.deps | f.deps, cdeps=old.cdeps | f.cdeps, tag=I.dom.join(old.tag, f.tag)))
        return NONE
    if name in LIST_MUT and isinstance(a, T) and a.t in ("any", "seq", "dict") and not (name in ("sort",)):
        regs = I.regions(rv)
        if regs:
            I.dom.on_mutate(regs, f"method .{name}", node, rv)
    if name == "shuffle" and args:
        regs = I.regions(args[0])
        if regs:
            I.dom.on_mutate(regs, "shuffle", node, args[0])
        t = I.flat(rv)
        _upd_arg0(I, node, V(EMPTY, t.deps, t.cdeps, EMPTY, t.tag))
    return generic_method(I, "?." + name, rv, args, kw, node, star, dstar)


def generic_method(I, full, rv, args, kw, node, star, dstar):
    allv = list(args) + list(kw.values()) + ([star] if star is not None else []) + ([dstar] if dstar is not None else [])
    r = I.dom.ext_pre(full, [rv] + list(args), kw, node)
    if r is not None:
        return r
    out_kw = kw.get("out")
    if out_kw is not None:
        regs = I.regions(out_kw)
        if regs:
            I.dom.on_mutate(regs, f"out= of .{full}", node, out_kw)
    last = full.split(".")[-1]
    cb = run_callbacks(I, full, ([rv] if last in ELEMENTWISE else []) + allv, node, kw)
    fl = [I.flat(rv)] + [I.flat(x) for x in args] + [I.flat(x) for x in (star, dstar) if x is not None]
    fk = {k: I.flat(v) for k, v in kw.items()}
    if cb is not None:
        fl.append(I.flat(cb))
    d, c = EMPTY, EMPTY
    for v in fl + list(fk.values()):
        d |= v.deps
        c |= v.cdeps
    tag = I.dom.ext(full, "method", fl, fk, node)
    if out_kw is not None:
        _upd_out(I, node, d, c, tag, "where" in kw)
    t = "any"
    if full.startswith("rng."):
        t = "any"
    return V([T(t)], d, c, EMPTY, tag)


# --------------------------------------------------------------------------- scipy.stats.rv_continuous
def ext_base_init(I, oid, cls, args, kw, node, star=None, dstar=None):
    if any("rv_continuous_frozen" in b for b in cls.ext_bases()):
        return frozen_init(I, oid, args, kw, star, dstar)
    o = I.st.mut(oid)
    for k, v in kw.items():
        o.attrs.setdefault(k, v)
    o.attrs.setdefault("name", kw.get("name", V([T("str")])))
    o.attrs.setdefault("_random_state", V([T("rng")], frozenset(["self._random_state"])))
    o.attrs.setdefault("random_state", V([T("rng")], frozenset(["self._random_state"])))
    names = shape_names(o.cls)
    if o.attrs.get("shapes", NONE).is_const(None):
        o.attrs["shapes"] = V([T("str")]) if names is None else const(", ".join(names))
    o.attrs.setdefault("numargs", V([T("int")]) if names is None else const(len(names)))
    for k in ("a", "b", "badvalue", "xtol", "moment_type"):
        o.attrs.setdefault(k, V([T("num")]))


RV_FALL = {"pdf": ["_pdf", "_logpdf"], "logpdf": ["_logpdf", "_pdf"], "cdf": ["_cdf", "_pdf"], "logcdf": ["_logcdf", "_cdf", "_pdf"],
           "sf": ["_sf", "_cdf", "_pdf"], "logsf": ["_logsf", "_sf", "_cdf", "_pdf"], "ppf": ["_ppf", "_cdf", "_pdf"], "isf": ["_isf", "_ppf", "_cdf"]}


def shape_names(cls):
    """the order of the shape parameters: explicit `shapes` inspection as in scipy (signature of _pdf, else _cdf)"""
    for nm in ("_pdf", "_cdf"):
        m = cls.find(nm)[1]
        f = next(iter(m.atoms)) if m is not None else None
        if isinstance(f, Func):
            return [a.arg for a in f.node.args.args][2:]
    return None


def parse_args(I, o, last, args, kw, node):
    """scipy's generated argument parser: (shapes), loc, scale[, size | moments]"""
    names = shape_names(o.cls)
    if names is None:
        return None
    kw = dict(kw)
    tail = ["loc", "scale"] + (["size"] if last.endswith("rvs") else ["moments"] if last.endswith("stats") else [])
    dflt = {"loc": const(0), "scale": const(1), "size": NONE, "moments": const("mv")}
    vals = dict(zip(names + tail, args))
    if len(args) > len(names + tail) or set(kw) - set(names + tail) or set(kw) & set(vals):
        I.do_raise("TypeError", node)
        raise _dead_()
    vals.update(kw)
    if any(n not in vals for n in names):
        I.do_raise("TypeError", node)
        raise _dead_()
    return V([Tup([V([Tup([vals[n] for n in names])])] + [vals.get(t, dflt[t]) for t in tail])])


def _dead_():
    return _dead()()


def bound_ext_call(I, b, args, kw, node, star=None, dstar=None):
    name = b.func.name
    last = name.split(".")[-1]
    recv = b.recv
    rid = recv.refs()
    o = I.st.get(rid[0]) if rid else None
    if last == "__init__":
        if o is not None and "rv_continuous_frozen" in name:
            frozen_init(I, rid[0], args, kw, star, dstar)
        elif o is not None:
            ext_base_init(I, rid[0], o.cls, args, kw, node)
        return NONE
    if last == "__setattr__" and len(args) == 2:
        return b_osetattr(I, [recv] + list(args), kw, node, star, dstar)
    if last in ("__repr__", "__str__"):
        return V([T("str")])
    if o is not None and o.cls is not None and "rv_continuous_frozen" in name:
        return frozen_call(I, recv, o, last, args, kw, node, star, dstar)
    if o is None or o.cls is None or "rv_continuous" not in name and "rv_generic" not in name:
        f = [I.flat(x) for x in list(args) + list(kw.values())]
        run_callbacks(I, name, list(args) + list(kw.values()), node)
        return top("any", *f, tag=I.dom.ext(name, None, [I.flat(recv)] + f, {}, node))
    r = I.dom.ext_pre(name, [recv] + list(args), kw, node)
    if r is not None:
        return r

    def priv(nm, a, k=None):
        ci, m = o.cls.find(nm)
        if m is None:
            return None
        try:
            return I.call(V([Bound(recv, next(iter(m.atoms)))]), a, k or {}, node, star)
        except _dead():
            from .interp import Dead
            raise Dead()
    shapes = list(args)
    kwshape = {k: v for k, v in kw.items() if k not in ("loc", "scale", "size", "random_state", "method", "moments")}
    fl = [I.flat(x) for x in list(args) + list(kw.values()) + ([star] if star is not None else [])]
    loc_scale = None
    if (last in RV_FALL or last in ("rvs", "stats", "entropy", "mean", "median", "var", "std", "interval", "support", "moment")) and star is None and dstar is None:
        # scipy splits the arguments with the (possibly overridden) parser of the instance
        lead_n = 1 if last in RV_FALL or last in ("interval", "moment") else 0
        pk = {k: v for k, v in kw.items() if k not in (("x", "q", "order", "confidence") if last != "rvs" else ("random_state",)) and not (k == "moments" and last != "stats")}
        r = I.call(I.getattr(recv, "_parse_args_rvs" if last == "rvs" else "_parse_args_stats" if last == "stats" else "_parse_args", node), list(args[lead_n:]), pk, node)
        t = [a for a in r.atoms if isinstance(a, Tup)]
        if len(t) == 1 and len(r.atoms) == 1 and len(t[0].items) >= 3:
            inner = [a for a in t[0].items[0].atoms if isinstance(a, Tup)]
            if len(inner) == 1:
                loc_scale = t[0].items[1:3]
                parsed = list(inner[0].items)
                I.dom.rv_locscale(recv, last, loc_scale[0], loc_scale[1], node)
    if last in RV_FALL:
        x, shapes = args[0] if args else kw.get("x", kw.get("q", ANY)), list(args[1:])
        shapes = shapes + list(kwshape.values()) if loc_scale is None else parsed
        I.dom.rv_check(recv, shapes, last, node)
        if o.cls.find("_argcheck")[1] is not None:
            st = I.st.copy()
            try:
                priv("_argcheck", [s.w(mem=EMPTY) for s in shapes])
            except _dead():
                I.st = st
        xv = I.flat(x)
        xv = I.dom.rv_arg(last, V([T("arr")], xv.deps, xv.cdeps, EMPTY, xv.tag))
        sh = [I.dom.rv_shape(last, V([T("arr")] if not s.only(C) else s.atoms, s.deps, s.cdeps, EMPTY, s.tag)) for s in shapes]
        for nm in RV_FALL[last]:
            if o.cls.find(nm)[1] is not None:
                r = priv(nm, [xv] + sh)
                f = I.flat(r)
                return V([T("any")], f.deps, f.cdeps, EMPTY, I.dom.ext("rv." + last, "rvwrap", [f, xv] + [I.flat(s) for s in sh], {}, node))
        return top("any", *fl, tag=I.dom.ext("rv." + last, None, fl, {}, node))
    if last == "rvs":
        shapes = list(args) + list(kwshape.values()) if loc_scale is None else parsed
        I.dom.rv_check(recv, shapes, "rvs", node)
        if o.cls.find("_argcheck")[1] is not None:
            st = I.st.copy()
            chk = None
            try:
                chk = priv("_argcheck", shapes)
            except _dead():
                I.st = st
            if chk is not None and chk.only(C) and all(x.v is False for x in chk.atoms):
                from .interp import Dead
                I.do_raise("ValueError", node)
                raise Dead()
        I.do_raise("ValueError", node)
        rs = kw.get("random_state")
        selfrs = o.attrs.get("_random_state", V([T("rng")], frozenset(["self._random_state"])))
        if rs is None or rs.only(C):
            rs = selfrs
        k = {"size": V([T("any")], kw["size"].deps) if "size" in kw else NONE, "random_state": rs.w(atoms=frozenset([T("rng")]))}
        m = o.cls.find("_rvs")[1]
        if m is not None:
            f = next(iter(m.atoms))
            names = {p.arg for p in f.node.args.args + f.node.args.kwonlyargs}
            if not f.node.args.kwarg:
                k = {a: b_ for a, b_ in k.items() if a in names}
            r = priv("_rvs", shapes, k)
        elif o.cls.find("_ppf")[1] is not None:
            u = V([T("arr")], rs.deps, rs.cdeps, EMPTY, I.dom.ext("rng.uniform", "method", [rs], {}, node))
            r = priv("_ppf", [u] + shapes)
        else:
            r = top("any", *fl)
        return r
    if last in ("_parse_args", "_parse_args_rvs", "_parse_args_stats") and star is None and dstar is None:
        r = parse_args(I, o, last, args, kw, node)
        if r is not None:
            return r
    if last == "fit":
        return top("any", *fl, tag=I.dom.ext("rv.fit", None, fl, {}, node))
    if last == "expect" and I.dom.model_expect and star is None and dstar is None:
        items = I.known_items(args[1] if len(args) > 1 else kw.get("args", V([Tup([])])))
        if items is not None:
            # scipy integrates func(x) * self.pdf(x, *args, loc=loc, scale=scale) over the support
            items = list(items)
            priv("_argcheck", items)
            x = V([T("num")])
            lk = {n: kw[n] for n in ("loc", "scale") if n in kw}
            r = I.call(I.getattr(recv, "pdf", node), [x] + items, lk, node)
            func = args[0] if args else kw.get("func", NONE)
            g = I.call(func, [x], {}, node) if func.atoms and all(isinstance(a, Func) for a in func.atoms) else None
            fl = fl + [I.flat(r)] + ([I.flat(g)] if g is not None else [])
            return top("any", *fl, tag=I.dom.ext("rv.expect", None, [I.flat(r)] + ([I.flat(g)] if g is not None else []), {}, node))
    if last == "__call__" and o.cls.find("freeze")[1] is not None:
        return priv("freeze", list(args), kw)
    if last in ("__call__", "freeze"):
        return top("any", *fl, tag=I.dom.ext("rv.freeze", None, fl, {}, node))
    return top("any", *fl, tag=I.dom.ext("rv." + last, None, fl, {}, node))


# --------------------------------------------------------------------------- scipy frozen distributions
def frozen_init(I, oid, args, kw, star=None, dstar=None):
    d = I.alloc("dict", "kwds")
    o2 = I.st.mut(d)
    o2.attrs.update(kw)
    if dstar is not None:
        o2.open, o2.elem = True, dstar
    if star is not None:
        i = I.alloc("list", "args")
        I.st.mut(i).elem = I.joinall(list(args[1:]) + [I.elem(star)])
        av = V([Ref(i)], star.deps, star.cdeps)
    else:
        av = V([Tup(list(args[1:]))])
    o = I.st.mut(oid)
    o.attrs["args"] = av
    o.attrs["kwds"] = V([Ref(d)])
    if args:
        o.attrs["dist"] = args[0]
        if star is None and dstar is None and args[0].refs():
            # scipy parses the arguments once when freezing
            I.call(I.getattr(args[0], "_parse_args", None), list(args[1:]), dict(kw), None)
            o = I.st.mut(oid)
    o.attrs.setdefault("random_state", V([T("rng")], frozenset(["self._random_state"])))


FROZEN_SIG = {**{m: ("x",) for m in ("pdf", "logpdf", "cdf", "logcdf", "sf", "logsf")}, "ppf": ("q",), "isf": ("q",), "rvs": ("size", "random_state"),
              **{m: () for m in ("mean", "median", "var", "std", "entropy", "support")}, "moment": ("order",), "interval": ("confidence",)}


def frozen_call(I, recv, o, last, args, kw, node, star=None, dstar=None):
    dist, fargs, fk = o.attrs.get("dist"), o.attrs.get("args"), o.attrs.get("kwds")
    if dist is None or last.startswith("__"):
        f = [I.flat(x) for x in list(args) + list(kw.values())]
        return top("any", *f)
    sig = FROZEN_SIG.get(last)
    if sig is not None and star is None and dstar is None and (len(args) > len(sig) or set(kw) - set(sig)):
        I.do_raise("TypeError", node)
        raise _dead_()
    kwds = {}
    ds = dstar
    for a in fk.atoms:
        k = I.st.get(a.id) if isinstance(a, Ref) else None
        if k is not None:
            kwds.update({n: _clean(I, v) for n, v in k.attrs.items() if isinstance(n, str)})
            if k.open or k.elem is not None:
                ds = I.join(ds, k.elem if k.elem is not None else ANY)
    items = I.known_items(fargs)
    st = None
    if items is None:
        items, st = [], fargs
    lead = []
    if last in ("pdf", "logpdf", "cdf", "logcdf", "sf", "logsf", "ppf", "isf"):
        lead, args = list(args[:1]), list(args[1:])
    if last == "rvs":
        names = ["size", "random_state"]
        for n, v in zip(names, args):
            kwds[n] = v
        kwds.setdefault("size", kw.get("size", NONE))
        kwds.setdefault("random_state", kw.get("random_state", NONE))
        args, kw = [], {}
    if last in ("moment", "expect", "interval"):
        pass
    kwds.update(kw)
    m = I.getattr(dist, last, node)
    return I.call(m, lead + items + list(args), kwds, node, st if st is not None else star, ds)
