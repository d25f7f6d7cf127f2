"""C06: weights act as observation frequencies (weighted-data taint analysis)."""
import ast
from .domain import Domain
from .values import *
from .interp import Program, Interp
from .scen import *
from .util import reachable

RULES = [
    "when weights are given, no total, mean, dispersion, order statistic by position, histogram, rank or test statistic is computed from the observations without the weights",
    "when weights are given, the number of distinct observations (len, size) is not used as a sample size",
    "resamples of weighted observations are drawn from the expanded data or with the weights as probabilities",
    "sorting, extremes, gaps between sorted values, validity checks and per-observation results need no weights; data repeated by their weights are complete",
]
EXPLAIN = ("Every entry point that takes weights (as an argument, in a Circular object, in a distribution fit) is interpreted with weights given and not all one. Observations are "
           "tagged 'unweighted'; multiplying by the weights or repeating by them clears the tag; a total, mean or count of tagged observations puts a label on its result that "
           "follows data and control dependences to the results.")
ASSUME = ["weights are given and not all ones", "the extremes, gaps and order of the observed values do not depend on their frequencies (zero weights aside)",
          "a matrix or dot product of observations with the weights is weighted", "a comparison of the number of distinct values with a constant selects a strategy, not a statistic"]

RED = set("""sum nansum mean nanmean prod nanprod median nanmedian std var nanstd nanvar percentile quantile nanpercentile nanquantile norm count_nonzero fsum logsumexp circmean
circvar circstd iqr mode skew kurtosis sem pearsonr spearmanr kendalltau cov corrcoef mannwhitneyu kruskal ks_2samp ttest_ind wilcoxon f_oneway chisquare kstest anderson_ksamp
linregress polyfit average cumsum cumprod nancumsum cumulative_trapezoid rankdata rank histogram bincount histogram2d value_counts Counter gaussian_kde trapz trapezoid
convolve interp ecdf""".split())
DOT = {"dot", "vdot", "inner", "matmul", "tensordot", "einsum"}
FREE = set("""isnan isfinite isinf isreal isscalar ndim isinstance type hasattr callable dtype print format str repr id zeros_like ones_like full_like empty_like result_type warn
any all min max amin amax nanmin nanmax ptp minimum_ allclose array_equal zeros ones empty full issubdtype is_numeric_dtype bool argmin argmax nanargmin nanargmax
broadcast_shapes eye linspace geomspace logspace enumerate_ cummax cummin""".split())
COUNTCMP = (0, 1, 2)


class Wt(Domain):
    fold_numeric = True
    labels = None

    def __init__(self):
        super().__init__()
        self.labels = {}
        self.weighted = set()
        self.sources = {"D": 0, "W": 0}

    # tags: D observations without weights; W weights; DW observations combined with weights; n number of distinct observations; C counts of equal observations
    #       1 "weights == 1" (all of it: False); 0 "weights != 1" (some of it: True)
    def brk(self, node, what, msg, under=None):
        lab = f"wt:{self.I.qual()}:{what}"
        if lab not in self.labels:
            self.labels[lab] = (self.I.loc(node), self.I.qual(), msg, self.I.path())
        return Brk(lab, under)

    def source(self, role, name, v):
        if role == "angles" or role == "arr" and name in ("x",):
            self.sources["D"] += 1
            return "D"
        if role == "weights":
            self.sources["W"] += 1
            return "W"
        return None

    ORD = ["DP", "DM", "D", "DW", "W", "Wb", "n", "C", "Wi", "1", "0", "rnd"]

    def join(self, a, b):
        if a == b or b is None:
            return a
        if a is None:
            return b
        for k in self.ORD:
            if k in (a, b):
                return k
        return a

    def iter_elem(self, v):
        return v.tag if v.tag in ("D", "W", "DW", "C") else "D" if v.tag in ("DM", "DP") else None

    def unpack_elem(self, v, i, e):
        if v.tag == "n":
            return e.w(tag="n" if i == 0 else None)
        if isinstance(v.tag, tuple):
            return e.w(tag=self.u_item(v.tag, i))
        return e

    def u_item(self, t, i):
        seq = ["D"] + [{"i": None, "v": None, "c": "C"}[k] for k in t[1]]
        return seq[i] if i < len(seq) else "D"

    def unary(self, op, v):
        if op == "not":
            return None
        return v.tag

    def used(self, node):
        self.weighted.add(self.I.loc(node))
        return Brk("weights:used")

    def turn(self, v):
        c = v.consts()
        return bool(c) and all(isinstance(x, (int, float)) and not isinstance(x, bool) and any(abs(x - k) < 1e-9 for k in (6.283185307179586, 3.141592653589793, 360, 180)) for x in c)

    def count_use(self, node):
        return self.brk(node, "count", "the number of distinct observations is used as the sample size although weights were given")

    def comb(self, fn, l, r, node):
        a, b = l.tag, r.tag
        if isinstance(a, tuple):
            a = "D"
        if isinstance(b, tuple):
            b = "D"
        if a is None and b is None:
            return None
        if "C" in (a, b):
            return self.brk(node, "counts", "counts of equal observations are used although weights were given")
        if "rnd" in (a, b):
            o = b if a == "rnd" else a
            return "rnd" if o in (None, "n", "rnd") else o
        if "n" in (a, b):
            if fn == "mod" or self.turn(r if a == "n" else l):
                return None         # even or odd; width of one of n bins
            if fn == "floordiv":
                return None if b != "n" else self.count_use(node)
            if fn in ("add", "sub"):
                o = r if a == "n" else l
                if o.tag is None or o.tag == "n":
                    return "n"
            if fn == "cmp":
                return None
            return self.count_use(node)
        if a in ("DM", "DP") or b in ("DM", "DP"):
            o = b if a in ("DM", "DP") else a
            if o in ("W", "DW"):
                self.weighted.add(self.I.loc(node))
                return "DW"
            return "DP" if "DP" in (a, b) or {"DM", "D"} == {a, b} else "DM"
        if {"D", "W"} == {a, b}:
            if fn in ("mult", "div", "pow", "and"):
                self.weighted.add(self.I.loc(node))
                return "DW"
            return "DW" if fn != "cmp" else None
        if "DW" in (a, b):
            return "DW"
        if a in ("1", "0") or b in ("1", "0"):
            return self.join(*[x if x not in ("1", "0") else "W" for x in (a, b)])
        if "Wb" in (a, b):
            o = b if a == "Wb" else a
            return "Wb" if o in (None, "Wb") and fn in ("and", "op", "cmp") else "W" if o is None else "DW" if o == "D" and fn in ("mult", "div", "pow", "and") else o if o != "Wb" else "W"
        if fn == "cmp" and "W" in (a, b):
            return "Wb"             # which weights ...: as many as there are distinct observations
        return self.join(a, b)

    def bin(self, op, l, r, node):
        o = type(op)
        if o is ast.MatMult:
            return self.dot([l, r], node)
        nm = {ast.Mult: "mult", ast.Div: "div", ast.FloorDiv: "floordiv", ast.Add: "add", ast.Sub: "sub", ast.Pow: "pow", ast.BitAnd: "and", ast.Mod: "mod"}.get(o, "op")
        if isinstance(node, ast.AugAssign) and nm in ("add", "sub", "mult") and isinstance(node.target, ast.Name) and l.tag is None and r.tag in ("D", "DW") and self.in_data_loop(node):
            return self.brk(node, "total", "a running total over the observations ignores the weights") if r.tag == "D" else None
        if isinstance(op, ast.FloorDiv) and r.tag == "n":
            return self.count_use(node)
        return self.comb(nm, l, r, node)

    def in_data_loop(self, node):
        return self.__dict__.get("loops", 0) > 0

    def loop_begin(self, s, it):
        k = self.I.flat(it).tag in ("D", "W", "DW")
        self.__dict__["loops"] = self.__dict__.get("loops", 0) + (1 if k else 0)
        return k

    def loop_end(self, s, it, tok):
        self.__dict__["loops"] = max(0, self.__dict__.get("loops", 0) - (1 if tok else 0))

    def compare(self, op, l, r, node):
        if isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            return None
        a, b = l.tag, r.tag
        if isinstance(op, (ast.Eq, ast.NotEq)) and "W" in (a, b):
            o = r if a == "W" else l
            c = o.consts()
            if c and all(x == 1 for x in c):
                return "1" if isinstance(op, ast.Eq) else "0"
        return self.comb("cmp", l, r, node)

    def index(self, base, idx, kind, node):
        i = self.I.flat(idx)
        if isinstance(base.tag, tuple):
            ok, k = idx.const()
            return self.u_item(base.tag, k) if ok and isinstance(k, int) else "D"
        if base.tag == "n":
            return "n"
        if base.tag == "D" and kind != "slice" and (i.tag == "Wi" or "weights:used" in i.deps | i.cdeps):
            return None             # picked with the help of the weights
        if i.tag in ("W", "Wb", "DW") and kind == "int":
            return None
        if base.tag == "D" and self.newaxis(node):
            return "DM"
        return base.tag

    def newaxis(self, node):
        sl = getattr(node, "slice", None)
        return any(isinstance(p, ast.Constant) and p.value is None or isinstance(p, ast.Attribute) and p.attr == "newaxis" for p in (sl.elts if isinstance(sl, ast.Tuple) else [sl]))

    def axis(self, args, kw):
        a = kw.get("axis")
        if a is None and len(args) > 1:
            a = args[1]
        return a is not None and a.consts() != [None]

    def on_lookup(self, base, idx, v, e):
        if v.tag == "n" and any(isinstance(a, ExtMeth) for a in base.atoms):
            ok, k = idx.const()
            if not (ok and k == 0):
                return v.w(tag=None)
        return v

    def ext_value(self, atom, base):
        return base.tag

    def store_tag(self, base, idx, v):
        return v.tag if v.tag != "n" else None

    def attr(self, recv, name, node):
        t = recv.tag
        if name in ("size", "shape"):
            return "n" if t in ("D", "W", "DW") or isinstance(t, tuple) else None
        if name in ("ndim", "dtype", "nbytes"):
            return None
        return t

    # ---- guards on the weights: they are given and not all ones
    def ext_first(self, name, args, kw, node):
        last = name.split(".")[-1]
        if last in ("all", "alltrue", "any", "sometrue") and len(args) >= 1:
            t = self.I.flat(args[0]).tag
            if t == "1" and last in ("all", "alltrue"):
                return V([C(False)], *self.I.flatdeps(args[0]))
            if t == "0" and last in ("any", "sometrue"):
                return V([C(True)], *self.I.flatdeps(args[0]))
        if last in ("allclose", "array_equal") and len(args) >= 2:
            for a, b in ((args[0], args[1]), (args[1], args[0])):
                if self.I.flat(a).tag == "W" and (b.consts() and all(x == 1 for x in b.consts()) or self.I.flat(b).tag == "ones"):
                    return V([C(False)], *self.I.flatdeps(a))
        if last == "isclose" and len(args) >= 2 and self.I.flat(args[0]).tag == "W" and args[1].consts() and all(x == 1 for x in args[1].consts()):
            d, c = self.I.flatdeps(args[0])
            return V([T("arr")], d, c, EMPTY, "1")
        return None

    def dot(self, vs, node):
        ts = [v.tag for v in vs]
        if "W" in ts or "DW" in ts:
            return self.used(node)
        if sum(t in ("D", "DM", "DP") for t in ts) >= 2:
            return self.brk(node, "dot", "a product sum over the observations ignores the weights")
        return "D" if "D" in ts else None

    def callback_arg(self, name, i, others, fnode):
        if name.startswith(("scipy.optimize", "scipy.integrate")):
            return None
        t = None
        for o in others:
            t = self.join(t, o.tag)
        return t

    def ext(self, name, cat, args, kw, node):
        last = name.split(".")[-1]
        vs = list(args) + list(kw.values())
        tags = ["D" if isinstance(v.tag, tuple) else v.tag for v in vs]
        if name.startswith(("rng.", "numpy.random")) and last not in ("default_rng", "RandomState", "Generator", "SeedSequence") and all(t in (None, "n", "rnd") for t in tags):
            return "rnd"
        if last in ("reshape", "broadcast_to", "resize", "split", "array_split", "tile", "zeros", "ones", "empty", "full") and "n" in tags:
            vs = [v for v in vs if v.tag != "n"]
            args = [v for v in args if v.tag != "n"]
            kw = {k: v for k, v in kw.items() if v.tag != "n"}
            return next((t for t in ("DP", "DM", "D", "DW", "W") if t in tags), None)
        if not any(t is not None for t in tags):
            return None
        if tags[0] == "Wb" and last in ("sum", "count_nonzero", "nansum") or tags[0] == "W" and last == "count_nonzero":
            return "n" if not self.axis(args, kw) else None
        if "Wb" in tags:
            args = [v.w(tag="W", sn=v.sn) if v.tag == "Wb" else v for v in args]
            kw = {k: v.w(tag="W", sn=v.sn) if v.tag == "Wb" else v for k, v in kw.items()}
            vs = list(args) + list(kw.values())
            tags = ["W" if t == "Wb" else t for t in tags]
        main = (args[0].tag if args else tags[0])
        if isinstance(main, tuple):
            main = "D"
        if last in ("len", "size", "shape", "count"):
            return "n" if main in ("D", "W", "DW", "DM", "DP") else None
        rnd = name.startswith(("rng.", "numpy.random", "random.")) or name.startswith("?.") and last in ("permutation", "integers", "choice", "shuffle", "permuted")
        if rnd and last in ("choice", "choices", "permutation", "permuted", "shuffle", "sample"):
            p = kw.get("p") or kw.get("weights")
            if p is not None and p.tag in ("W", "DW"):
                return None
            return "D" if "D" in tags else "DW" if "DW" in tags else None
        if rnd:
            return None
        if last in ("min", "max", "amin", "amax", "nanmin", "nanmax") and main in ("D", "DW") and self.axis(args, kw) or \
                last in ("min", "max") and name.startswith("builtins.") and len(args) > 1:
            return main
        if last in FREE or name.startswith(("matplotlib", "warnings", "logging")):
            return None
        if name.startswith(("scipy.optimize.", "scipy.integrate.")):
            return None
        if last in ("range", "arange", "enumerate", "reshape", "tile", "split", "array_split", "linspace", "triu_indices", "tril_indices", "zeros", "ones", "repeat", "broadcast_to",
                    "resize", "indices", "int", "roll") and all(t in (None, "n") for t in tags):
            return "n" if last == "int" else None
        if last == "repeat" and len(args) >= 2:
            if main in ("D", "DW") and args[1].tag in ("W", "DW"):
                return self.used(node)
            return main
        if last == "repeat" and main == "D" and kw.get("repeats") is not None and kw["repeats"].tag == "W":
            return self.used(node)
        if "n" in tags:
            if last in ("float", "int", "asarray", "array", "float64"):
                return "n"
            if last in ("range", "arange", "reshape", "full", "tile", "max", "min", "minimum", "maximum", "concatenate", "hstack", "append", "clip", "resize", "split", "ravel_multi_index",
                        "where", "isclose", "print", "list", "tuple", "delete", "insert", "roll", "searchsorted", "take"):
                return next((t for t in ("D", "DW", "W") if t in tags), None)
            return self.count_use(node)
        if "C" in tags and last not in ("asarray", "array", "astype"):
            return self.brk(node, "counts", "counts of equal observations are used although weights were given")
        if last == "unique":
            if main == "D":
                on = lambda k: k in kw and kw[k].consts() != [False]
                fl = ("i" if on("return_index") else "") + ("v" if on("return_inverse") else "") + ("c" if on("return_counts") else "")
                return ("U", fl) if fl else "D"
            return main
        if last in DOT:
            return self.dot(args, node)
        if last in ("sum", "nansum", "mean", "nanmean", "prod", "std", "var", "median", "average", "norm", "fsum") or last in RED:
            w = kw.get("weights") or kw.get("w") or kw.get("aweights") or kw.get("fweights")
            dd = [t for t in tags]
            if w is not None and w.tag in ("W", "DW"):
                return self.used(node)
            if last == "bincount" and len(args) > 1 and args[1].tag == "W":
                return self.used(node)
            if main in ("DM", "DP") and not ("W" in dd or "DW" in dd):
                if main == "DM" and self.axis(args, kw):
                    return "D"
                return self.brk(node, last, f"{last} of the observations ignores the weights")
            if last == "interp" and len(args) >= 3:
                return None if any(v.tag in ("W", "DW") for v in args[1:3]) else "D" if "D" in tags else None
            if "D" in dd and not ("W" in dd or "DW" in dd):
                if last in ("cumsum", "nancumsum", "rankdata", "rank", "sum", "nansum", "mean", "nanmean", "median"):
                    pass
                return self.brk(node, last, f"{last} of the observations ignores the weights")
            if main == "DW" and last in ("mean", "nanmean", "median", "std", "var", "nanstd", "nanvar"):
                return self.brk(node, last, f"{last} of weighted terms divides by the number of distinct observations")
            if last in ("cumsum", "nancumsum", "rankdata"):
                return "W" if main in ("W", "DW") else None
            return self.used(node) if main in ("DW", "W") else None
        if last in ("isclose", "equal", "not_equal", "less", "greater", "less_equal", "greater_equal", "logical_and", "logical_or") and len(args) >= 2:
            return self.comb("cmp" if not last.startswith("logical") else "op", args[0], args[1], node)
        if last in ("multiply", "divide", "true_divide", "power") and len(args) >= 2:
            return self.comb({"multiply": "mult", "power": "pow"}.get(last, "div"), args[0], args[1], node)
        if last in ("outer",) and len(args) >= 2 and "D" in tags:
            return "DW" if "W" in tags or "DW" in tags else "DP" if tags[:2] == ["D", "D"] else "DM"
        if last in ("argsort", "lexsort", "searchsorted", "digitize", "nonzero", "flatnonzero", "argwhere"):
            return "Wi" if any(t in ("W", "DW") for t in tags) else None
        if last == "where" and len(args) == 1:
            return "Wi" if main in ("W", "DW") else None
        out = None
        for v in vs:
            if v.tag is None:
                continue
            if out is None:
                out = v
            else:
                t = self.comb("op" if last not in ("where", "concatenate", "hstack", "vstack", "stack", "append", "column_stack", "broadcast_arrays", "meshgrid") else "join", out, v, node) \
                    if last not in ("where", "concatenate", "hstack", "vstack", "stack", "append", "column_stack", "broadcast_arrays", "meshgrid", "array", "asarray") else self.join(out.tag, v.tag)
                if isinstance(t, Brk):
                    return t
                out = out.w(tag=t)
        return out.tag if out is not None else None


GIVEN = {"w": "given", "weights": "given"}
# entries with a weights argument: alternatives for the precomputed arguments
PRE = ("r", "mean", "n", "median", "lb", "ub", "Cbar", "Sbar", "bin_size")


def wcirc(I, label):
    q, I.dom.quiet = I.dom.quiet, True
    try:
        return construct(I, "base.Circular", "any", dict(GIVEN))
    finally:
        I.dom.quiet = q


def scens():
    out = []
    I0 = None

    def fn(I, f, over):
        g = get_func(I, f)
        names = [p[0] for p in func_params(g)]
        kw = dict(GIVEN)
        if "alpha" in names:
            kw["alpha"] = "given"
        for k in PRE:
            if k in names:
                kw[k] = over if over == "none" else "given" if k in ("mean", "median") or over == "given" else over
        return I.call_func(g, [], build_args(I, f, g, "any", kw), None)

    for f in FUNCS:
        out.append((f, fn))
    return out


def weighted_entries(I):
    """entry points with a weights parameter, found in the source"""
    res = []
    for f in FUNCS:
        g = get_func(I, f)
        names = [p[0] for p in func_params(g)]
        if {"w", "weights"} & set(names):
            res.append((f, names))
    return res


def make_scens(I):
    out = []
    for f, names in weighted_entries(I):
        for over in ("none", "default", "mean"):
            if over != "none" and not set(PRE) & set(names) or over == "mean" and not {"mean", "median"} & set(names):
                continue

            def go(I, f=f, names=names, over=over):
                g = get_func(I, f)
                kw = dict(GIVEN)
                if "alpha" in names:
                    kw["alpha"] = "given"
                if over != "default":
                    for k in PRE:
                        if k in names:
                            kw[k] = "given" if over == "mean" and k in ("mean", "median") else "none"
                return I.call_func(g, [], build_args(I, f, g, "any", kw), None)
            out.append(Scen(f + {"none": "", "default": "[precomputed]", "mean": "[centre given]"}[over], "func", go, entry=f))
    for n in HYP_SAMPLES:
        def two(I, n=n):
            f = get_func(I, "hypothesis." + n)
            kw = build_args(I, "hypothesis." + n, f, "any")
            p = func_params(f)[0][0]
            kw[p] = I.mklist([wcirc(I, "a"), wcirc(I, "b")])
            return I.call_func(f, [], kw, None)
        out.append(Scen(f"hypothesis.{n}[weighted Circular]", "func", two, entry="hypothesis." + n))
    for n, ps in (("circ_corrcc", ("a", "b")), ("circ_corrcl", ("a",))):
        def corr(I, n=n, ps=ps):
            f = get_func(I, "correlation." + n)
            kw = build_args(I, "correlation." + n, f, "any")
            for p in ps:
                kw[p] = wcirc(I, p)
            return I.call_func(f, [], kw, None)
        out.append(Scen(f"correlation.{n}[weighted Circular]", "func", corr, entry="correlation." + n))

    def anova(I):
        f = get_func(I, "hypothesis.equal_kappa_test")
        return None
    for c in ("base.Circular", "base.Axial"):
        out.append(Scen(c + "[weights]", "ctor", lambda I, c=c: construct(I, c, "any", dict(GIVEN)), entry=c))
    for n in DISTS:
        if dist_has_fit(n):
            out.append(Scen(f"distributions.{n}.fit[weights]", "distfit",
                            lambda I, n=n: dist_fit(I, n, over={"weights": src(I, "weights", "weights")}), entry=f"distributions.{n}.fit"))
    return out


def judge(d, s, o):
    seen = set()
    if not o.dead:
        for p, v in reachable(o.state, o.value):
            for x in v.deps | v.cdeps:
                if x.startswith("wt:"):
                    seen.add((x, p))
            if v.tag == "n" and not v.refs():
                d.report("sample-size", None, f"{s.info.get('entry')}:{p}", f"{s.label} returns {p or 'a value'}, the number of distinct observations, although weights were given")
    for x, p in sorted(seen):
        loc, fn, msg, path = d.labels.get(x, ("?", "?", "", ""))
        d.report("ignores-weights", None, x[3:], f"{msg}; it decides {p or 'the result'} of {s.label}")
        f = d.findings[("ignores-weights", x[3:])]
        f["loc"], f["func"], f["path"] = loc, fn, path


def check(prog, rep, tier):
    d = Wt()
    I = Interp(prog, d, max_steps=300_000_000)
    I.load_all()
    st = run_all(I, make_scens(I), each=lambda s, o: judge(d, s, o))
    rep.take(d)
    rep.cov.update(st)
    rep.cov["weighted_operations"] = sorted(d.weighted)
    rep.cov["sources"] = dict(d.sources)
    rep.floor("scenarios", st["scenarios"], 45)
    rep.floor("weighted_operations", len(d.weighted), 25)


SELF = """
import numpy as np
def bad_len(alpha, w):
    C = np.sum(w * np.cos(alpha)); S = np.sum(w * np.sin(alpha))
    return np.hypot(C, S) / len(alpha)
def bad_mean(alpha, w):
    return np.hypot(np.mean(np.cos(alpha)), np.mean(np.sin(alpha)))
def bad_wmean(alpha, w):
    return np.mean(w * np.cos(alpha))
def bad_branch(alpha, w, p=1):
    m = np.sum(w * np.cos(alpha)) / np.sum(w)
    if p > 1:
        return np.sum(np.cos(p * alpha)) / np.sum(w)
    return m
def bad_boot(alpha, w, seed=1):
    rng = np.random.default_rng(seed)
    b = rng.choice(alpha, size=len(alpha))
    return np.hypot(np.sum(np.cos(b)), np.sum(np.sin(b)))
def bad_n(alpha, w):
    n = alpha.shape[0]
    return n
def bad_loop(alpha, w):
    s = 0.0
    for a in alpha:
        s += np.cos(a)
    return s / np.sum(w)
def bad_hist(alpha, w):
    return np.histogram(alpha, bins=12)[0]
def bad_dot(alpha, w):
    return np.cos(alpha) @ np.cos(alpha)
def bad_default(alpha, w):
    return helper(alpha)
def helper(alpha, w=None):
    if w is None:
        w = np.ones_like(alpha)
    return np.sum(w * np.cos(alpha)) / np.sum(w)
def bad_decide(alpha, w):
    r = np.abs(np.mean(np.exp(1j * alpha)))
    if r < 0.1:
        return np.nan
    return np.sum(w * alpha)
def bad_near(alpha, w):
    c = np.mod(alpha - 1.0, 2 * np.pi)
    return np.sum(np.min(np.array([c, 2 * np.pi - c]), axis=0))
def ok_helper(alpha, w):
    return helper(alpha, w)
def ok_sum(alpha, w):
    n = np.sum(w)
    return np.hypot(np.sum(w * np.cos(alpha)), np.sum(w * np.sin(alpha))) / n
def ok_avg(alpha, w):
    return np.average(np.cos(alpha), weights=w)
def ok_dot(alpha, w):
    return w @ np.cos(alpha) / w.sum()
def ok_rep(alpha, w):
    a = np.repeat(alpha, w)
    return np.mean(np.cos(a)) * len(a)
def ok_gap(alpha, w):
    a = np.sort(alpha)
    return np.max(np.diff(np.append(a, a[0] + 6.28)))
def ok_unit(alpha, w):
    if np.all(w == 1):
        return np.mean(np.cos(alpha))
    return np.sum(w * np.cos(alpha)) / np.sum(w)
def ok_boot(alpha, w, seed=1):
    rng = np.random.default_rng(seed)
    b = rng.choice(alpha, size=int(np.sum(w)), p=w / np.sum(w))
    return np.mean(np.cos(b))
def ok_loop(alpha, w):
    s = 0.0
    for a, k in zip(alpha, w):
        s += k * np.cos(a)
    return s / np.sum(w)
def ok_order(alpha, w):
    i = np.argsort(alpha)
    c = np.cumsum(w[i])
    return alpha[i][np.searchsorted(c, c[-1] / 2)]
def ok_check(alpha, w):
    if len(alpha) != len(w) or alpha.size == 0:
        raise ValueError("x")
    out = np.zeros(len(alpha))
    for i in range(len(alpha)):
        out[i] = w[i] * np.cos(alpha[i])
    return np.sum(out) / np.sum(w)
"""


def selftest(rep):
    d = Wt()
    names = [l[4:].split("(")[0] for l in SELF.splitlines() if l.startswith(("def bad", "def ok"))]
    expect(mini(SELF, d, lambda s, o: judge(d, s, o), names), names)
    rep.cov["selftest_functions"] = len(names)
