"""Public entry points and the roles of their parameters.

The table is written against the public API (names, documented parameters). An entry that no longer exists in
the repository raises AnchorLost: the check then ends as an error, never as a silent pass."""
from __future__ import annotations
from .values import *
from .state import HObj
from .interp import Dead, PKG, ClassInfo


class AnchorLost(Exception):
    pass


# role by parameter name
ROLE = {}


def _r(role, names):
    for n in names.split():
        ROLE[n] = role


_r("angles", "alpha alpha1 alpha2 a b theta x y data X rad X_new_angles")
_r("angle", "mean median angle md lb ub value mu xi delta")
_r("weights", "w weights")
_r("samples", "samples")
_r("circs", "circs")
_r("num", """ci r n p k bin_size h radius kappa rho Cbar Sbar B n_simulation level tol threshold R kappa0 zeta psi nu lmbd gamma lam
 alpha0 probs chunk_size order full_cycle scale bounds burnin n_clusters n_iters max_iter n_clusters_max mle_maxiter mle_ftol min_comp_weight n_init_clusters q type idp idq""")
_r("str", "method unit metric average_method model_type source name sep formula optimizer")
_r("bool", "verbose return_average centered return_sum f_mod inter test strict return_info print_meta refine")
_r("seed", "seed random_seed random_state")
_r("dict", "config options kwargs_median kwargs_mean_ci fit_kwargs base_kwargs")

# per-entry overrides: (entry, param) -> role
OVR = {
    ("hypothesis.rao_homogeneity_test", "alpha"): "num",
    ("hypothesis.common_median_test", "alpha"): "num",
    ("hypothesis.harrison_kanji_test", "idp"): "arr",
    ("hypothesis.harrison_kanji_test", "idq"): "arr",
    ("hypothesis.harrison_kanji_test", "fn"): "names",
    ("correlation.circ_corrcl", "x"): "arr",
    ("utils.angular_distance", "b"): "angle",
    ("descriptive.circ_mean_and_r_of_means", "ms"): "angles",
    ("descriptive.circ_mean_and_r_of_means", "rs"): "arr",
    ("descriptive.circ_mean_deviation", "beta"): "angles",
    ("descriptive.circ_mean_deviation_chunked", "beta"): "angles",
    ("descriptive.circ_mean_deviation_chuncked", "beta"): "angles",
    ("descriptive.convert_moment", "mp"): "num",
    ("descriptive.compute_hdi", "samples"): "angles",
    ("descriptive.circ_quantile", "probs"): "arr",
    ("descriptive.circ_quantile", "type"): "int",
    ("regression.CLRegression", "X"): "arr",
    ("regression.CLRegression", "beta0"): "arr",
    ("regression.CLRegression", "gamma0"): "arr",
    ("regression.CLRegression", "data"): "frame",
    ("regression.CCRegression", "data"): "frame",
    ("hypothesis.chisquare_test", "w"): "weights",
    ("base.Circular", "bins"): "arr",
    ("base.Axial", "bins"): "arr",
    ("utils.A1", "kappa"): "num",
    ("utils.time2float", "x"): "arr",
    ("utils.data2rad", "data"): "angles",
    ("visualization.circ_plot", "config"): "config",
    ("base.Circular.plot", "config"): "config",
    ("base.Axial.plot", "config"): "config",
}
# documented options that travel through **kwargs
EXTRA_KW = {"base.Circular": ["kwargs_median", "kwargs_mean_ci"], "base.Axial": ["kwargs_median", "kwargs_mean_ci"]}

UTILS = "data2rad rad2data time2float angmod angular_distance significance_code load_data is_within_circular_range rotate_data A1 A1inv"
DESC = """circ_r circ_mean circ_mean_and_r circ_mean_and_r_of_means circ_moment circ_dispersion circ_skewness circ_kurtosis angular_var
angular_std circ_var circ_std circ_median circ_mean_deviation_chunked circ_mean_deviation circ_mean_ci circ_median_ci circ_kappa circ_dist
circ_pairdist convert_moment compute_C_and_S compute_hdi compute_smooth_params nonparametric_density_estimation circ_range circ_quantile"""
HYP = """rayleigh_test chisquare_test V_test one_sample_test omnibus_test batschelet_test symmetry_test watson_williams_test watson_u2_test
wheeler_watson_test wallraff_test circ_anova angular_randomisation_test kuiper_test watson_test rao_spacing_test circ_range_test binomial_test
concentration_test rao_homogeneity_test change_point_test harrison_kanji_test equal_kappa_test common_median_test"""
CORR = "circ_corrcc circ_corrcl"
FUNCS = [f"utils.{n}" for n in UTILS.split()] + [f"descriptive.{n}" for n in DESC.split()] + \
        [f"hypothesis.{n}" for n in HYP.split()] + [f"correlation.{n}" for n in CORR.split()]
CLASSES = {
    "clustering.MovM": dict(fit=True, query=["compute_BIC", "predict_density", "predict_proba", "predict"]),
    "clustering.MoKJ": dict(fit=True, query=["compute_BIC", "predict_proba", "predict", "predict_density"]),
    "clustering.MoCD": dict(fit=True, query=["predict_proba", "predict", "score_samples", "score", "predict_density", "bic", "predict_density_grid", "compute_BIC"]),
    "clustering.CircHAC": dict(fit=True, query=["predict", "plot_dendrogram", "silhouette_score"]),
    "clustering.CircKMeans": dict(fit=True, query=["predict"]),
    "regression.CLRegression": dict(fit=False, query=["AIC", "BIC", "predict", "summary"]),
    "regression.CCRegression": dict(fit=False, query=["summary"]),
    "base.Circular": dict(fit=False, query=["__repr__", "__str__", "summary", "plot"]),
    "base.Axial": dict(fit=False, query=["__repr__", "__str__", "summary", "plot"]),
}
DISTS = """circularuniform triangular cardioid cartwright wrapnorm wrapcauchy vonmises vonmises_flattopped jonespewsey jonespewsey_sineskewed
jonespewsey_asym inverse_batschelet wrapstable katojones""".split()
SEEDS = ("seed", "random_seed", "random_state", "rng")
DIST_X = ["pdf", "logpdf", "cdf", "logcdf", "sf", "logsf"]
DIST_Q = ["ppf", "isf"]
DIST_S = ["trig_moment", "r", "mean", "median", "var", "std", "dispersion", "skewness", "kurtosis", "stats", "entropy"]


def get_func(I, dotted):
    v = I.resolve(dotted)
    if v is None or not any(isinstance(a, (Func, ClassA)) for a in v.atoms):
        raise AnchorLost(dotted)
    return next(iter(v.atoms))


def src(I, role, name, t="arr"):
    """value for a caller-supplied argument"""
    mut = t in ("arr", "any", "seq")
    v = V([T(t)], frozenset([name]), EMPTY, frozenset([f"arg:{name}"]) if mut else EMPTY)
    return v.w(tag=I.dom.source(role, name, v) if hasattr(I.dom, "source") else None)


def make(I, entry, name, role):
    if role in ("angles", "weights", "arr"):
        if getattr(I, "listargs", False):       # array-likes given as lists
            i = I.newid("listarg")
            I.st.new(i, HObj("list", elem=src(I, role, name, "num"), mem=frozenset([f"arg:{name}"])))
            return V([Ref(i)], frozenset([name]))
        return src(I, role, name)
    if role == "angle" or role == "num":
        return src(I, role, name, "num")
    if role == "int":
        return src(I, role, name, "int")
    if role == "str":
        return src(I, role, name, "str")
    if role == "bool":
        return src(I, role, name, "bool")
    if role == "seed":
        return src(I, role, name, "int")
    if role == "samples":
        i = I.newid("samples")
        e = src(I, "angles", name)
        I.st.new(i, HObj("list", elem=e, mem=frozenset([f"arg:{name}"])))
        return V([Ref(i)], frozenset([name]))
    if role == "circs":
        q, I.dom.quiet = I.dom.quiet, True
        try:
            e = construct(I, "base.Circular", "default")
        finally:
            I.dom.quiet = q
        own(I, e, f"arg:{name}")
        i = I.newid("samples")
        I.st.new(i, HObj("list", elem=e, mem=frozenset([f"arg:{name}"])))
        return V([Ref(i)], frozenset([name]))
    if role == "names":
        i = I.newid("names")
        I.st.new(i, HObj("list", elem=V([T("str")], frozenset([name])), mem=frozenset([f"arg:{name}"])))
        return V([Ref(i)], frozenset([name]))
    if role == "dict":
        i = I.newid("dictarg")
        I.st.new(i, HObj("dict", open=True, elem=V([T("any")], frozenset([name]), EMPTY, frozenset([f"arg:{name}"])), mem=frozenset([f"arg:{name}"])))
        return V([Ref(i)], frozenset([name]))
    if role == "config":
        return config_arg(I, name)
    if role == "frame":
        return src(I, role, name, "any")
    return V([T("any")], frozenset([name]), EMPTY, frozenset([f"arg:{name}"]))


def own(I, v, region):
    """everything an object holds belongs to the caller"""
    seen = set()

    def val(v):
        for a in v.atoms:
            if isinstance(a, Ref) and a.id not in seen:
                seen.add(a.id)
                o = I.st.get(a.id)
                if o is None or o.kind not in ("obj", "list", "dict", "set"):
                    continue
                o = I.st.mut(a.id)
                o.mem = o.mem | {region}
                o.attrs = {k: val(x) for k, x in o.attrs.items()}
                if o.items is not None:
                    o.items = [val(x) for x in o.items]
                if o.elem is not None:
                    o.elem = val(o.elem)
        if any(isinstance(a, T) and a.t in ("arr", "any", "seq") for a in v.atoms):
            return v.w(mem=v.mem | {region}, sn=v.sn)
        return v
    val(v)


def config_arg(I, name):
    """a caller's plot configuration: every key of the default configuration, unknown values, caller-owned"""
    d = I.resolve("visualization.DEFAULT_CIRC_PLOT_CONFIG")
    if d is None or not d.refs():
        raise AnchorLost("visualization.DEFAULT_CIRC_PLOT_CONFIG")

    def mk(oid):
        o = I.st.get(oid)
        i = I.newid("cfg")
        at = {}
        for k, v in o.attrs.items():
            if v.refs():
                at[k] = mk(v.refs()[0])
            else:
                at[k] = V([T("any")], frozenset([name]), EMPTY, frozenset([f"arg:{name}"]))
        I.st.new(i, HObj("dict", attrs=at, mem=frozenset([f"arg:{name}"])))
        return V([Ref(i)], frozenset([name]))
    return mk(d.refs()[0])


def role_of(entry, name):
    r = OVR.get((entry, name))
    if r is None:
        r = ROLE.get(name)
    return r or "any"


def func_params(f):
    a = f.node.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    nd = len(pos) - len(f.defaults)
    out = []
    for i, n in enumerate(pos):
        out.append((n, f.defaults[i - nd] if i >= nd else None, False))
    for i, p in enumerate(a.kwonlyargs):
        out.append((p.arg, f.kwdefaults[i], True))
    return out


def build_args(I, entry, f, mode="any", over=None, skip_self=False, roles=None):
    """keyword arguments for a call of f.
    mode 'any': parameters with a None default may be None or given; other defaults: unknown value of the role
    mode 'given': every parameter is given; mode 'default': only required ones.
    over: name -> V | callable | 'none' | 'omit' | 'given'"""
    over = over or {}
    kw = {}
    for i, (n, d, kwonly) in enumerate(func_params(f)):
        if skip_self and i == 0:
            continue
        role = (roles or {}).get(n) or role_of(entry, n)
        o = over.get(n, over.get("*") if d is not None else None)
        if o == "omit":
            continue
        if o == "none":
            kw[n] = NONE
            continue
        if isinstance(o, V):
            kw[n] = o
            continue
        if callable(o):
            kw[n] = o(I)
            continue
        if o == "default" or (o is None and mode == "default" and d is not None):
            continue
        v = make(I, entry, n, role)
        if o != "given" and mode == "any" and d is not None:
            if any(isinstance(a, C) and a.v is None for a in d.atoms):
                v = v.w(atoms=v.atoms | {C(None)}, sn=v.sn)
            elif role == "any":
                v = v.w(atoms=v.atoms | d.atoms)
        kw[n] = v
    if f.node.args.kwarg is not None and mode != "default":
        for n in EXTRA_KW.get(entry, ()):
            if over.get(n) == "omit":
                continue
            kw[n] = over[n] if isinstance(over.get(n), V) else make(I, entry, n, role_of(entry, n))
    return kw


class Out:
    """outcome of an abstract run"""
    __slots__ = ("value", "state", "raises", "dead")

    def __init__(self, value, state, raises):
        self.value, self.state, self.raises = value, state, raises
        self.dead = value is None

    def exc_names(self):
        return {r[1] for r in self.raises}


def run(I, thunk, base=None):
    """run thunk from a copy of `base` (default: current state); restores the state afterwards"""
    keep = I.st
    I.st = (base or keep).copy()
    I.sinks.append([])
    nctx = len(I.ctxs)
    try:
        try:
            v = thunk()
            st = I.st
        except Dead:
            v, st = None, None
        raises = I.sinks[-1]
    finally:
        I.sinks.pop()
        del I.ctxs[nctx:]
        I.st = keep
    return Out(v, st, raises)


def call_entry(I, dotted, mode="any", over=None):
    f = get_func(I, dotted)

    def th():
        if isinstance(f, ClassA):
            return construct(I, dotted, mode, over)
        return I.call_func(f, [], build_args(I, dotted, f, mode, over), None)
    return run(I, th)


def construct(I, dotted, mode="any", over=None):
    c = get_func(I, dotted)
    ci, init = c.cls.find("__init__")
    if init is None:
        raise AnchorLost(dotted + ".__init__")
    f = next(iter(init.atoms))
    kw = build_args(I, dotted, f, mode, over, skip_self=True)
    return I.instantiate(c.cls, [], kw, None)


def method(I, objv, name, entry, mode="any", over=None, roles=None):
    cls = I.st.get(objv.refs()[0]).cls
    ci, m = cls.find(name)
    if m is None:
        raise AnchorLost(f"{entry}.{name}")
    f = next(iter(m.atoms))
    if not isinstance(f, Func):
        raise AnchorLost(f"{entry}.{name}")
    kw = build_args(I, entry + "." + name, f, mode, over, skip_self=f.kind != "staticmethod", roles=roles)
    return I.call(I.getattr(objv, name, f.node), [], kw, None)


def dist_obj(I, name):
    v = I.resolve("distributions." + name)
    if v is None or not v.refs():
        raise AnchorLost("distributions." + name)
    return v


def dist_shapes(I, objv):
    """shape parameter names, from the domain check or the density"""
    cls = I.st.get(objv.refs()[0]).cls
    for m in ("_argcheck", "_pdf"):
        ci, f = cls.find(m)
        if f is not None:
            f = next(iter(f.atoms))
            ns = [p.arg for p in f.node.args.args][1:]
            if m == "_pdf":
                ns = ns[1:]
            if f.node.args.vararg is None:
                return ns
    raise AnchorLost("shapes")


def public_methods(cls):
    """public method names defined in the repository for a class"""
    out = []
    for c in cls.mro():
        if isinstance(c, ClassInfo):
            for n, v in c.attrs.items():
                if not n.startswith("_") and any(isinstance(a, Func) for a in v.atoms) and n not in out:
                    out.append(n)
    return out
