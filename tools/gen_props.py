"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=["pycircstat2/" + f for f in files],
                          mechanism=[dict(name=n, where="pycircstat2/" + w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where="pycircstat2/" + c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

ALL = ["utils.py", "descriptive.py", "hypothesis.py", "correlation.py", "regression.py",
       "clustering.py", "distributions.py", "base.py", "visualization.py"]

p("C01", "Caller-owned data is never modified",
  "No public function, constructor or method changes an array, list, dict or data object that the caller passed in, and none changes a default argument value or a module-level constant. The same call on the same objects can therefore be repeated and sees the same inputs every time. (Methods may of course update the estimator they are called on, and circ_plot attaches the density curve it drew to the Circular object it plots.)",
  ["inputs", "histories"], "every public entry point, every argument that is mutable, every option combination",
  "Tests pass fresh literals and look at the returned value; none compares every argument before and after every call, and in-place operations hide on branches (weights given, bins given, cycle length given) that tests do not take.",
  ALL, [("defensive copies np.asarray/np.array/copy before in-place edits", "descriptive.py"),
        ("copy.deepcopy of the default plot configuration", "visualization.py:circ_plot"),
        ("kwargs handling in Circular.__init__", "base.py:Circular.__init__")])

p("C02", "Seeded runs are reproducible; the global random state is never used",
  "Every stochastic routine (permutation and bootstrap tests, randomised statistics, clustering initialisation, distribution sampling and stochastic fits) draws only from a generator derived from the seed, random_state or generator it was given (or from its documented default seed), so that the same arguments and seed always give the same result. Given a seed, no routine reads, seeds or advances NumPy's or Python's global random state, a hidden module-level generator, the clock or another ambient source of randomness. The only ambient draws are those where there is no seed to honour: sampling a distribution without random_state (the SciPy convention), or a random_seed of None.",
  ["inputs", "histories", "configurations"], "every stochastic entry point, every seed, every history of earlier calls",
  "A reproducibility test calls one function twice; it cannot show that no branch anywhere falls back to an unseeded or shared generator.",
  ["descriptive.py", "hypothesis.py", "clustering.py", "distributions.py", "base.py", "correlation.py", "regression.py"],
  [("np.random.default_rng(seed) created per call", "hypothesis.py"),
   ("_init_rng", "distributions.py:CircularContinuous._init_rng"),
   ("bootstrap resampling", "descriptive.py:_circ_mean_resample")])

p("C03", "Adding whole turns to observations changes nothing",
  "Angles are points on a circle: adding any whole number of full turns to any individual observation leaves every descriptive statistic, confidence interval, test statistic and p-value, correlation, regression result, cluster assignment and distribution value unchanged (up to rounding), whether the data are given as -10 or 350 degrees.",
  ["inputs"], "all inputs, all integer turn counts per observation",
  "The tests use data already reduced to one turn, for which a linear comparison, sort or mean gives the same answer as a circular one.",
  ["utils.py", "descriptive.py", "hypothesis.py", "correlation.py", "regression.py", "clustering.py", "distributions.py", "base.py"],
  [("angmod / np.mod reduction", "utils.py:angmod"), ("cos/sin/exp(1j*angle) embedding", "descriptive.py:circ_mean_and_r"),
   ("_wrap_angles", "distributions.py:CircularContinuous._wrap_angles"),
   ("linear sorting/ranking of angles in spacing and rank tests", "hypothesis.py")])

p("C04", "Every returned direction lies within a single turn from zero",
  "Every direction the library returns - angular means and medians, their confidence limits, cluster and component centres, fitted location parameters, predicted angles, quantiles and samples on the circle - is expressed between 0 and 2*pi (or is NaN when undefined), whatever turn the observations were given in. It never comes back negative or beyond one turn.",
  ["inputs"], "all inputs and all return paths, including trivial, degenerate and early-exit paths",
  "Tests compare a few interior directions; the wrapped and unwrapped forms agree except near the origin or for data outside one turn.",
  ["utils.py", "descriptive.py", "regression.py", "clustering.py", "distributions.py"],
  [("angmod", "utils.py:angmod"), ("np.mod(.., 2*np.pi)", "descriptive.py")])

p("C05", "Results do not depend on the order of the observations",
  "Reordering the observations (together with their weights, or pair by pair in two-variable methods) leaves every descriptive statistic, test statistic, p-value and correlation unchanged up to rounding. Only routines that draw random resamples, that return one value per observation, or that take their data as a sequence in time (the change-point test) may reflect the input order.",
  ["inputs"], "all permutations of all inputs",
  "Tests feed each data set in one order, usually sorted, which is exactly the order in which a forgotten sort does not show.",
  ["descriptive.py", "hypothesis.py", "correlation.py"],
  [("np.sort before spacing/cumulative statistics", "hypothesis.py"), ("rankdata for rank tests", "hypothesis.py"),
   ("symmetric reductions", "descriptive.py")])

p("C06", "Weights act as observation frequencies everywhere",
  "Wherever weights are accepted - as an argument, through a grouped data object, or in a distribution fit - every statistic computed from the data uses them: no branch computes an estimate, sample size, test statistic, interval or objective from the observations alone as if all weights were one.",
  ["inputs", "configurations"], "all weight vectors, all branches that reduce weighted data",
  "Tests mostly use unit weights, under which a forgotten weight changes nothing.",
  ["descriptive.py", "hypothesis.py", "correlation.py", "distributions.py", "base.py"],
  [("_CircularSample.expand", "hypothesis.py:_CircularSample"), ("np.sum(w * ...)/np.sum(w)", "descriptive.py"),
   ("_prepare_fit data/weights", "distributions.py")])

p("C07", "Verbosity never changes a result",
  "Printing or verbose switches only control what is printed. For the same remaining arguments the returned value, the raised exceptions, the fitted state and the random draws are identical with and without them.",
  ["inputs", "configurations"], "every function with a verbosity switch, every input",
  "Tests never run each call twice with both settings on inputs and option combinations where the branch matters.",
  ["utils.py", "hypothesis.py", "clustering.py", "distributions.py", "regression.py"],
  [("if verbose: print(...)", "hypothesis.py"), ("load_data(print_meta=...)", "utils.py:load_data")])

p("C08", "Distribution objects have no memory of earlier calls",
  "The distribution objects are shared singletons: evaluating, sampling or fitting any of them returns a value that depends on the arguments of that call (and the random state) only, never on which parameters, options or data earlier calls used. Whatever is cached or tabulated between calls is looked up under everything it was computed from.",
  ["histories", "inputs"], "all sequences of calls on the shared distribution objects",
  "Tests evaluate one parameter set at a time on a fresh process; stale or colliding cache entries need two calls with related parameters.",
  ["distributions.py"],
  [("_get_cached_normalizer", "distributions.py:CircularContinuous._get_cached_normalizer"),
   ("series cache", "distributions.py:jonespewsey_gen._jp_get_series"),
   ("numeric tables", "distributions.py:inverse_batschelet_gen")],
  state=[("_normalization_cache", "normalising constants per parameter tuple", "distributions.py"),
         ("series/table caches", "tabulated cdf data per parameter tuple", "distributions.py")])

p("C09", "Refitting equals fitting afresh, and queries do not change the model",
  "After fit, a clustering or regression model's state depends on its configuration and the data of the last fit only: fitting an already used model gives the same state as fitting a new one with the same configuration and data. Prediction, scoring, information criteria, summaries and printing never change the model.",
  ["histories"], "all sequences of constructor, fit and query calls",
  "Tests fit each model once; leftovers of an earlier fit (flags, iteration counts, generators advanced in place, cached criteria) only show on the second.",
  ["clustering.py", "regression.py", "base.py"],
  [("attributes re-initialised in fit", "clustering.py"), ("generator created from random_seed", "clustering.py")],
  state=[("fitted attributes", "parameters, labels, convergence flags", "clustering.py")])

p("C10", "Unfitted models refuse to answer",
  "Calling any prediction, scoring, density, criterion or plotting method of a clustering model before fit raises ValueError; it never returns a value, prints an answer, or fails with an unrelated error.",
  ["histories"], "all estimator classes and all their query methods, any arguments",
  "Tests exercise a couple of methods per class before fitting.",
  ["clustering.py"],
  [("if self.m_ is None: raise ValueError", "clustering.py")])

p("C11", "Unrecognised option values are rejected, never silently replaced",
  "Where a function, constructor or method selects behaviour by a string option (method, kind, type, unit, alternative, centre, test variant), any value that is not one of the documented ones raises ValueError before a result is returned. It never falls through to some default behaviour, on any data.",
  ["inputs", "configurations"], "every string option of every public entry point, every unrecognised value, with every setting of the other arguments",
  "Tests try a wrong value on a few functions with one data set; early exits and combinations with other options skip the validation.",
  ALL, [("if/elif chain ending in raise ValueError", "descriptive.py"), ("method validation", "distributions.py")])

p("C12", "Random sampling validates the distribution parameters",
  "Every random draw from a circular distribution, directly or through a frozen distribution, first validates the shape parameters against the distribution's documented domain and raises ValueError if they are outside it or NaN. Invalid parameters are never clipped, reinterpreted or sampled from, and each domain check covers every shape parameter.",
  ["inputs"], "all distributions, all parameter values, all size/random_state combinations",
  "Tests sample from valid parameters; a sampler that bypasses the domain check still returns plausible angles for invalid ones.",
  ["distributions.py"],
  [("_argcheck", "distributions.py"), ("super().rvs argument check", "distributions.py:CircularContinuous")])

p("C13", "No element of an array-valued parameter is silently ignored",
  "When a distribution method is called with array-valued shape parameters it either evaluates each element or raises ValueError; it never computes everything from the first (or any single) element and drops the others.",
  ["inputs"], "all distributions and methods, all parameter shapes",
  "Tests pass scalar parameters.",
  ["distributions.py"],
  [("scalar-parameter guards raising ValueError", "distributions.py"), ("np.broadcast_arrays", "distributions.py")])

p("C14", "Every reported p-value is a probability",
  "Every p-value reported by a hypothesis test, correlation or regression is between 0 and 1 inclusive (or NaN when the test is undefined), for every sample, sample size and method, including asymptotic approximations, series expansions, doubled tails and resampling counts.",
  ["inputs"], "all samples, sample sizes, and calculation methods",
  "Tests check p-values on textbook samples; approximations leave [0,1] only for extreme or tiny samples.",
  ["hypothesis.py", "correlation.py", "regression.py"],
  [("clipping of asymptotic formulas", "hypothesis.py"), ("scipy.stats survival functions", "hypothesis.py"),
   ("count-based permutation p-values", "hypothesis.py")])

p("C15", "Angles are never converted twice or left unconverted",
  "Data given in degrees, hours or a custom cycle length are converted to radians exactly once before any trigonometric or circular computation, and results documented in the user's unit are converted back exactly once with the same cycle length. Analysing the same directions in another unit or cycle length therefore gives the same statistics, models and predictions.",
  ["inputs", "configurations"], "all units and cycle lengths, all public methods of the data and clustering objects",
  "Tests use radians or degrees with one method; a missing or doubled conversion on another method, or for a custom cycle, is not exercised.",
  ["base.py", "clustering.py", "utils.py", "regression.py"],
  [("data2rad / rad2data", "utils.py"), ("unit/full_cycle handling", "clustering.py"), ("Axial doubling and halving", "base.py:Axial")])

p("C16", "Optimiser failure is never passed off as an estimate",
  "When a numerical optimiser used for fitting reports failure, the routine raises, retries with another method, or returns a value explicitly marked as not converged; it never returns the failed optimiser's point as an ordinary estimate. Reported fit information (success flag, method, iterations, objective) describes the run that produced the returned estimate.",
  ["inputs", "fault_sequences"], "all fits, all data, all optimiser outcomes",
  "Tests fit well-behaved data on which every optimiser succeeds.",
  ["distributions.py", "regression.py", "descriptive.py"],
  [("if not result.success", "distributions.py"), ("convergence loop", "regression.py")])

p("C17", "Every distribution honours the same public contract",
  "Every circular distribution treats its public methods alike: angular arguments are reduced to one turn before evaluation, linear loc and scale arguments are refused rather than ignored, shape parameters keep one documented order in every method, and a frozen distribution gives the same result as calling the distribution with the stored parameters, for every method and argument.",
  ["inputs", "programs"], "all distributions x all public methods x frozen/unfrozen",
  "Tests spot-check a few methods of a few distributions; overrides and frozen forwarding are per class and easy to get wrong in one place.",
  ["distributions.py"],
  [("_wrap_angles/_clean_loc_scale_kwargs", "distributions.py:CircularContinuous"), ("CircularContinuousFrozen", "distributions.py")])

p("C18", "No reachable path hits an undefined name, attribute or malformed call",
  "No combination of documented arguments makes the library fail with NameError, UnboundLocalError, AttributeError on its own objects, KeyError on its own configuration, or TypeError from calling one of its own functions with the wrong arguments. Attributes that are looked up by name on the library's own objects exist there.",
  ["inputs", "configurations", "histories"], "all public entry points and option combinations",
  "Tests run each function under a few option combinations; names bound only on some branches fail only on the others.",
  ALL, [("assignments on every branch before use", "descriptive.py"), ("attribute definitions in constructors", "base.py")])

# ---- not claimed: numerical content --------------------------------------------------
p("C30", "Densities are non-negative and integrate to one",
  "For every distribution and every admissible parameter, the density is non-negative and integrates to one over a full turn.",
  ["inputs"], "all distributions and parameters", "Tests integrate a few densities.",
  ["distributions.py"], [("normalising constants", "distributions.py")])
p("C31", "Quantile and cumulative functions invert each other",
  "For every distribution cdf(ppf(q)) = q on (0,1), cdf is monotone from 0 to 1, and it is the integral of the density.",
  ["inputs"], "all distributions, parameters, and q", "Tests sample a grid.",
  ["distributions.py"], [("root finding / series cdf", "distributions.py")])
p("C32", "Samples follow the distribution",
  "Random variates drawn from a distribution follow its density.",
  ["inputs"], "all distributions and parameters", "Statistical tests on one seed.",
  ["distributions.py"], [("rejection/inversion samplers", "distributions.py")])
p("C33", "Rotating the data rotates the directions and leaves spreads unchanged",
  "Adding a common angle to all observations adds it to every directional statistic modulo one turn and changes no measure of spread, concentration or shape.",
  ["inputs"], "all data and rotations", "Tests use fixed data sets.",
  ["descriptive.py", "hypothesis.py"], [("trigonometric moments", "descriptive.py")])
p("C34", "Mixture fitting never decreases the likelihood",
  "Each EM iteration of the mixture models does not decrease the likelihood, and responsibilities are probabilities.",
  ["inputs"], "all data", "Tests fit separable data.",
  ["clustering.py"], [("E and M steps", "clustering.py")])
p("C35", "Maximum likelihood estimates maximise the likelihood",
  "The mle fit of each distribution is at least as likely as the moment estimate and as the generating parameters.",
  ["inputs"], "all data", "Tests recover parameters of one sample.",
  ["distributions.py"], [("minimize calls", "distributions.py")])
p("C36", "Tests keep their nominal level",
  "Under its null hypothesis each test rejects with at most (about) its nominal probability.",
  ["inputs"], "all sample sizes", "Tests compare textbook examples.",
  ["hypothesis.py"], [("null distributions", "hypothesis.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
