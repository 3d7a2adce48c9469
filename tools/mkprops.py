#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that statements stay in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
D = "measures-distributions/src/distributions/"
C = "measures-combinators/src/measures/"
E = "measures-exponential-family/src/exponential_family/"
S = "symbolic-math/src/"

p("M01", "Every distribution's log-density is its law, and -inf off support",
  "For every distribution, every admissible parameter and every point, in both float widths, the log-density with respect to the root measure equals the logarithm of the distribution's documented density or mass function. Outside the support it is minus infinity, and at the boundary of the parameter space (success probability 0 or 1, a zero-probability category) and at points where the law assigns probability 0 or 1 it is exactly -inf or 0; it is never NaN for a finite point.",
  ["inputs"], "all admissible parameters (interior and boundary) and all points of every distribution, f64 and f32",
  "Tests evaluate a handful of moderate parameter/point pairs of a few distributions and mostly assert finiteness; they never compare the discrete laws with their normalised mass function, never use boundary parameters, and sample one float width.",
  [D + "continuous", D + "discrete", C + "derived"],
  [("direct density implementations", D + "*/: impl HasLogDensity"), ("inherent log_pdf", D + "continuous/cauchy.rs, student_t.rs")],
  observe_at=["log_density_wrt_root", "log_pdf", "log_density_at", "log_density_batch"], hook_needed=None)

p("M02", "Support predicate, constructors and moments describe the same law",
  "For every distribution, a point is reported in the support exactly when it belongs to the documented support set, and no point outside the support carries positive density. A constructor accepts exactly the documented parameter set (rejecting every other value, including NaN) and stores what it was given, defaults are the documented ones, and every reported mean, variance, odds, scale or similar derived quantity equals that of the law the density defines.",
  ["inputs"], "all parameter values, valid and invalid, and all points, including interval endpoints and one step beyond them",
  "Tests check one or two points per support and a couple of invalid parameters; agreement between support, density and moments is a relation over all inputs that no test states.",
  [D + "continuous", D + "discrete", D + "multivariate", C + "derived", C + "combinators"],
  [("in_support", D + "*: impl Measure"), ("constructors' assertions", D + "*: fn new"), ("moments", D + "*: fn mean/variance/log_odds/scale/rate")],
  observe_at=["in_support", "new", "mean", "variance"], hook_needed=None)

p("M03", "Exponential-family form reproduces the law and round-trips",
  "For every exponential-family distribution, natural parameter dotted with the sufficient statistic, minus the log-partition, plus the base measure's log-density, equals the log-density of the same distribution at every point of its support and every parameter in the interior of the natural parameter space, by every route that computes it. Where the family allows it, rebuilding a distribution from its natural parameter gives back the same distribution, and separately requested natural parameter and log-partition agree with the pair computed together.",
  ["inputs"], "all admissible parameters and support points of all exponential-family distributions",
  "Tests check the identity at single points for Normal and Poisson and only finiteness for the others; a wrong sign or missing factor in one log-partition passes them.",
  [D + "continuous", D + "discrete", D + "multivariate/multinormal.rs", E + "traits.rs", E + "implementations.rs", E + "array_utils.rs"],
  [("exp_fam_log_density", E + "traits.rs"), ("natural_and_log_partition / from_natural / sufficient_statistic / base_measure", D + "*: impl ExponentialFamily")],
  observe_at=["exp_fam_log_density", "compute_exp_fam_log_density", "natural_and_log_partition", "from_natural"], hook_needed=None)

p("M04", "IID joint log-density is the sum over the samples by every route",
  "For every distribution and every finite sequence of samples the joint log-density of independent copies equals the sum of the single-sample log-densities, whichever of the offered routes computes it. It is 0 for the empty sequence, does not depend on the order of the samples, is additive under concatenation, and is -inf as soon as one sample lies outside the support; the joint support is the conjunction of the single supports.",
  ["inputs", "histories"], "all sample sequences (length 0 upward, repeats, permutations, out-of-support members) and all distributions",
  "Tests use one or two fixed sample vectors for Normal and Poisson; length scaling, the empty sequence, order and support failures of the other families are never exercised.",
  [E + "iid.rs", E + "traits.rs", "measures-core/src/core/log_density_decomposition.rs", D + "continuous/cauchy.rs", D + "continuous/student_t.rs", D + "continuous/normal.rs"],
  [("compute_iid_exp_fam_log_density", E + "traits.rs"), ("IID wrapper", E + "iid.rs"), ("evaluate_iid", "measures-core/src/core/log_density_decomposition.rs")],
  observe_at=["iid_log_density", "iid_log_density_fallback", "log_density().at", "log_density_iid", "evaluate_iid"], hook_needed=None)

p("M05", "Changing the base measure obeys the algebra of log-densities",
  "A log-density object evaluates to the measure's log-density relative to whatever base measure it was last given: the root measure by default, and otherwise the difference of the two log-densities relative to their common root. Hence relative densities are antisymmetric, obey the chain rule, vanish for a measure against itself, and are the same whether values are stored, cloned, moved or evaluated repeatedly and in whatever order.",
  ["histories", "inputs", "programs"], "all sequences of building a log-density, re-basing it any number of times and evaluating it at any points, over all pairs of measures with a common root",
  "Tests re-base once between two normals at one point; repeated re-basing, primitive and zero-sized measures, and mixed kinds of measures are never combined.",
  ["measures-core/src/core/density.rs", "measures-core/src/core/measure.rs", "measures-core/src/primitive"],
  [("LogDensity::new / wrt / at", "measures-core/src/core/density.rs"), ("type-level dispatch", "measures-core/src/core/density.rs: ExpFamDispatch")],
  observe_at=["log_density().at", "wrt().at", "measure()", "base_measure()"], hook_needed=None)

p("M06", "A cached log-density is indistinguishable from the uncached one",
  "For every history of queries, a caching log-density returns at every point exactly the value of the log-density it wraps, evaluates the wrapped one at most once per distinct point, and never lets the value of one point be served for another; separate caches do not affect each other. It reports the same measure and base measure as the object it wraps.",
  ["histories"], "all sequences of queries with repeats over any points, over one or several caches on any wrapped log-density",
  "Tests query one cache twice at one point; they do not count evaluations or interleave points, caches and re-based densities.",
  ["measures-core/src/core/density.rs"], [("CachedLogDensity", "measures-core/src/core/density.rs")],
  state=[{"name": "cache", "meaning": "point -> value computed by the wrapped log-density", "where": "measures-core/src/core/density.rs"}],
  observe_at=["CachedLogDensity::at"], hook_needed=None)

p("M07", "Measure combinators compute the density their construction denotes",
  "For every nesting of the measure combinators, the log-density is that of the constructed measure: products add, weighting adds its log-weight, a density-reweighted measure adds its function, a mixture is the log of the weighted sum of the component densities (finite whenever one positively weighted component is), and a pushforward composes the inverse map and its log-Jacobian. Supports combine accordingly (conjunction, union over positively weighted components, preimage), and inadmissible weights are rejected.",
  ["programs", "inputs"], "all expressions built from the combinators over all measures, all weights including 0 and 1, and all points including far tails",
  "The combinators' unit tests do not even compile and no other test uses mixtures, products, pushforwards or coefficient measures.",
  [C + "combinators/product.rs", C + "combinators/superposition.rs", C + "combinators/pushforward.rs", C + "derived/weighted.rs", C + "derived/integral.rs", C + "derived/dirac.rs"],
  [("log_density_wrt_root of each combinator", C + "combinators, " + C + "derived"), ("log_sum_exp", C + "combinators/superposition.rs"), ("transforms", C + "combinators/pushforward.rs")],
  observe_at=["log_density_wrt_root", "in_support", "root_measure"], hook_needed=None)

p("M08", "A structured log-density equals the sum of its classified terms",
  "For every set of data, parameter, mixed and constant terms added in any order through either construction interface, evaluation returns their sum at the given data and parameter, each partial evaluation returns the sum of exactly its class, and evaluation over n samples counts data and mixed terms once per sample and parameter and constant terms n times. For the distributions that publish such a decomposition, it evaluates to the distribution's own log-density at every parameter, not only at the instance's.",
  ["histories", "inputs"], "all sequences of term additions, all data, parameters and sample counts including zero",
  "Tests build three fixed decompositions and evaluate each at one point.",
  ["measures-core/src/core/log_density_decomposition.rs", D + "continuous/normal.rs", D + "continuous/cauchy.rs", D + "continuous/student_t.rs"],
  [("LogDensityDecomposition / DecompositionBuilder", "measures-core/src/core/log_density_decomposition.rs")],
  observe_at=["evaluate", "evaluate_iid", "evaluate_param_terms", "evaluate_data_terms", "constant_sum"], hook_needed=None)

p("M09", "All expression evaluators compute the same mathematical value",
  "For every expression and every assignment of finite numbers to variables, each of the offered evaluation routes (general, single-variable, batched, grid, specialised linear and polynomial, automatic) either returns the value the expression denotes or reports the error that makes it undefined: an unbound variable, division by zero, a non-positive logarithm argument or a negative square-root argument. Batch routes return one value per input in input order, and a specialised route declines rather than answers wrongly. Every way of writing an expression (constructors, operators, methods, macros, pattern builders) builds the expression it names.",
  ["programs", "inputs"], "all expression trees over all operators and all assignments, complete and incomplete",
  "Tests evaluate a few fixed expressions at one or two points; agreement between routes over all trees and error cases is not sampled.",
  [S + "expr.rs"], [("evaluate, evaluate_single_var, evaluate_batch*, evaluate_grid, evaluate_linear, evaluate_polynomial, evaluate_smart", S + "expr.rs")],
  observe_at=["evaluate*"], hook_needed=None)

p("M10", "Simplification preserves the value of every expression",
  "For every expression and every assignment at which the original expression is defined, the simplified expression is defined and has the same value. Simplification introduces no variables and never increases the operation count; where an operation is idle (adding 0, multiplying by 0 or 1, dividing by 1, a power of 1 or 0, x-x, x/x, ln(exp x), exp(ln x), --x) it comes back with fewer operations.",
  ["programs", "inputs"], "all expression trees and all assignments in the domain of the original expression",
  "Tests compare a few simplified trees structurally; whether a rewrite preserves value for every sign of its operands is never examined.",
  [S + "expr.rs"], [("simplify", S + "expr.rs")], observe_at=["simplify", "complexity", "variables"], hook_needed=None)

p("M11", "Expression caches are transparent in every history and interleaving",
  "For every sequence and every interleaving across threads of cached simplification, cached evaluation and clearing of the caches, each call returns what the uncached operation returns on the same arguments; distinct expressions or assignments are never confused and an error is never remembered as a value. Statistics account for every call exactly once as a hit or a miss (between clearings), a repetition of a successful call with no intervening clearing is a hit, and no interleaving blocks forever.",
  ["schedules", "histories"], "all interleavings of concurrent callers and all call histories over any expressions and assignments",
  "Tests call the cached functions once or not at all, on one thread.",
  [S + "expr.rs"], [("simplify_cached / evaluate_cached / clear_caches / get_cache_stats", S + "expr.rs")],
  state=[{"name": "simplification cache", "meaning": "expression key -> simplified expression", "where": S + "expr.rs"},
         {"name": "evaluation cache", "meaning": "(expression key, assignment key) -> value", "where": S + "expr.rs"},
         {"name": "statistics", "meaning": "hit and miss counters", "where": S + "expr.rs"}],
  observe_at=["return values", "get_cache_stats"], hook_needed=None)

p("M12", "Compiled native code computes what the interpreter computes",
  "For every expression and every division of its variables into data, parameter and constant names, in every order, compiled code applied to the inputs in the declared order returns the interpreter's value, to within the accuracy of the elementary-function approximations for moderate arguments. A call with the wrong arity or shape, or compilation of an expression with an unbound variable, is rejected rather than answered; a compiled function's result does not depend on other functions compiled before or after.",
  ["programs", "inputs", "configurations"], "all expressions, variable partitions, orders, arities and inputs",
  "Tests compile a few single-variable expressions and evaluate each at one or two points.",
  [S + "jit.rs", S + "final_tagless.rs"], [("GeneralJITCompiler", S + "jit.rs"), ("GeneralJITFunction::call_*", S + "jit.rs"), ("JITRepr / JITEval", S + "final_tagless.rs")],
  observe_at=["call_single", "call_data_param", "call_data_params", "call_batch"], hook_needed=None)

p("M13", "Equality-saturation optimisation preserves value and has no memory",
  "For every expression, optimisation returns an expression, and that expression denotes the same value as the original at every assignment at which the original is defined. The result is never a bigger tree than the original, is a smaller one where an operation is idle (adding 0, multiplying by 0 or 1, x-x, ln(exp x), --x, ...), and does not depend on what the same optimiser object optimised before.",
  ["programs", "histories"], "all expression trees, all assignments, and all sequences of optimisations on one optimiser",
  "Tests optimise three or four tiny expressions on fresh optimisers and check structure.",
  [S + "optimization.rs"], [("EgglogOptimizer::optimize", S + "optimization.rs"), ("rule set", S + "optimization.rs")],
  state=[{"name": "e-graph", "meaning": "terms and equalities accumulated by one optimiser", "where": S + "optimization.rs"}],
  observe_at=["optimize"], hook_needed=None)

p("M14", "All tagless interpreters give one meaning to one program",
  "A program written once against the final-tagless algebra means the same in every interpreter: direct evaluation, exponential-family and distribution evaluation, compiled evaluation and pretty-printing (whose text denotes the program), in both numeric widths. The helper programs built on the algebra (sums, powers, polynomials by coefficients or roots, derivatives, logistic and softplus, distribution and regression patterns) compute the function they name.",
  ["programs", "inputs"], "all programs of the algebra (every operator, arity and nesting), all interpreters, all inputs",
  "Tests run each interpreter on a couple of fixed programs; there is no statement relating interpreters over all programs.",
  [S + "final_tagless.rs", "mathjit/src/final_tagless.rs", E + "final_tagless.rs", D + "final_tagless.rs"],
  [("MathExpr/StatisticalExpr interpreters", S + "final_tagless.rs, mathjit/src/final_tagless.rs"), ("polynomial helpers", "mathjit/src/final_tagless.rs, " + S + "final_tagless.rs"), ("patterns", E + "final_tagless.rs, " + D + "final_tagless.rs")],
  observe_at=["DirectEval", "PrettyPrint", "JITEval", "ExpFamEval", "DistributionEval"], hook_needed=None)

p("M15", "Printed renderings denote the expression they were printed from",
  "For every expression, the infix text, the LaTeX text and the Python text, read with the precedence and associativity rules of the target notation, denote an expression with the same value at every assignment. Two expressions that differ in value never print to the same infix text when their variable names are identifiers.",
  ["programs"], "all expression trees and constants, including negative and fractional constants and nested operators of equal and different precedence",
  "Tests compare the rendering of three or four shallow expressions with literal strings.",
  [S + "expr.rs", S + "lib.rs"], [("Display, to_latex, to_python", S + "expr.rs"), ("display helpers", S + "lib.rs")],
  observe_at=["to_string", "to_latex", "to_python", "display::*"], hook_needed=None)

p("M16", "Bayesian expressions and their compiled forms denote posterior terms",
  "Every Bayesian expression builder yields an expression that denotes the model it names: a posterior is likelihood plus prior, a normal or regression log-likelihood is the normal log-density of the data at the stated mean and scale, mixtures are log-sum-exp of weighted components. Variables are attributed to data or parameters exactly as the caller declared, and compiled posterior, likelihood and prior functions return the value the interpreted expression has at the same data and parameters.",
  ["programs", "inputs"], "all builder arguments, all model expressions, data and parameter vectors",
  "Tests check variable lists of a few built expressions and evaluate one or two at a point; the compiled forms are never evaluated.",
  ["measures-bayesian/src/bayesian/mod.rs"], [("expressions::*", "measures-bayesian/src/bayesian/mod.rs"), ("BayesianJITOptimizer", "measures-bayesian/src/bayesian/mod.rs")],
  observe_at=["evaluate", "call_*"], hook_needed=None)

p("M17", "Coefficient measures and log-combinatorics are exact at every size",
  "The log-factorial, log-binomial and log-negative-binomial coefficients and the measures built from them equal the logarithm of the exact integer coefficient for every size (to within the rounding of the factorials involved), on both sides of the point where tabulated values give way to an asymptotic formula, in both float widths. They satisfy Pascal's rule and symmetry, and are -inf exactly where the coefficient is zero.",
  ["inputs"], "all argument sizes from 0 to the largest representable, both float widths",
  "Tests assert only finiteness and sign for a few small arguments.",
  [C + "derived/factorial.rs", C + "derived/binomial_coefficient.rs", C + "derived/negative_binomial_coefficient.rs"],
  [("LOG_FACTORIAL_TABLE / Stirling branch", C + "derived/factorial.rs"), ("log_binomial_coefficient", C + "derived/binomial_coefficient.rs")],
  observe_at=["log_factorial", "log_binomial_coefficient", "log_negative_binomial_coefficient", "log_density_wrt_root"], hook_needed=None)

p("M18", "Precomputed evaluators equal the standard density",
  "For every exponential-family distribution, parameter and point of the support, the specialised closure obtained from the distribution (relative to the root measure, or relative to any other measure) returns the same value as the standard log-density, as do the inline-specialised and automatically compiled evaluators where offered. An optimisation that is not available reports so instead of returning a number.",
  ["inputs", "configurations"], "all exponential-family distributions, parameters, base measures, sample counts and points",
  "Tests compare the closure with the standard density for one or two normals at one point.",
  [E + "jit.rs", E + "auto_jit.rs", E + "iid.rs"], [("generate_zero_overhead_exp_fam(_wrt)", E + "jit.rs"), ("StaticInlineJITCompiler", E + "jit.rs"), ("auto_jit", E + "auto_jit.rs")],
  observe_at=["zero_overhead_optimize", "zero_overhead_optimize_wrt", "compile_normal", "compile_exponential", "auto_jit", "compile_jit"], hook_needed=None)

p("M19", "Substituting parameters into a symbolic density preserves meaning",
  "For every symbolic log-density, evaluating with its stored parameters, evaluating after the parameters have been substituted into the expression, and evaluating after simplification give the same value; a value supplied at evaluation overrides a stored parameter of the same name, and a missing variable is reported. The list of variables always names exactly the variables the expression mentions.",
  ["programs", "histories"], "all expressions, parameter maps, supplied assignments and sequences of substitution and simplification",
  "Tests substitute once in one expression.",
  [S + "expr.rs", S + "jit.rs"], [("SymbolicLogDensity", S + "expr.rs"), ("CustomSymbolicLogDensity", S + "jit.rs")],
  observe_at=["evaluate", "evaluate_single", "substitute_parameters", "variables"], hook_needed=None)

p("M20", "Numeric conversions and vector helpers lose nothing silently",
  "Converting a number between numeric types yields the number itself when the target type holds it, its nearest value for a float target and its integer part for an integer target otherwise, and exactly the documented fallback or an error when it is out of range, never an unrelated value; special float values survive. Dot products, array sums and differences are computed over all components, in order, for every length.",
  ["inputs"], "all numeric source/target types and values including extremes and special values; all vector lengths",
  "Tests sample ordinary values for a few type pairs.",
  ["measures-core/src/core/utils.rs", "measures-core/src/traits/dot_product.rs", E + "array_utils.rs", E + "traits.rs"],
  [("safe_convert*, float_constant", "measures-core/src/core/utils.rs"), ("DotProduct, array_sub", "measures-core/src/traits/dot_product.rs"), ("sum_arrays, add_arrays", E + "array_utils.rs")],
  observe_at=["safe_convert", "safe_convert_or", "safe_float_convert", "float_constant", "dot", "sum_sufficient_stats"], hook_needed=None)

p("M21", "Differentiable transforms are the maps they describe, with derivatives",
  "For every matrix, offset and input, a linear transform gives A x + b to the precision of the number type it is used with (never a narrower one), whatever chain it is part of; a componentwise transform applies its function to every coordinate in order; both report their dimensions and refuse arguments whose lengths do not fit. Derivatives propagated through any chain of them, in forward and in reverse mode, are the chain's Jacobian, and the volume factor of a square linear transform is the logarithm of the absolute value of its determinant (minus infinity when it is singular). A log-density evaluated over automatic-differentiation numbers has the value it has over floats and the derivative of that function, alone and relative to another measure.",
  ["inputs", "programs"], "all shapes, matrices, offsets, inputs, chains of transforms and number types (f64, f32, forward and reverse AD)",
  "The module's tests are placeholders that print a line; nothing is evaluated with the feature autodiff on.",
  ["measures-combinators/src/measures/combinators/transform.rs", "measures-core/src/core/autodiff.rs"],
  [("LinearTransform, ComponentwiseTransform", "measures-combinators/src/measures/combinators/transform.rs (feature autodiff)"), ("LogDensityAD, AutoDiffMeasure", "measures-core/src/core/autodiff.rs (feature autodiff)")],
  observe_at=["DifferentiableTransform::transform", "log_abs_det_jacobian", "input_dim", "output_dim", "at_ad", "ad_log_density", "value_and_grad"], hook_needed=None)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
