""" Source of /verif/properties.jsonl: python3 tools/props.py > properties.jsonl """
import json, sys

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
  assert len(title) <= 80, (id, len(title))
  P.append({'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why,
            'anchors': {'files': ['probayes/' + f for f in files],
                        'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                        'mechanism': [{'name': n, 'where': 'probayes/' + w} for n, w in mech],
                        'observe_at': observe, 'hook_needed': None}})

prop('C01', 'Probability scales never change the probability that is represented',
 "Converting probabilities between any two probability scales (a positive coefficient, or a log offset) and taking products or quotients of probabilities held on mixed scales always yields numbers which, read on the scale returned or requested, represent the exact value, product or quotient of the probabilities put in. Zero probabilities stay zero, and on log scales this holds however small the probabilities are. Converting there and back restores the numbers.",
 ['inputs', 'configurations'], 'every array of probabilities (scalars, zeros, tiny values), every pair or list of scales: coefficients, log offsets of either sign, None, 1, "log", "ln", 0',
 'tests/test_pscales-style tests use one or two scales with moderate values; scale combinations, offsets other than 0/1 and underflow are never sampled',
 ['pscales.py', 'pd.py'],
 [('rescale/prod_pscale/prod_rule/div_prob', 'pscales.py'), ('PD.rescaled', 'pd.py')],
 ['return values of pscale functions', 'PD.rescaled'])

prop('C02', 'Multiplying distributions obeys the product rule at every joint assignment',
 "The product of two or more compatible distributions assigns to every joint assignment of its variables the product of the probabilities the factors assign to their part of it, whatever the order of factors, of variables and of axes, however dimensions are shared, and whatever the probability scales involved. Its marginal variables are the factors' marginal variables and its conditional variables are those not marginal in another factor. Incompatible factors (repeated marginals, conflicting values or conditionals) are refused.",
 ['inputs', 'configurations'], 'every tuple of factor distributions: names, values (arrays, scalars), axis orders, shared axes, conditionals consumed by marginals in any order, scales',
 'tests multiply a few fixed two-variable distributions with axes in name order',
 ['pd_utils.py', 'pd.py', 'pscales.py'],
 [('product', 'pd_utils.py'), ('PD.__mul__', 'pd.py'), ('prod_rule', 'pscales.py')],
 ['PD returned by * and product()'])

prop('C03', 'Marginalising sums exactly over the variables removed',
 "Marginalising variables out of a distribution gives, for every assignment of the remaining variables, the sum of the probabilities of all assignments that agree with it, with each remaining variable keeping its own values; asking for the marginal of some variables removes exactly all other array-valued marginals. The order in which variables are removed does not matter, total mass is conserved, and it holds on linear and log scales, however small log probabilities are.",
 ['inputs', 'configurations'], 'every distribution: number of variables, sizes, key order versus axis order, variables sharing an axis, scalar variables, conditionals, scales',
 'tests marginalise two- and three-variable distributions whose axes follow key order',
 ['pd.py'], [('PD.marginalise, PD.marginal', 'pd.py')], ['PD returned by marginalise/marginal'])

prop('C04', 'Conditioning and dividing distributions is consistent with Bayes rule',
 "Conditioning a distribution on some of its variables, or dividing it by the marginal distribution of those variables, yields for every assignment the joint probability divided by the marginal probability of the variables conditioned on, labelled with those variables moved to the conditional side. Multiplying the result by the marginal restores the original probability at every assignment with non-zero marginal, and conditionals sum to one over the remaining variables. It holds for every axis order and on linear and log scales, however small the log probabilities are.",
 ['inputs', 'configurations'], 'every joint distribution, every subset of marginals, all axis orders, scales and magnitudes',
 'tests condition one two-variable joint; unordered axes, existing conditionals and extreme log probabilities are not reached',
 ['pd.py', 'pscales.py'], [('PD.conditionalise, PD.__truediv__', 'pd.py'), ('div_prob', 'pscales.py')],
 ['PD returned by conditionalise and /'])

prop('C05', 'Values stay attached to their probabilities when selecting or relabelling',
 "Selecting values from a distribution, sorting it by a variable, renaming its variables, reordering its axes or looking up its values never detaches probabilities from the assignments they belong to: the result holds exactly the selected assignments with unchanged probabilities. Selected variables become scalars when the selection is unique, an unmatched selection is empty, and repeated or shared-axis values are all kept.",
 ['inputs', 'histories'], 'every distribution and every selection, sort key, key map or axis permutation, and sequences of these',
 'tests slice small distributions in one order and check a few entries',
 ['pd.py', 'distribution.py'],
 [('PD.__call__, PD.sorted, PD.rekey, PD.redim', 'pd.py'), ('Distribution.lookup/redim/rekey', 'distribution.py')],
 ['PD or Distribution returned'])

prop('C06', 'Expectations and quantiles are those of the normalised distribution',
 "Expectations (with any exponent) equal the probability-weighted average of the values under the normalised distribution, for every marginal variable requested, for each value of the variables not averaged over, and independent of probability scale, axis order and normalisation. Quantiles lie within the range of the values, are non-decreasing in the requested quantile, do not depend on the scale, and bracket the requested cumulative probability between neighbouring values.",
 ['inputs', 'configurations'], 'every distribution (unnormalised, log-scaled, tiny log probabilities, shared axes, conditionals) and every quantile list',
 'tests only check one or two moments of a smooth distribution',
 ['pd.py'], [('PD.expectation, PD.quantile', 'pd.py')], ['dictionaries returned'])

prop('C07', 'Remarginalising conserves probability mass and bins every probability once',
 "Redistributing a distribution's probabilities onto the grid of another set of variables puts every probability exactly once in the bin its transformed values fall in, values beyond the grid going to the outermost bins. Total probability is conserved on every probability scale and conditional variables are carried over unchanged.",
 ['inputs'], 'every source distribution, every transformation of its variables, every target grid',
 'one example remarginalises one distribution and only plots it',
 ['pd.py'], [('PD.remarginalise', 'pd.py')], ['PD returned'])

prop('C08', 'Independent products over a dimension multiply every probability along it',
 "Collapsing variables by iid product multiplies, for each assignment of the other variables, all probabilities along the collapsed dimension and records how many samples were collapsed; the represented probability is right on every probability scale. Combining the collapsed distributions of two batches is the same as collapsing both batches at once.",
 ['inputs', 'configurations'], 'every distribution, subset of variables, axis order, shared axes, and scale including coefficients other than one',
 'tests collapse one-dimensional samples at unit scale',
 ['pd.py', 'pd_utils.py'], [('PD.prod', 'pd.py'), ('product (unit sets)', 'pd_utils.py')], ['PD returned'])

prop('C09', 'Saving and loading distributions restores them exactly',
 "Serialising any set of distributions, to a dictionary or to an HDF5 file, and reading them back gives distributions with the same variables, values, dimensions, marginal and conditional roles, probabilities and scales, in whatever order they were written. Writing leaves the distributions that are written unchanged and usable.",
 ['inputs', 'histories'], 'every distribution content (scalars, sets, log scales, shared axes, conditionals) and every batch of distributions written together',
 'the test round-trips two fixed distributions and compares a few fields',
 ['pd_utils.py', 'pd.py', 'distribution.py'],
 [('serialise, deserialise, write_dist, read_dist', 'pd_utils.py'), ('PD.serialise', 'pd.py')],
 ['deserialised PDs and Distributions'])

prop('C10', 'Variables only yield values in their domain and recognise their own domain',
 "Evaluating a variable (at its defaults, for a requested number of grid points, or for random samples) yields only values inside its set, of its type, and grids are ordered in transformed space with the number of points requested. Membership tests say exactly which given values belong to the set, respecting open and closed limits, and the length is that of the set in transformed coordinates.",
 ['inputs', 'configurations'], 'every variable type, set of values, open/closed/infinite limits, transformation, and every number or array of values evaluated',
 'tests build a handful of variables with one set each and never hit endpoints',
 ['variable.py', 'variable_utils.py', 'vtypes.py'],
 [('Variable.set_vset, evaluate, inside, limits', 'variable.py'), ('uniform, revtype', 'vtypes.py')],
 ['values returned by Variable calls'])

prop('C11', 'Increments move variables by the amounts asked and keep them in bounds',
 "Applying an increment to a variable or field changes each value by exactly the increment given, or by a random amount within the limits given: uniform steps never exceed the step size and reach all of it, unscaled spherical steps have the requested radius, and scaled steps are proportional to the lengths of the variables. Bounded variables never leave their set: a step over a closed limit stops at the limit, and a step to or over an open limit leaves the value where it was.",
 ['inputs', 'histories'], 'every variable or field, every kind of increment, every start value in the set, and long chains of increments',
 'tests apply one increment to one value, not chains against the limits',
 ['variable.py', 'field.py'], [('Variable.eval_delta, apply_delta', 'variable.py'), ('Field.eval_delta, apply_delta', 'field.py')],
 ['values returned by apply_delta'])

prop('C12', 'Random variables report and sample their declared probabilities',
 "A random variable's default probability is uniform over its set in its transformed coordinates: finite sets have probabilities that sum to one over the set, continuous bounded variables have a density whose integral is one, values outside the set get zero, and the probabilities agree on every scale. User-defined probabilities (functions, distributions, tables) are reported unaltered apart from the probability scale, one for each value.",
 ['inputs', 'configurations'], 'every variable type, set, transformation, scale and every array of values, inside or outside the set',
 'tests check a few variables at unit scale and inside their sets',
 ['rv.py', 'rv_utils.py', 'prob.py'], [('RV.eval_prob, nominal_uniform_prob', 'rv.py'), ('Prob.eval_prob', 'prob.py')],
 ['PD returned by RV call'])

prop('C13', 'Joint evaluations are the product of their parts at every point',
 "Evaluating a random field or a stochastic dependence on any mixture of scalars and arrays gives, at every joint assignment, the same probability as evaluating that assignment alone, which is the product of the component probabilities, or of the component conditional probabilities where dependencies are declared. Each value supplied appears in the result labelled with its own variable, independent of keyword order.",
 ['inputs', 'configurations'], 'every composition of variables and every mixture of scalar, array, shared-array and defaulted arguments',
 'tests evaluate a few fixed grids',
 ['rf.py', 'sd.py', 'field.py', 'prob.py'], [('RF.evaluate, RF.eval_prob, RF.__call__', 'rf.py'), ('SD.__call__', 'sd.py')],
 ['PD returned by RF and SD calls'])

prop('C14', 'Transitions follow the transition law and keep Markov probabilities consistent',
 "Stepping a variable with a transition matrix or function returns, for every predecessor, successor probabilities equal to the declared transition law, with predecessor and successor values labelled on their own axes; randomly drawn successors always have positive transition probability and occur with the declared frequencies. Repeated stepping of a distribution equals repeated matrix multiplication.",
 ['inputs', 'histories'], 'every finite set, transition matrix (including asymmetric and reducible ones) or function, and every predecessor set',
 'tests use one or two symmetric matrices and one step',
 ['rv.py', 'rv_utils.py', 'prob.py'], [('RV.step, RV.eval_step', 'rv.py'), ('matrix_cond_sample', 'rv_utils.py')],
 ['PD returned by step'])

prop('C15', 'Metropolis chains accept by the exact ratio and stay on the accepted state',
 "Every MCMC step accepts its proposal with probability equal to the Metropolis (or Metropolis-Hastings) ratio of the target probabilities, corrected by the ratio of reverse to forward proposal probabilities, on any probability scale; zero-probability or undefined proposals are never accepted and uphill symmetric ones always are. The reported state is the proposal if accepted and otherwise the previous state, and the next proposal starts from the reported state.",
 ['histories', 'inputs'], 'every target, proposal mechanism, probability scale and every run of the chain',
 'tests run one sampler on one target and check nothing per step',
 ['sp.py', 'sp_utils.py'], [('metropolis_scores/thresh/update, hastings_scores', 'sp_utils.py'), ('SP.next', 'sp.py')],
 ['opqr samples yielded by samplers'])

prop('C16', 'Samplers yield exactly the samples asked for, independently of one another',
 "A sampler yields exactly as many samples as asked, starting from the initial values given, each consecutive sample continuing the previous one; samplers of one process do not disturb each other: a new sampler starts afresh and leaves those under way where they were. Summaries contain every collected sample in order, exactly once, with its values and probabilities.",
 ['histories', 'schedules'], 'every number of samplers, every interleaving of their iteration, every stop count',
 'tests run a single sampler once',
 ['sp.py', 'sp_utils.py', 'sd.py'], [('SP.sampler, walk, next, __call__', 'sp.py'), ('summate', 'pd_utils.py')],
 ['samples yielded and summarised PDs'])

prop('C17', 'Conditional sampling of correlated normals follows the exact conditional law',
 "For every mean vector and covariance matrix the conditional distribution used to update one variable given all others has the exact Gaussian conditional mean and variance, samples follow that law, and only the updated variable changes. Gibbs chains visit the variables so that their samples reproduce the declared mean and covariance.",
 ['inputs', 'histories'], 'every dimension, mean, positive definite covariance, conditioning value and chain',
 'examples run one bivariate chain for plotting',
 ['cond_cov.py', 'rf.py', 'rf_utils.py', 'cf.py'], [('CondCov.interp, prob', 'cond_cov.py'), ('RF.set_tran covariance', 'rf.py')],
 ['values and probabilities of CondCov and RF.step'])

prop('C18', 'Expressions and functions receive each argument under its own name',
 "Evaluating a functional expression passes every value to the argument it is named for, whatever the order of keywords, partial application or indexing; indexed members of a multiple-function call their own function; and an invertible pair of functions are inverses of one another at every value.",
 ['inputs', 'configurations'], 'every callable signature, constant, partial argument list, ordering and index',
 'tests call a few functions with one ordering each',
 ['func.py', 'expression.py', 'expr.py', 'functional.py', 'icon.py'],
 [('Func/Expression evaluation', 'expression.py'), ('Functional', 'functional.py')], ['return values'])

prop('C19', 'Operations never modify the distributions they are applied to',
 "No algebraic operation, selection, statistic, conversion or serialisation changes any distribution it takes as operand: names, values, dimensions, probabilities and scale remain as they were, so results do not depend on which other operations were applied before. Results do not change when an operand or another result is subsequently used.",
 ['histories', 'inputs'], 'every sequence of operations on a shared pool of distributions',
 'tests use each distribution for one operation',
 ['pd.py', 'pd_utils.py', 'distribution.py', 'pscales.py'], [('copies taken in PD methods', 'pd.py')], ['state of operands before and after'])

prop('C20', 'Concatenating distributions keeps every entry once and in order',
 "Adding distributions over the same variables concatenates them: the result contains every entry of every operand exactly once, in order, with its probability; operands with different variables or scales are refused rather than mixed.",
 ['inputs', 'histories'], 'every list of singleton or array distributions over the same variables',
 'only singleton concatenation is exercised, through samplers',
 ['pd_utils.py', 'pd.py'], [('summate', 'pd_utils.py'), ('PD.__add__', 'pd.py')], ['PD returned by +'])

prop('C21', 'Binary conversions and boolean counting likelihoods are exact',
 "Converting positive integers to binary arrays and back restores them exactly. Boolean permutation frequencies count each permutation of the given boolean data exactly once and add up to the number of rows on top of the base frequency asked for each permutation; relative frequencies are these counts over their total; and the likelihood function returned, called directly or as the probability of a field or conditional model, gives for every assignment of its labels that assignment's own relative frequency, whatever the order of labels, variables and dimensions.",
 ['inputs'], 'every boolean data matrix, base frequency, label order, conditioning split and set of values asked for',
 'no test exercises the likelihood helpers with more than one data set',
 ['likelihoods.py', 'rf_utils.py'], [('int_to_bin, bin_to_int, bool_perm_freq', 'likelihoods.py'), ('slice_by_keyvals', 'rf_utils.py')], ['return values and distributions'])

prop('C22', 'Composed models contain every variable once with the dependencies declared',
 "Combining variables, fields and dependencies with & and | yields objects whose variables are exactly those of the parts, in order, with leaves and roots determined by the declared conditioning and independent of how the composition is bracketed. Indexing and naming give back the same variables.",
 ['programs', 'inputs'], 'every composition tree of variables, fields and dependencies',
 'tests use a few compositions of two or three variables',
 ['dependence.py', 'field.py', 'ops.py', 'sd.py', 'rf.py'], [('and_op, Field, Dependence.set_*', 'dependence.py')], ['leafs/roots/vars of composed objects'])

prop('C23', 'Distributions are structurally sound or refused',
 "Every distribution that can be constructed or returned has probabilities whose shape matches its values axis by axis, names that account for every variable once, and sizes, shape and dimension attributes that agree with its contents. Inconsistent names, dimensions, values or probabilities are refused with an error rather than stored.",
 ['inputs', 'histories'], 'every constructor argument combination and every result of any operation',
 'tests construct valid distributions only',
 ['distribution.py', 'pd.py', 'named_dict.py'], [('Distribution.dims setter', 'distribution.py'), ('PD.prob setter', 'pd.py')], ['attributes of every distribution'])

prop('C24', 'Change of variables keeps probability calibrated',
 "A float variable with a monotonic transformation of its values (a pair of functions with shared keywords, or an invertible symbolic expression; increasing or decreasing; over any set on which it is defined, whichever branch of the inverse that needs) samples uniformly and moves by increments in the transformed coordinates, its transformation and inverse undo each other over its whole set, and its default probability is the uniform density of the transformed coordinates and integrates to one over them. A symbolic transformation declared without change of variables leaves samples and increments in the original coordinates and makes the default density that of the original variable: the mass of every interval is its share of the transformed length, and the total is one. Fields of transformed variables keep each variable's own coordinates.",
 ['inputs', 'configurations'], 'every monotonic transformation (functions or symbolic expressions) and set',
 'tests use one transformation',
 ['variable.py', 'rv.py', 'rv_utils.py', 'expr.py'], [('Variable.set_ufun, evaluate', 'variable.py')], ['values and PDs'])

prop('C25', 'The last declaration counts, whenever it is made',
 "Declaring the set, probability, transformation, transition, proposal, increments, cumulative functions or acceptance of a variable, field, conditional model or process again, or setting an expression, function or probability again, makes it behave exactly as if only the last declaration of that kind had been made: nothing of a superseded declaration (its keywords, scales, remappings, defaults, or functions derived from it) remains. Probabilities and transitions declared on variables after they have been combined count as if declared before. Using objects between declarations, or declaring and using other objects of the same names or the same variables, leaves no trace, except that samplers modifying variables in turn remember whose turn it is.",
 ['histories'], 'every history of declarations, withdrawals, uses, compositions and bystanders',
 'tests declare every object once',
 ['rv.py', 'rf.py', 'field.py', 'sd.py', 'dependence.py', 'sp.py', 'prob.py', 'expression.py', 'func.py', 'variable.py'], [('set_prob, set_tran, set_tfun, set_prop, set_delta, set_scores, set_ufun, vset', 'rv.py'), ('Expression.set_expr', 'expression.py')], ['values, probabilities, steps and samples after any history, against those of a fresh object'])

if __name__ == '__main__':
  for p in P:
    print(json.dumps(p))
