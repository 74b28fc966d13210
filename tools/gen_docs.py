#!/usr/bin/env python3
'''Writes properties.jsonl and MANIFEST.json from the one table below (run after changing it).'''
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

KE, GR, KX = 'GPy_ABCD/KernelExpressions/', 'GPy_ABCD/KernelExpansion/', 'GPy_ABCD/Kernels/'
BASE, CB, CM, CH = KE + 'base.py', KE + 'commutative_base.py', KE + 'commutatives.py', KE + 'change.py'
GRAM, OPS, KOP, INT = GR + 'grammar.py', GR + 'kernelExpressionOperations.py', GR + 'kernelOperations.py', GR + 'kernelInterpretation.py'
BK, CO, SG = KX + 'baseKernels.py', KX + 'changeOperators.py', KX + 'sigmoidalKernels.py'
MS, MD, MU, GU, DP, CF = 'GPy_ABCD/Models/modelSearch.py', 'GPy_ABCD/Models/model.py', 'GPy_ABCD/Util/modelUtil.py', 'GPy_ABCD/Util/genericUtil.py', 'GPy_ABCD/Util/dataAndPlottingUtil.py', 'GPy_ABCD/config.py'

P = []
def p(id, title, statement, over, text, why, files, mech, observe, note, technique, state = None):
    P.append(dict(id = id, title = title, statement = statement, over = over, text = text, why = why, files = files, mech = mech, observe = observe, note = note, technique = technique, state = state))

COMMON = ' The specification is trusted as the meaning of the property (its own design-level invariants are model checked); inputs beyond the exhaustive bound are sampled by TLC simulation, seeded.'

p('C01', 'Every kernel expression reaches one normal form',
  'However a kernel expression is written (nesting, term order, redundant wrappers and repetitions), building and simplifying it ends in a normal form: no sum inside a sum, no product inside a product, no one-term wrapper and no term which a documented simplification would still remove. Simplifying again changes nothing, and different spellings of the same expression give expressions which compare as equal.',
  ['inputs', 'programs'], 'for all raw expressions over the base kernels, sums, products, change points and change windows, in every order of terms',
  'Tests simplify a few hand-written expressions; that one pass suffices for every nesting (a singleton which becomes homogeneous, a product which becomes a singleton) is only visible on expressions nobody wrote down.',
  [CB, CM, CH, BASE], [('simplify: singletons, then homogeneous composites, then base terms', CB), ('simplify_base_terms of sums and products', CM), ('branches of changes', CH)],
  ['SumKE, ProductKE and ChangeKE constructors', 'simplify', '== between expressions'],
  'Kex.tla states normality independently of the normal-form operator; TLC proves on all expressions up to 3 leaves that the operator reaches it, is idempotent and order independent. TLC-generated raw trees (all with 2 leaves, sampled to 12) are replayed on the constructors and simplify(), in several orders; TLC judges every recorded result.' + COMMON,
  'TLA+/TLC: normal-form specification + replay of generated expressions + trace judging')

p('C02', 'Simplification applies exactly the documented laws',
  'Simplification changes an expression only by the documented laws: white noise and constants are idempotent under addition, a linear kernel with offset absorbs constants under addition, white noise absorbs stationary factors, constants are identities of products, and squared exponentials are idempotent under multiplication. No other term is lost, added or changed, so the covariance family denoted stays the same.',
  ['inputs', 'programs'], 'for all raw expressions, in every order and nesting',
  'Tests compare a handful of results with expected strings; a law applied too widely (dropping a term only when three kinds of factors meet) needs the quantification over all combinations.',
  [CM, CB], [('base term laws of sums', CM + ' SumKE.simplify_base_terms'), ('base term laws of products', CM + ' ProductKE.simplify_base_terms'), ('absorption of composites', CB + ' absorb_homogeneous_composites')],
  ['str, repr and term structure of built expressions'],
  'The documented laws are the operators SumLaw/ProdLaw and a separate denotation (sets of monomials modulo the laws) in Kex.tla; TLC checks the two agree on all small expressions, and judges replayed real simplifications against both.' + COMMON,
  'TLA+/TLC: laws and denotation + replay of generated expressions + trace judging')

p('C03', 'Equality, printed forms and queries agree with structure',
  'Two expressions compare equal exactly when they have the same structure up to the order of terms; evaluating the printed representation of an expression gives back an equal one, and its infix form reads as the same expression. Asking whether base kernels occur, whether an expression is stationary, and traversing or reducing it answer for exactly the nodes it has.',
  ['inputs'], 'for all pairs of expressions, including near misses with the same leaves, in all term orders',
  'Equality with multisets of unhashable terms, bracketing and traversal are only tested on a few expressions; a wrong answer needs a particular pair.',
  [CB, CH, BASE, CM, GU], [('__eq__ on base terms and eq_elems of composites', CB), ('__str__ with brackets, __repr__', CB + ', ' + CM), ('traverse/reduce/contains_base/is_stationary', CB + ', ' + CH)],
  ['==, !=, str, repr, contains_base, is_stationary, traverse, reduce'],
  'Equality of canonical values (bags) in Kex.tla is equality up to order; queries are specified there. Generated expressions and pairs with equal leaves are compared, printed, parsed back, and traversed on the real objects; TLC judges.' + COMMON,
  'TLA+/TLC: canonical structure + replay of generated pairs + trace judging')

p('C04', 'Expression trees stay well linked under every operation',
  'In every expression produced by expansion each node is contained once, its parent is the node which contains it and its root is the whole expression; the same holds for the parents of what the expression operations and constructors produce. In particular no link leads into the expression something was derived from.',
  ['programs', 'histories'], 'for all histories of expansions by any production rules from any start expression, and all operations on pairs of expressions',
  'Tests check links after a few single operations; stale links only show after several rounds, when an edit is spliced in at the wrong place.',
  [BASE, CB, CH, GRAM], [('new_tree_with_self_replaced and reassign_child', BASE), ('set_root/_set_all_parents', CB + ', ' + CH), ('standardise_singleton_root', GRAM)],
  ['parent and root of every node reachable from an expansion result'],
  'Object graphs of results (nodes, parents, roots, owned containers) are recorded for TLC-generated histories of expansions and operation pairs and judged by the link predicates of TraceExpand.tla; the grammar itself is model checked in MCExpand.' + COMMON,
  'TLA+/TLC: grammar model + replay of expansion histories + object-graph judging',
  [{'name': 'parent/root links', 'meaning': 'the containing node and the whole expression', 'where': BASE}])

p('C05', 'Operations leave their arguments alone and share nothing',
  'Expanding, adding, multiplying, changing, swapping, removing or otherwise deriving expressions never modifies an expression given to the operation. Expanded expressions and built expressions share no mutable part with what they were derived from or with each other, so later changing one (for example by fitting) cannot change another.',
  ['programs', 'histories'], 'for all operations on all expressions and all histories of expansions',
  'Aliasing is invisible to tests comparing values right after the operation; it needs the object graphs before and after, for every operation.',
  [CB, CM, CH, OPS, BASE], [('deep copies in constructors', CB + ', ' + CH), ('new_tree_with_self_replaced', BASE), ('operations on copies of counters', OPS)],
  ['identity of nodes and containers', 'structure of arguments before and after'],
  'As C04: identities of nodes and mutable containers of arguments and results are recorded and their disjointness and the arguments\' constancy judged by TraceExpand.tla. replace_node and remove_a_term may hand out their argument\'s own parts by design (the expansion copies them); only their non-modification is claimed.' + COMMON,
  'TLA+/TLC: replay of generated operations + object-graph judging')

p('C06', 'Expansion yields exactly the edits of the production rules',
  'Expanding an expression by a production rule yields, up to simplification, exactly the expressions obtained by applying that rule once at one node anywhere in the expression (a base kernel branch of a change counts as a node): none is missing and nothing else appears. The named groups of rules consist of the documented rules, and expanding by several rules is the union of expanding by each.',
  ['inputs', 'programs'], 'for all expressions reachable by any history of expansions and all production rules',
  'Tests count or spot-check results on few expressions; a rule which skips one side of a nested change or mis-splices an edit changes the searched space silently.',
  [GRAM, OPS, BASE, CH], [('production rules', GRAM), ('add/multiply/swap_base/one_change/remove_a_term/higher_curves', OPS), ('traverse and new_tree_with_self_replaced', BASE + ', ' + CH)],
  ['expand(expression, rules)'],
  'Expand.tla defines every operation, rule and the edit-anywhere closure independently; MCExpand model checks it; TLC-generated histories are followed on real objects and at every step the full set of results of every rule is judged equal to the specified set.' + COMMON,
  'TLA+/TLC: grammar specification + replay of expansion histories + set equality judging')

p('C07', 'Reachable expressions are normal, distinct and configured',
  'Everything a search can reach from the start expressions is in normal form, has at least one term everywhere, is in the standard form of a whole expression, and uses no base kernel which the configuration leaves out (other than those already there). One expansion never contains the same expression twice, and the default groups of start expressions are the documented ones, once each.',
  ['histories', 'programs'], 'for all histories of expansions from all start expressions by all rules',
  'Each round feeds the next: a malformed expression appearing only at depth three is out of reach for tests which expand once.',
  [GRAM, CB, CM], [('expand, unique and roots', GRAM), ('standardise_singleton_root', GRAM), ('base_kerns_for_prod', GRAM), ('start_kernels', GRAM)],
  ['expand results', 'start_kernels'],
  'The invariants are model checked on the grammar machine of MCExpand.tla up to 4 leaves and judged on every result recorded along TLC-generated histories of up to 8 expansions.' + COMMON,
  'TLA+/TLC: model-checked reachability + replay of expansion histories')

p('C08', 'The kernel built from an expression is that expression',
  'The covariance built from an expression evaluates, at all parameter values and inputs, to the sum, product and sigmoid-weighted change of its parts, and so do the sigmoidal kernels by themselves; it has one variance per product of base kernels and every other parameter free, and each has an effect on the covariance wherever it is set. It is symmetric, positive semi-definite, consistent between its diagonal, square and cross forms, and unaffected by copies, other kernels and earlier parameter values. The unrefined kernel is the same with the variance of every base kernel kept.',
  ['inputs', 'programs'], 'for all expressions, parameter values and evaluation points',
  'Tests fit one kernel per kind; whether nested change operators evaluate the very sub-kernels whose parameters are optimised depends on the composition and on assigning parameters after construction.',
  [BK, CO, SG, KX + 'linearOffsetKernel.py', KX + 'periodicKernel.py', CM, CH], [('to_kernel of sums, products and changes', CM + ', ' + CH), ('change point and window covariance', CO), ('base kernels', BK)],
  ['K, Kdiag and parameters of to_kernel()'],
  'Kernel.tla evaluates kernels exactly in rational arithmetic on a lattice of parameter values and points where all base kernels are rational; the real kernels\' structure, parameters and values are recorded for generated expressions with random lattice assignments and must be exactly equal. Positive semi-definiteness, copies, effects of parameters etc. are measured at generic values by the driver (tolerance 1e-6) and judged as booleans. Gradients are C23.' + COMMON,
  'TLA+/TLC: exact rational semantics of kernels + replay of generated expressions')

p('C09', 'Fitted parameters are attributed to the right term',
  'After a fit every base kernel and change of the expression carries the value of each of its own fitted parameters, however many terms of the same kind there are and however deeply they are nested; each product carries the one variance of its base factors. The model\'s expression itself is not changed by fitting or describing.',
  ['inputs', 'programs'], 'for all expressions and all fitted parameter values',
  'Matching works by generated names with numbering of repeated ones; only repeated terms at particular positions distinguish right from swapped.',
  [CB, CM, CH, KOP], [('match_up_fit_parameters', CB + ', ' + CM + ', ' + CH), ('get_param_dict', KOP)],
  ['parameters of the expression of a fitted model'],
  'Kernel.tla!Annot defines the expected attribution from the fitted kernel\'s own tree. Models of generated expressions are fitted with a stand-in optimiser assigning distinct random values (so swaps are visible); TLC compares bags.' + COMMON,
  'TLA+/TLC: attribution specification + replay with stand-in optimiser')

p('C10', 'The sum-of-products form equals the fitted covariance',
  'The sum-of-products form of a fitted model is the fully distributed and simplified expression with the fitted parameters: same variance, factors and parameters for every product, and no composite terms left. Its covariance is that of the fitted kernel at all inputs, and asking for it again gives the same.',
  ['inputs', 'programs'], 'for all expressions and all fitted parameter values',
  'The existing tests expand a few shapes; distribution over nested changes inside products and simplification with parameters interact in combinations nobody wrote down.',
  [CM, CH, MD], [('sum_of_prods_form', CM + ', ' + CH), ('new_bases_with_parameters, simplify_base_terms_params', CM), ('cached form', MD)],
  ['sum_of_prods_kex of a fitted model'],
  'Kernel.tla!Sop defines the form; TLC model checks that it has the same exact covariance as the kernel on all kernels of up to 3 base kernels, and judges the real forms recorded from generated models both by equality of products and by exact value.' + COMMON,
  'TLA+/TLC: model-checked distribution + replay with stand-in optimiser')

p('C11', 'Descriptions state exactly the fitted terms',
  'The description of a fitted model announces and contains exactly one sentence per product of its sum-of-products form, and each sentence states that product\'s shape, parameters (periods, lengthscales, offsets, where it applies) and overall variance with the right numbers. The same model is always described in the same way.',
  ['inputs', 'programs'], 'for all expressions and all fitted parameter values',
  'Text is tested for a few shapes at most; wrong numbers or a wrong grammatical case need particular combinations of factors.',
  [INT, BASE], [('base_factors_interpretation and its parts', INT), ('get_interpretation', BASE)],
  ['interpret() of a fitted model'],
  'Text.tla generates the set of acceptable sentences of each product (kinds of factors in fixed order, roots and intervals in any order) and TLC judges the recorded text of generated models. The wording itself is fixed by the specification, so a deliberate rewording needs a change there.' + COMMON,
  'TLA+/TLC: generated sentences + replay with stand-in optimiser')

p('C12', 'Change intervals state exactly where a term applies',
  'The intervals a description gives for a product of change sigmoids cover exactly the inputs where all of them are active, without empty, overlapping or touching intervals, and say so when there are none. When slopes are fitted, each end has the slope of a factor which changes there.',
  ['inputs'], 'for all numbers, kinds, orders and positions of sigmoidal factors',
  'Intersections of windows and complements depend on the relative order of all ends, ties included; tests have none.',
  [INT], [('sigmoids_to_intervals', INT), ('intervals_text and unions', INT)],
  ['interpret() of products with sigmoidal factors'],
  'Interval.tla defines active cells and maximal intervals; TLC enumerates all sequences of up to 3 factors (4 in the thorough tier) on a small grid including ties, and judges the intervals parsed from the real text cell by cell.' + COMMON,
  'TLA+/TLC: exhaustive enumeration of factor configurations + replay')

p('C13', 'Search bookkeeping is exact',
  'After any number of rounds the search results account for everything: models are listed per round in the order of their scores, the overall list holds exactly all of them sorted, the tested expressions are exactly those fitted in order, and every model is either among the expanded or the not yet expanded, never both. Scores are those of the given utility function.',
  ['histories', 'inputs', 'configurations'], 'for all expansion graphs, scorings (ties included), starts, beams and numbers of rounds',
  'Tests cannot fit enough models to see rounds interact; ties, exhausted frontiers and repeated expressions need chosen graphs and scores.',
  [MS, GU], [('explore_model_space', MS), ('model_search_rounds', MS), ('diff, unique, flatten', GU)],
  ['the five returned values'],
  'Search.tla is a machine over abstract expansion graphs; MCSearch checks its invariants on every graph of 3 expressions with every scoring and beam. TLC-generated searches (graph, scores, beams, splits) are replayed on the real search with stand-in rules and fitter, and real grammars with stand-in scores; TLC validates the returned lists as a behaviour of the machine.' + COMMON,
  'TLA+/TLC: search machine, exhaustive small graphs + replay + trace validation',
  [{'name': 'sorted/tested/expanded/not expanded', 'meaning': 'the state of a search between rounds', 'where': MS}])

p('C14', 'The beam expands exactly the best unexpanded models',
  'Each round expands exactly the requested number of best models not expanded before (all of them if there are fewer), and nothing else. A single number, a list, a list too short (its last value repeats) and a list too long mean the same wherever a search is started or continued, and anything else is refused.',
  ['histories', 'inputs', 'configurations'], 'for all graphs, scorings, beams (numbers, short and long lists) and rounds',
  'Which model is expanded in round three depends on scores of all earlier rounds; tests check no more than that a search runs.',
  [MS], [('beam_by_round', MS), ('not_expanded[:b]', MS), ('sorting by score', MS)],
  ['expanded models per round', 'TypeError for wrong beams'],
  'As C13; the Greedy invariant of MCSearch and the per-round clauses of TraceSearch.tla decide it.' + COMMON,
  'TLA+/TLC: search machine, exhaustive small graphs + replay + trace validation')

p('C15', 'No expression is fitted twice and no candidate is missed',
  'Within a search, continued or not, no expression equal to one already fitted is fitted again, and every expression the rules derive from an expanded model is fitted in that round unless it was before. The models of a round are exactly one per new expression.',
  ['histories', 'inputs'], 'for all expansion graphs and histories of rounds',
  'Repeats show only when different paths lead to the same expression in later rounds.',
  [MS, GU, CB], [('membership in tested expressions', MS), ('unique', GU), ('__eq__', CB)],
  ['expressions passed to the list fitter', 'tested expressions'],
  'As C13 (OnceOnly and Complete invariants; fitter calls recorded). Start expressions are assumed distinct: duplicates given by the user are fitted as given.' + COMMON,
  'TLA+/TLC: search machine, exhaustive small graphs + replay + trace validation')

p('C16', 'A continued search equals a longer one',
  'Running some rounds and continuing from the results gives the same results as running all the rounds at once, whatever the split; neither verbosity nor the earlier results\' later use changes anything, and the lists given to a continuation are left as they were. If fitting fails in a round, the results from before can be continued from as if it had not been tried.',
  ['histories', 'crash_points', 'fault_sequences', 'configurations'], 'for all splits of all searches, with a failure at any round, verbose or not',
  'It compares two whole histories, with faults injected at chosen rounds; tests never continue a search.',
  [MS], [('model_search_rounds copies what it is given', MS), ('verbose printing', MS)],
  ['returned values of explore_model_space and model_search_rounds, and the lists passed in'],
  'As C13: each generated search is replayed whole, split at a generated round, verbosely, and with a failing fitter at a generated round, and TLC compares the outcomes and the given lists before and after. The same utility function is assumed throughout.' + COMMON,
  'TLA+/TLC: search machine + replay of splits and injected failures')

p('C17', 'Fits are retried as asked and lists keep their order',
  'A failing fit is retried exactly as many times as allowed with a warning each, the last failure is passed on and a success ends the retrying; interrupts are never swallowed. Fitting a list of kernels, one after another or in parallel, gives one model per kernel in the given order with the given data, restarts and optimiser.',
  ['fault_sequences', 'inputs', 'configurations'], 'for all scripts of failures and successes, numbers of retries, lists of kernels and both list fitters',
  'Failures of the optimiser are numerical accidents which tests do not provoke.',
  [MS], [('fit_one_model', MS), ('fit_mods_not_parallel and fit_mods_parallel_processes', MS)],
  ['calls of the fit, warnings, exceptions and returned models'],
  'Fits.tla is the retry machine; all scripts within the bound are enumerated by TLC and replayed with injected failures in series and in worker processes (including list sizes around multiples of the processor count); TLC judges attempts, warnings, order and arguments.' + COMMON,
  'TLA+/TLC: retry machine, exhaustive fault scripts + replay')

p('C18', 'A model answers for its latest fit',
  'Whatever sequence of fits (successful or failing), scorings, expansions into sum-of-products form, descriptions, printouts and predictions a model goes through, what it returns is that of its latest successful fit, and before any it refuses. Copies of a model (also by pickling) answer as it does and live separately from then on. Its expression and data stay as they were given.',
  ['histories', 'fault_sequences'], 'for all sequences of actions on a model, with failures of fits anywhere',
  'Stale cached values need a particular order of refitting and asking, which no test has.',
  [MD], [('fit resets what was derived', MD), ('cached sum-of-products form and score', MD)],
  ['GPModel.fit, compute_utility, sum_of_prods_kex, interpret, predict; copies; model_printout'],
  'Lifecycle.tla is the machine; all action sequences of 3 (4) steps on a model and its copies, of 4 (5) on one model, and sampled longer ones are generated by TLC and replayed with a stand-in optimiser whose fits are distinguishable; TLC judges each answer.' + COMMON,
  'TLA+/TLC: lifecycle machine, exhaustive histories + replay',
  [{'name': 'fitted model, sum-of-products form, score', 'meaning': 'what is derived from the latest fit', 'where': MD}])

p('C19', 'Scores follow their definitions and count parameters right',
  'The Bayesian, Akaike and corrected Akaike criteria of a model are those defined by its log-likelihood, its number of data points and its number of free parameters (noise included), so lower is better and extra parameters cost what they should. The leave-one-out score is the mean of minus the log density which the model gives each value from all others, so it is lower for better models too. The score kept by a model is the one last computed, with its name.',
  ['inputs'], 'for all likelihoods, data sizes and parameter counts, and all expressions',
  'Formulas are untested; the parameter count depends on how products tie variances in each expression.',
  [MU, MD, CM], [('BIC, AIC, AICc, LA_LOO', MU), ('_k counts the optimised parameters', MD), ('unlinked variances of products', CM)],
  ['score functions and compute_utility'],
  'Score.tla states the criteria on an integer grid (with ln n as a symbol) with monotonicity laws model checked; real formulas and models of generated expressions (one or two outputs) are judged; likelihoods and leave-one-out densities are recomputed by the driver from the definition. AICc for n <= k + 1 is excluded (undefined).' + COMMON,
  'TLA+/TLC: score specification + replay on grid and generated models')

p('C20', 'Guarantees hold under every configuration',
  'With squared exponentials included, with linear kernels without offset, with fitted change slopes or with the standard periodic kernel, the guarantees on simplification, expansion, kernels, parameter attribution, sum-of-products form, descriptions, intervals and gradients hold as they do by default, with the laws and parameters of that configuration. In particular no constant is absorbed by a linear kernel without an offset, and no offset or slope is reported which was not fitted. With independent sides of change windows, kernels, gradients, predictions, attribution and descriptions hold likewise, the covariance being that of the first branch before the window and of the same branch shifted by a fitted constant after it.',
  ['configurations', 'inputs', 'programs'], 'for all values of these flags (alone and in combinations), all expressions and parameters',
  'The tests run under the default flags only, which are read when the package is imported.',
  [CF, CM, GRAM, BK, INT, KOP], [('flags', CF), ('conditional laws', CM), ('rules\' base kernels and start kernels', GRAM), ('conditional kernels', BK), ('conditional texts', INT)],
  ['as C01 to C12, in processes importing the package with other flags'],
  'The flags are constants of the specification; the same generation, replay and judging as C01-C03, C06-C12 and C23 runs under 6 (11) combinations; with independent window sides all but the sum-of-products form, which has no term for the shift.' + COMMON,
  'TLA+/TLC: parametrised specification + replay under each configuration')

p('C21', 'List utilities compute what they promise for any elements',
  'The list helpers the search is built on treat elements by equality, without needing hashes: removing duplicates keeps first occurrences in order, differences and comparisons respect multiplicities, conditional consumption takes the first suitable element and updates the rest, and sorting by dependencies is possible exactly for acyclic ones. None alters its arguments except where said, and nothing is lost or invented.',
  ['inputs'], 'for all lists (repetitions, empty ones, absent elements), conditions, updates and graphs',
  'Only incidental uses are tested; multiplicities, ties and cycles are not.',
  [GU], [('foldq, topological_sort', GU), ('unique, diff, eq_elems', GU), ('partition, group_by, chunk, unzip, zip_maps, update_dict_with, interval_overlap', GU)],
  ['return values and arguments'],
  'Lists.tla defines each; TLC checks laws (multiset counts, sortedness) on, and emits, every input within the bound, and judges what the real functions returned for unhashable elements.' + COMMON,
  'TLA+/TLC: exhaustive small inputs + replay')

p('C22', 'Synthetic data have the change they were asked for',
  'Data generated with a change point or window follow the first function outside and the second from the change point on or inside the window (ends included), and when lined up each piece starts where the previous one ends; values are weighted and noise is added with its weight. Values do not depend on the order, number or type of the points given.',
  ['inputs'], 'for all functions, positions, weights, and integer, real, row or column inputs',
  'Generators are only used to make plots and examples; truncation or a misplaced piece stays unnoticed.',
  [DP], [('cp_f_maker, cw_f_maker', DP), ('generate_data, generate_changepoint_data, generate_changewindow_data', DP)],
  ['generated X and Y'],
  'Piecewise.tla defines the values exactly; TLC enumerates functions and positions, checks that lined-up pieces meet, and judges recorded data with the (seeded) noise subtracted.' + COMMON,
  'TLA+/TLC: exhaustive small cases + replay')

p('C23', 'Fitting follows the derivative of the covariance',
  'For every free parameter of the kernel of every expression, the gradient which an optimiser is given is the derivative of the covariance by that parameter, through all the sums, products and changes around it, at all points (of one set or two) and parameter values, and likewise for the sigmoidal kernels by themselves. For the position, width and slope of a change it is, as its notes say, the derivative of the share of the second branch. Gradients do not depend on what was computed before.',
  ['inputs', 'programs'], 'for all expressions, free parameters, parameter values, points and weights',
  'A wrong gradient only makes fits worse, not wrong enough for a test; it depends on the regime of the parameters and on what surrounds the kernel.',
  [CO, SG, KX + 'linearOffsetKernel.py', KX + 'linearKernel.py', KX + 'periodicKernel.py'],
  [('update_gradients_full of changes: weights of both branches', CO), ('derivatives of sigmoids', SG), ('derivatives of the base kernels', KX + 'linearOffsetKernel.py, ' + KX + 'periodicKernel.py')],
  ['update_gradients_full and the gradients of the linked parameters'],
  'Gradient.tla gives every derivative exactly in rational arithmetic on the lattice of Kernel.tla (TLC checks them against exact central differences of the specified covariance where it is quadratic in the parameter, and against difference quotients for sigmoids). Real gradients of generated expressions, for every pair of points, must be exactly these; at generic parameter values (all regimes of the periodic kernel) the driver compares with numeric differences and TLC judges the outcome. The standard periodic kernel, white noise, constants and SE are implemented in GPy.' + COMMON,
  'TLA+/TLC: exact derivatives of the kernel specification + replay of generated expressions')

p('C24', 'Predictions are the posterior of the fitted covariance',
  'What a fitted model predicts at any points is the posterior, given its data, of the process with the covariance of its expression at the fitted parameters and its fitted noise: mean, variances or full covariance, with or without the noise of new observations, for every output column, and as quantiles at the asked percentages of new observations. Predictions of one term of a sum are that term\'s posterior, and their means add up to the whole. Another likelihood given for the prediction replaces the noise of new observations only. Predicting changes neither the model nor its data, and points asked about do not influence each other.',
  ['inputs', 'programs'], 'for all expressions, parameter values, data, points asked about and forms of the question',
  'Predictions are not tested; cross-covariances between data and new points take other code paths than covariances of the data, in every kernel and change.',
  [MD, CO, BK, SG], [('GPModel.predict', MD), ('K with two sets of points, Kdiag', CO + ', ' + SG)],
  ['GPModel.predict: mean, covariance, low_quantile, high_quantile'],
  'Posterior.tla conditions on one observation after the other in exact rationals; TLC checks on all kernels of 2 leaves that the order does not matter, that it agrees with solving at once, that variances shrink and stay non-negative, and that terms add up. Real predictions of generated expressions from one or two observations on the half lattice must agree to 5 digits (quantiles through the square of their distance from the mean); at generic points and parameters with up to 8 observations the driver solves the equations numerically with the real covariance and TLC judges the outcome. The standard periodic kernel is excluded.' + COMMON,
  'TLA+/TLC: exact conditioning on the kernel specification + replay of generated expressions')

p('C25', 'Reports tell what happened',
  'A verbose search logs, for every round and overall, how many models were new and which are the best new ones, the best so far and the best not yet expanded, as its results have them. Printed models and directly fitted kernels show the expression, kernel, log-likelihood, score and description the model has, without changing it. Sample curves are as many as asked for, over the limits given, each drawn around zero with the covariance of one kernel for all or of a newly randomised one for each, and are saved where asked. Benchmark tables list every function by mean duration with the ratios of their means, also when merged.',
  ['inputs', 'histories'], 'for all searches and beams, models and scores, kernels and limits, and durations',
  'Reports are only looked at; a list which is of another round, a score under another name or curves missing from a plot look plausible.',
  [MS, MU, 'GPy_ABCD/Util/kernelUtil.py', 'GPy_ABCD/Util/benchmarking.py'],
  [('logs of explore_model_space and model_search_rounds', MS), ('model_printout, fit_GPy_kern', MU), ('sampleCurves, saveKernelSamples', 'GPy_ABCD/Util/kernelUtil.py'), ('compare_implementations, merge_bench_tables', 'GPy_ABCD/Util/benchmarking.py')],
  ['printed output', 'lines of the drawn plots, saved files', 'benchmark tables'],
  'Logs of generated searches (stand-in fitter) are parsed and compared by TLC with what the search machine says of the recorded results; Report.tla has the tables in exact rationals and the ways to sample curves (TLC checks laws on all small benchmarks, which are then replayed under a clock of their own). Curves are taken from the drawn plot; which kernel they are of is read from their zeros, their distribution from their coefficients along the kernel\'s covariance (a numeric test of the driver, with bounds of 7 standard deviations). Plots with plotly and the showcase scripts are not covered.' + COMMON,
  'TLA+/TLC: search machine and report specification + replay, logs and plots judged')

NOT_APPLICABLE = []

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            a = {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']], 'observe_at': x['observe'], 'hook_needed': None}
            if x['state']: a['state'] = x['state']
            f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['text']}, 'why_tests_cant': x['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
         'checks': [{'property': x['id'], 'quick_cmd': f'VERIF_TIER=quick python3 check.py {x["id"]}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {x["id"]}',
                     'technique': x['technique'], 'level': 'model_checking', 'level_note': x['note']} for x in P if x['id'] not in {n for n, r in NOT_APPLICABLE}],
         'not_applicable': [{'property': n, 'reason': r} for n, r in NOT_APPLICABLE],
         'notes': 'TLA+ with TLC. No hooks in /repo: drivers import the package from the working tree and record what it does; TLC judges. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent = 1); f.write('\n')

main()
