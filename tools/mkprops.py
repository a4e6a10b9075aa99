"""Writes /verif/properties.jsonl (the single source for the property texts)."""
import json, os
P = []
S = 'src/sims_pars/'


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    anchors = {'files': [S + f for f in files],
               'mechanism': [{'name': n, 'where': S + w} for n, w in mech],
               'observe_at': observe}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': anchors})


p('C01', 'Graph queries and prunings equal what directed paths define',
  'For every directed acyclic network, the parent, child, ancestor, descendant, upstream, downstream, offspring, '
  'root and leaf queries return exactly the nodes that its links and directed paths define, and ordering or sorting '
  'lists each (requested) node once with parents before children. Removing the links into or out of a node, or '
  'everything upstream or downstream of some nodes (the listed nodes themselves stay), deletes exactly that, and '
  'merging two networks gives the union of their nodes and links. Queries never change the network.',
  ['inputs', 'programs'], 'every DAG and every choice of queried node(s)',
  'Two fixed 4-node graphs are tested; the removal helpers and most queries are not exercised at all.',
  ['bayesnet/dag.py'],
  [('DAG query and pruning methods', 'bayesnet/dag.py'), ('merge_dag / get_offsprings', 'bayesnet/dag.py')],
  ['return values of the graph queries', 'nodes and links left after a pruning'])

p('C02', 'Requirement analysis is exact for any targets and given nodes',
  'For any targets and any given (observed) nodes, the sufficient set is exactly the targets plus every node that reaches '
  'a target along directed links without entering a given node; the minimal set is that minus the given nodes; and the '
  'requirements of one node are exactly its ancestors that reach it without an intermediate given node, in topological '
  'order. The connecting sub-network of a set of nodes is induced by those nodes and all nodes lying on directed '
  'paths between them. None of these analyses changes the network.',
  ['inputs', 'programs'], 'every DAG, every target set (including the empty one), every given set',
  'Tests check three queries on one graph; the answer depends on all combinations of links, targets and givens.',
  ['bayesnet/dag.py'],
  [('minimal_requirements', 'bayesnet/dag.py'), ('get_sufficient_nodes / get_minimal_nodes', 'bayesnet/dag.py'),
   ('minimal_dag', 'bayesnet/dag.py')],
  ['returned node collections'])

p('C03', 'Growing a network keeps it acyclic, consistent and atomic',
  'Adding a variable links it to exactly the variables its definition mentions, creating unknown ones as exogenous; '
  're-adding a name replaces its definition and incoming links and keeps its dependents. An addition that would close '
  'a cycle is rejected and leaves the network exactly as it was, and a frozen network rejects additions until defrosted. '
  'At any time, frozen or not, the reported order is topological and the reported roots, leaves, exogenous variables '
  'and random roots (random variables with no random ancestor) are those of the current structure.',
  ['inputs', 'histories'], 'every sequence of additions over a bounded set of names, every DAG structure and node kind',
  'Tests build three fixed acyclic scripts; no cycle, redefinition or freeze history is exercised.',
  ['bayesnet/bn.py', 'bayesnet/dag.py'],
  [('append_loci', 'bayesnet/bn.py'), ('complete / defrost', 'bayesnet/bn.py'), ('find_rv_roots / find_exo', 'bayesnet/bn.py'),
   ('randomness and determinism queries', 'bayesnet/bn.py')],
  ['network order, roots, leaves, exogenous and random-root lists', 'definitions and links after each addition'],
  [('DAG', 'nodes with their definitions and links', 'bayesnet/bn.py')])

p('C04', 'Copying, JSON round-trips, merging and extending preserve definitions',
  'Copying or cloning a network, or exporting it to JSON and rebuilding it, gives an independent network with the same '
  'name, variables, definitions, links, roots, leaves, exogenous variables and random roots. Merging takes every '
  'non-exogenous definition of the second network, keeps the remaining variables of the first that are still defined or used, '
  'drops exogenous variables nobody uses, and leaves both inputs unchanged. Extending adds the network\'s variables to '
  'the other network, replacing same-named ones only when overriding is requested.',
  ['inputs', 'programs'], 'every pair of DAG structures and node kinds',
  'One merge of two fixed scripts is tested; JSON rebuild, clone, copy and extend are not.',
  ['bayesnet/bn.py', 'bayesnet/loci.py'],
  [('form_js / bayes_net_from_json', 'bayesnet/bn.py'), ('merge / copy / extend / clone', 'bayesnet/bn.py'),
   ('loci_from_json', 'bayesnet/loci.py')],
  ['structure and definitions of the resulting and of the input networks'])

p('C05', 'A full sample is complete, consistent and respects conditions',
  'Sampling a network assigns a value to every variable: given variables keep their given values and every other one is '
  'computed or drawn exactly once from its own definition at the values its parents have in that same sample. Extra given '
  'keys are carried through and the caller\'s mapping is never modified. If any exogenous variable is not given, '
  'a ValueError is raised.',
  ['inputs', 'programs'], 'every DAG, every assignment of node kinds, every set and value of given variables',
  'No existing test checks the values of a sample at all.',
  ['fn.py', 'bayesnet/bn.py'],
  [('sample', 'fn.py'), ('topological Order', 'bayesnet/bn.py')],
  ['the returned mapping', 'the caller\'s condition mapping'])

p('C06', 'A minimal sample draws exactly what the targets need',
  'Sampling selected variables of the network returns exactly those variables, with mediators (the other drawn variables and the given ones) '
  'reported separately on request. Only variables needed for the targets given the conditions are drawn, each once, '
  'consistently with its parents in the same sample, and given values are kept and the caller\'s mapping is not modified. '
  'A ValueError is raised exactly when an exogenous variable that is needed has not been given.',
  ['inputs', 'programs'], 'every DAG, node kinds, non-empty target set, given set and values',
  'Not exercised by any test.',
  ['fn.py', 'bayesnet/dag.py'],
  [('sample_minimally', 'fn.py'), ('get_sufficient_nodes', 'bayesnet/dag.py')],
  ['the returned mappings', 'the ValueError'])

p('C07', 'The joint log prior is the sum of conditional log densities',
  'Evaluating an assignment gives the sum, over the network variables it contains, of each random variable\'s log density '
  'at its value given its parents\' values in that assignment; non-random variables contribute zero and keys outside the '
  'network are ignored. An undefined total, or invalid distribution parameters, count as minus infinity, so the result is '
  'never NaN. A sampled chromosome carries its full sample together with exactly this number.',
  ['inputs', 'programs'], 'every DAG, node kinds, assignment (including partial ones) and density value, also infinite or NaN ones',
  'Not exercised by any test.',
  ['fn.py', 'bayesnet/loci.py'],
  [('evaluate_nodes / sample_chromosome', 'fn.py'), ('DistributionLoci.evaluate', 'bayesnet/loci.py')],
  ['the returned log prior', 'Chromosome log probability'])

p('C08', 'Interventions on a chromosome propagate exactly downstream',
  'An intervention sets the named variables the chromosome has to the given values (ignoring names it does not have), '
  'and, when the network is supplied, re-renders in topological order exactly the recorded descendants of the changed variables '
  'and the variables reset with None, leaving everything else as it was. Whenever a value is set the recorded log probability '
  'is invalidated. Clones and JSON round-trips are equal to and independent of the original.',
  ['inputs', 'histories', 'programs'], 'every DAG, chromosome contents, set of intervened variables, values and resets',
  'Two-variable chains are tested with one intervention each.',
  ['bayesnet/chromosome.py'],
  [('impulse', 'bayesnet/chromosome.py'), ('clone / to_json / from_json', 'bayesnet/chromosome.py')],
  ['chromosome values and log probability'])

p('C09', 'Expressions evaluate over exactly their declared variables',
  'The variables an expression declares are exactly the names it reads other than the functions it calls, for expressions and for every '
  'argument of a parsed function call. Evaluating it gives the value of ordinary arithmetic and the named functions (including conditional '
  'and step choice) at the given values, depends on nothing but the declared variables, and leaves the given values unmodified. '
  'A deterministic node missing one of its variables fails with KeyError, and calling an expression without all its variables returns its text.',
  ['inputs', 'programs'], 'every expression of a bounded grammar and all real values of its variables',
  'Four fixed expressions are tested at one or two points each.',
  ['util.py', 'bayesnet/loci.py'],
  [('find_ast_parents / MathExpression', 'util.py'), ('parse_function / ParsedFunction', 'util.py'), ('FunctionLoci', 'bayesnet/loci.py')],
  ['declared parents', 'evaluated values', 'raised errors'])

p('C10', 'Distribution arguments bind like a call, with defaults and validation',
  'Creating a distribution from text binds positional arguments in order to the parameters not named, named arguments by name and '
  'the remaining parameters to their defaults, evaluating each argument at the supplied variable values. '
  'Completing a definition makes every parameter explicit without changing the distribution it creates, and a random node declares exactly '
  'the variables its arguments mention. Parameter values outside the documented range (such as non-positive scales, rates or shapes, or a '
  'probability outside [0, 1]) are rejected.',
  ['inputs', 'programs'], 'every registered distribution, every split of its arguments into positional, named and omitted, all real argument values',
  'One spelling per distribution is tested, at one value.',
  ['factory/craftstation.py', 'prob.py', 'bayesnet/loci.py'],
  [('Atelier.complete_def / get_blueprint / create', 'factory/craftstation.py'), ('AbsCreator subclasses', 'prob.py'),
   ('DistributionLoci', 'bayesnet/loci.py')],
  ['the created distribution', 'validation errors', 'declared parents'])

p('C11', 'Distributions have the stated moments, support and densities',
  'For all valid parameters, exponential, gamma, uniform, normal, beta, chi-squared, binomial, Poisson, triangular and constant '
  'distributions have the textbook mean, standard deviation and support of the parameters in their definition, whatever order the '
  'triangle\'s corners are given in. A constant has log density 0 at its value and minus infinity elsewhere; a categorical distribution '
  'normalises its weights both for drawing and for its log density. A request for one draw gives a single value and for n draws gives n values.',
  ['inputs'], 'all valid real parameters; up to 4 categories',
  'Each family is tested at one parameter value; the constant\'s and the categorical\'s densities are not tested.',
  ['prob.py'],
  [('AbsCreator.create of each family', 'prob.py'), ('SpDouble / SpInteger / Const / CategoricalRV', 'prob.py')],
  ['mean, std, bounds, logpdf and sample of created distributions'])

p('C12', 'Parameter sets generated from any valid layout are complete and consistent',
  'For every network and every valid tree of variable groups (no variable asked to be fixed and floating on one branch), allocation places each variable that is not exogenous in at least one group, '
  'never as both fixed and floating in the same group, and fixes every variable a group asked to fix. With exogenous values supplied, generating '
  'the root parameter set and breeding children succeeds, every fixed variable has a value, and each fixed variable not overridden by the caller equals its definition at the '
  'values visible from its parameter set (its own or inherited). The recorded log prior is the sum of the log densities of its own fixed variables.',
  ['inputs', 'programs', 'configurations'], 'every DAG, node kinds and tree of groups with any fixed/floating requests accepted as valid',
  'Four layouts over two fixed scripts are tested, mostly only for the sampler names.',
  ['simulation/nodeset.py', 'simulation/simugroup.py', 'simulation/simucore.py', 'simulation/parcore.py'],
  [('NodeSet.inject_bn', 'simulation/nodeset.py'), ('SimulationGroup.generate / breed', 'simulation/simugroup.py'),
   ('ParameterCore.__getitem__', 'simulation/parcore.py')],
  ['fixed and floating lists of each group', 'values of generated parameter sets', 'log prior'],
  [('FixedNodes/FloatingNodes/ExoNodes/ListeningNodes', 'allocation of variables per group', 'simulation/nodeset.py')])

p('C13', 'Samplers draw each floating variable at the current fixed values',
  'Every floating variable of a parameter set generated from a valid layout has a sampler, shared or local, that succeeds and returns its definition at the '
  'visible values of its fixed (or exogenous) ancestors, with every floating ancestor it needs drawn afresh and consistently within that draw. '
  'Sampling never changes stored values, a request for n values gives n values, and after the parameter values change an updated sampler uses the new ones.',
  ['inputs', 'programs', 'configurations'], 'every DAG, node kinds and layout accepted as valid; all values',
  'Three hand-made actors and one layout are tested.',
  ['simulation/actor.py', 'simulation/nodeset.py', 'simulation/parcore.py', 'simulation/simugroup.py'],
  [('FrozenSingleActor / SingleActor / CompoundActor / Sampler', 'simulation/actor.py'),
   ('_define_sampler_blueprints', 'simulation/nodeset.py'), ('put_local_actors / put_shared_actors', 'simulation/simugroup.py')],
  ['values returned by samplers', 'parameter values after sampling'])

p('C14', 'Interventions on parameter trees stay consistent; clones are isolated',
  'An intervention on a parameter set gives the named fixed variables their new values in it and all its descendants, recomputes '
  'exactly the fixed variables downstream of them, leaves all other values unchanged, refreshes the samplers that had been prepared from old values, '
  'and updates the recorded log prior of each parameter set to its new values. Cloning a root, with or without its children, reproduces its values and log prior, and later '
  'interventions on either copy do not affect the other.',
  ['inputs', 'histories', 'configurations'], 'every DAG, node kinds, layout, intervened variable set and values',
  'One three-variable chain is tested, and that test fails on the pinned commit.',
  ['simulation/parcore.py', 'simulation/simugroup.py'],
  [('ParameterCore.impulse / clone', 'simulation/parcore.py'), ('SimulationGroup.set_response', 'simulation/simugroup.py')],
  ['values, log priors and sampler outputs across the tree'])

p('C15', 'Unit-interval converters are monotone bijections onto the domain',
  'For every parameter domain, bounded or unbounded on either side, and positive scale, converting u in (0, 1) to a value and back returns u, and '
  'converting an interior value to u and back returns the value, up to rounding. The conversion is strictly increasing, always lands inside the '
  'domain, and sends 0 and 1 to the lower and upper ends (possibly infinite).',
  ['inputs'], 'all domains and all u, v',
  'Not exercised by any test.',
  ['fit/converter.py'],
  [('ConverterFF/FI/IF/II', 'fit/converter.py'), ('get_converter', 'fit/converter.py')],
  ['converted values'])

p('C16', 'Fitting targets measure distance and likelihood consistently',
  'For point targets (with relative error or with a range) and a nonzero value, the distance of a simulated value is non-negative, zero exactly at '
  'the target value, and strictly growing in the size of the deviation in either direction; the observation variance is positive, is in squared units of the target and shrinks with the stated error or range, and a more precise target weighs the same deviation more. '
  'For distribution targets the distance is minus the log density. Reading a target specification gives each name the kind of '
  'target its format denotes (number, error, range, distribution, prepared object) with the stated values and rejects ranges that do not bracket the value or unknown formats.',
  ['inputs'], 'all real target values, errors, ranges and simulated values',
  'Not exercised by any test.',
  ['fit/targets/single.py', 'fit/targets/__init__.py', 'fit/targets/base.py'],
  [('DataPointError / DataPointRange / DataDistribution', 'fit/targets/single.py'), ('read_targets', 'fit/targets/__init__.py')],
  ['distances, likelihoods and variances', 'target objects'])

p('C17', 'Data models serve priors, distances and particles faithfully',
  'Serving or drawing parameters for a data model always keeps the exogenous parameters at their given values, completes the network consistently '
  'and attaches the joint log prior; its free parameters are exactly the continuous random roots not fixed exogenously. A particle\'s distance (or likelihood) is the sum of '
  'the per-target values at its simulated outputs, is computed once and then remembered. Particles survive a JSON round-trip, and a '
  'copied particle is evaluated afresh and does not share parameters with the original.',
  ['inputs', 'histories', 'programs'], 'every network structure, exogenous setting, parameter and simulated values',
  'No test covers data models.',
  ['fit/base.py', 'fit/targets/base.py'],
  [('DataModel.serve / sample_prior / evaluate_prior / calc_distance / calc_likelihood / flatten', 'fit/base.py'),
   ('Particle', 'fit/base.py')],
  ['served chromosomes', 'distances', 'particle JSON'])

p('C18', 'Rejection ABC keeps only particles within the tolerance',
  'Rejection sampling learns its tolerance as the requested quantile of finite prior distances, and every posterior particle it returns, '
  'sequentially or in parallel, has a distance (a number) no larger than that tolerance, with its outputs recorded. Exactly the requested number of particles is returned, and the reported acceptance is that '
  'number divided by the number of simulations run.',
  ['inputs', 'histories'], 'every sequence of simulated distances (infinite ones included), up to a bounded number of simulations',
  'No test covers any fitter.',
  ['fit/abcom/alg.py', 'fit/results.py'],
  [('ApproxBayesCom.initialise / sample_posteriors', 'fit/abcom/alg.py'), ('sample_ess / sample_fin', 'fit/abcom/alg.py')],
  ['tolerance, particles, acceptance note'])

p('C19', 'Each ABC-SMC round keeps a valid weighted population within tolerance',
  'After every round the tolerance has not increased, the population has the configured size, weights are non-negative and sum to one, and every particle '
  'with positive weight has a distance within the new tolerance (strictly below it once it has tightened). With at least three particles keeping positive weight, proposals replace a particle only when their distance is below the new tolerance; '
  'the effective sample size and acceptance reported are those of the population; resampling occurs when the effective size falls below its threshold and draws only particles of positive weight. The run '
  'stops at the round limit, after the stated number of stalled rounds (from the third round on), or when acceptance is too low.',
  ['inputs', 'histories'], 'every valid population state (bounded size), distances, weights, random choices; one inductive round',
  'No test covers any fitter.',
  ['fit/abc_smc/alg.py'],
  [('ApproxBayesComSMC._a_round / find_eps / update_wts / resample / mcmc_proposal / _check_termination', 'fit/abc_smc/alg.py'),
   ('sample_mutation', 'fit/abc_smc/alg.py')],
  ['state after a round', 'monitor records'],
  [('StateABCSMC', 'particles, weights, tolerance, stall counter', 'fit/abc_smc/alg.py')])

p('C20', 'History matching keeps plausible points inside nested bounds',
  'Implausibility of a point is the largest over the targets of |target - prediction| divided by the root of the summed model, observation and emulator variances. '
  'A wave keeps exactly the emulated points with implausibility below the cut-off in force, which is never below the configured one, and reports the kept share; the next bounds are '
  '(when at least one point is kept) the smallest box around the kept points, inside the previous bounds, and emulators are trained and queried in the same unit-interval coordinates. Waves stop at the configured maximum.',
  ['inputs', 'histories'], 'all predictions, variances and candidate points, up to a bounded number of points, targets and parameters; one inductive wave',
  'No test covers any fitter.',
  ['fit/hme/alg.py'],
  [('Matchers', 'fit/hme/alg.py'), ('BayesHistoryMatching._simulate/_emulate/_keep_plausible/_a_wave/_check_termination', 'fit/hme/alg.py')],
  ['kept points, bounds, cut-off, acceptance'])

p('C21', 'Genetic operators stay in the domain and keep the population valid',
  'Mutation proposes a value for every free parameter inside its domain, keeping to the step drawn around the parent\'s value where that lies in the domain. Average crossover gives two children at the midpoint of the parents and shuffle crossover '
  'gives two complementary children whose every gene comes from one of the parents. Selection returns independent copies of members with finite fitness, in the same number as '
  'the population, and a tournament always returns a best member among its candidates by the chosen fitness.',
  ['inputs'], 'all parents, fitness values and random choices, bounded population and number of parameters',
  'No test covers the operators; the package could not even be imported on the pinned commit.',
  ['fit/ga/cross.py', 'fit/ga/mutate.py', 'fit/ga/select.py'],
  [('RwMutator.propose / set_scales', 'fit/ga/mutate.py'), ('AverageCrossover / ShuffleCrossover', 'fit/ga/cross.py'),
   ('TourSelection / ImpSelection', 'fit/ga/select.py')],
  ['proposals, children and selected members'])

p('C22', 'The monitor records one time-stamped entry per step, in order',
  'Stepping files everything kept since the last step under the time then current, clears the pending entry and moves to the given time, or to the next unit when none is given. '
  'Asking for the current time is a no-op and asking for an earlier time raises KeyError without changing anything, for every time value including zero and negative ones. '
  'Recorded times are strictly increasing, and a reset clears the records and restarts at the given time.',
  ['inputs', 'histories'], 'every sequence of keep, step and reset operations with any times and values, up to a bounded length',
  'Two fixed histories are tested; no zero or negative time.',
  ['monitor.py'],
  [('Monitor.step / keep / reset / Trajectories', 'monitor.py')],
  ['recorded trajectories', 'current time', 'KeyError'],
  [('Time/Last/Records', 'current time, pending entry, filed entries', 'monitor.py')])

p('C23', 'Weighted resampling draws only finite-weight items by their weights',
  'Resampling draws exactly the requested number of items (the number of weights by default), each one an item whose weight is finite, with selection probabilities '
  'proportional to the weights (or their exponentials for log weights). When parameters accompany the items each drawn item keeps its own parameters. With the default size and all weights finite the '
  'reported value is the log of the mean weight, and with no finite weight it is minus infinity.',
  ['inputs'], 'all weight vectors up to a bounded length, finite or not, on either scale, and all random choices',
  'One three-weight vector is tested, and only the reported mean.',
  ['util.py'],
  [('resample', 'util.py')],
  ['drawn items, their parameters, reported log mean', 'probabilities handed to the random choice'])

p('C24', 'Regression predictors combine effects and links correctly',
  'A linear predictor is the intercept plus the sum of its regressors\' effects at the case\'s values (the coefficient for any true value, the coefficient times the value, or the coefficient of the '
  'category given by its position). Linear, logistic and Poisson expectations apply the identity, inverse-logit and exponential links to it, multinomial ones are non-negative and sum to one, and the sampler a '
  'regression gives for a case has that expectation.',
  ['inputs'], 'all coefficients and covariate values, up to a bounded number of regressors and classes',
  'No test covers the data package; it could not even be imported on the pinned commit.',
  ['data/reg/linear.py', 'data/reg/glm.py'],
  [('LinearCombination', 'data/reg/linear.py'), ('LinearRegression', 'data/reg/linear.py'),
   ('LogisticRegression / PoissonRegression / MultinomialLogisticRegression', 'data/reg/glm.py')],
  ['expectations and samplers'])

p('C25', 'Hazards invert exactly and survival draws follow the scaled hazard',
  'For exponential and Weibull baselines the inverse cumulative hazard undoes the cumulative hazard for every positive time, and both are increasing; their mean and standard deviation are those '
  'of the waiting time. A survival draw is the inverse cumulative hazard at an exponential variate divided by the risk ratio, the zero-inflated version is zero exactly with the stated probability '
  'event, and Cox predictors use the exponential of the linear combination as risk ratio.',
  ['inputs'], 'all positive rates, shapes, times, risk ratios, covariates and random variates',
  'No test covers the data package; it could not even be imported on the pinned commit.',
  ['data/reg/hazard.py', 'data/reg/survival.py'],
  [('ExponentialHazard / WeibullHazard', 'data/reg/hazard.py'), ('HazardDistribution / ZeroInflatedHazardDistribution', 'data/reg/hazard.py'),
   ('CoxRegression / ZeroInflatedCoxRegression', 'data/reg/survival.py')],
  ['hazards, draws and expectations'])

p('C26', 'Probability tables normalise, marginalise, condition and look up correctly',
  'A transition table moves from a state by that state\'s own normalised row and rejects unknown states. A conditional probability table gives each combination its share of the total; '
  'marginalising sums out an index and conditioning keeps and renormalises exactly the matching rows, without changing the source table. A time-indexed table or series uses the entry '
  'nearest in time, clamped to the first and last entries, and Lee-Carter rates are exp(alpha + kappa beta).',
  ['inputs'], 'all table entries and query times, bounded numbers of rows and columns',
  'No test covers the data package; it could not even be imported on the pinned commit.',
  ['data/static.py', 'data/timeseries.py'],
  [('TransitionMatrix / ConditionalProbabilityTable', 'data/static.py'), ('TimeSeries / TimeSeriesVector / TimeSeriesProbabilityTable / LeeCarter', 'data/timeseries.py')],
  ['probabilities and looked-up values'])

p('C27', 'Random draws follow the law of the named distribution',
  'Values drawn from a distribution, node, sampler or resampling step are independent and distributed according to the named law with the stated parameters.',
  ['inputs', 'histories'], 'every distribution, all parameters, all random streams',
  'Statistical statement over an external random generator; tests check one categorical frequency.',
  ['prob.py', 'fn.py'],
  [('scipy / numpy random generators', 'prob.py')],
  ['drawn values'])

p('C28', 'The Gaussian-process emulator interpolates its training runs',
  'After training, the emulator\'s predictive mean is close to the simulated outputs at the training inputs and its predictive variance is small there and never negative.',
  ['inputs'], 'every training design and output',
  'Needs numerical optimisation in TensorFlow; no test covers it.',
  ['fit/hme/emulator.py'],
  [('GPREmulator', 'fit/hme/emulator.py')],
  ['predicted mean and variance'])

p('C29', 'Parallel fitting gives the same guarantees under any worker schedule',
  'Running a fitter over several worker processes returns one result per submitted task, in order, whatever the scheduling, worker failures aside, with the same per-particle guarantees as sequential runs.',
  ['schedules'], 'every scheduling of worker processes',
  'Scheduling happens in joblib worker processes; no test runs a fitter.',
  ['fit/abcom/alg.py', 'fit/abc_smc/alg.py'],
  [('joblib Parallel', 'fit/abc_smc/alg.py')],
  ['collected particles'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
