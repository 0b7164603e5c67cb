import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['GPyOpt/'+f for f in files],mechanism=[dict(name=a,where='GPyOpt/'+b) for a,b in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where='GPyOpt/'+c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,title
    P.append(d)
BO='core/bo.py'; BOM='methods/bayesian_optimization.py'
p('C01','The evaluation history is faithful, aligned and append-only',
 'After any sequence of constructions, runs, suggestion requests and failed evaluations, the recorded history is the initial data followed by every completed batch in the order it was evaluated; each objective call contributes exactly one row, and each recorded output is the value the objective returned for the input in the same row. Earlier rows are never changed, dropped or reordered, and inputs and outputs always have the same number of rows. If the objective raises, the error reaches the caller and no part of the failed batch is recorded.',
 ['histories','fault_sequences','configurations'],'every sequence of construct/run/suggest operations, every batch size, every point at which the objective fails, maximisation and minimisation',
 'Tests run one or two fixed optimisations and compare only suggested locations; none follows several operations on one object or makes the objective fail.',
 [BO,BOM,'core/task/objective.py'],[('BO.run_optimization','core/bo.py'),('BO.evaluate_objective','core/bo.py'),('BO.get_evaluations','core/bo.py'),('SingleObjective._eval_func','core/task/objective.py')],
 [('X','evaluated inputs','core/bo.py'),('Y','outputs in the minimisation sign','core/bo.py')],['calls of the user objective','get_evaluations()'])
p('C02','A run stops exactly at its iteration, time or convergence limit',
 'A run starts another acquisition if and only if fewer acquisitions than the iteration limit were made in this run, the time spent up to the last completed acquisition is below the time limit, the surrogate could be fitted, and the two most recent evaluated inputs (when there are two) are further apart than the tolerance. A limit given as "none" does not restrict the run, but with neither an iteration nor a time limit no acquisition is made. The limits are counted afresh for every run, whatever happened before on the same object.',
 ['histories','configurations','schedules'],'all combinations of iteration limit, time limit, tolerance, evaluation durations, initial data and earlier runs',
 'Tests use small fixed iteration counts with default time limit and tolerance; time-outs, None limits, converged initial data and fitting failures are never exercised.',
 [BO],[('BO.run_optimization loop','core/bo.py'),('BO._distance_last_evaluations','core/bo.py')],
 [('num_acquisitions','acquisitions in this run','core/bo.py'),('cum_time','time used in this run','core/bo.py')],['objective calls','surrogate updates','clock'])
p('C03','The reported optimum is the best evaluated point',
 'At the end of every run the reported best value is the smallest recorded output, the reported best location is the first recorded input that attains it, and the reported convergence curve has one entry per evaluation, each the smallest output up to and including it. When maximising, the run behaves exactly as minimising the negated objective: recorded outputs are the negated returned values and the reported location maximises the returned values.',
 ['histories','inputs'],'all output sequences including ties, negative values, repeated points and several runs on one object, minimising and maximising',
 'Tests check a loose numerical bound on a few smooth functions; ties, later-run optima, initial-data optima and maximisation of arbitrary sequences are not covered.',
 [BO,BOM,'util/general.py'],[('BO._compute_results','core/bo.py'),('best_value','util/general.py'),('BayesianOptimization._sign','methods/bayesian_optimization.py')],None,['x_opt, fx_opt, Y_best attributes after a run'])
p('C04','Asking for suggestions has no side effects and matches the built-in loop',
 'Requesting suggestions never calls the objective and leaves the recorded history and all earlier results unchanged, however often and with whatever context, pending or ignored points it is requested. With the same surrogate, acquisition and random seed, repeatedly asking an objective-free optimizer built from the data so far and evaluating outside produces the same sequence of locations as the built-in loop.',
 ['histories','configurations'],'all interleavings of suggestion requests with runs, and all external ask/evaluate/tell loops, over evaluators, batch sizes and domain types',
 'Tests compare suggestions against stored files for a handful of setups; no test mixes suggestion requests with runs or compares the two ways of driving the optimizer.',
 [BO,BOM],[('BO.suggest_next_locations','core/bo.py'),('BO._compute_next_evaluations','core/bo.py'),('BayesianOptimization._init_design_chooser','methods/bayesian_optimization.py')],None,['suggest_next_locations()','objective calls','get_evaluations()'])
p('C05','The surrogate is fitted on the full current history, on schedule',
 'Every suggestion request and every acquisition whose index in its run is a multiple of the update interval first fits the surrogate exactly once, on all recorded inputs in order (categories one-hot encoded) and the matching outputs; the only other fits are refreshes on the same full history at the end of a run. When output normalisation is on, the fitted outputs are the recorded ones shifted to zero mean and divided by their population standard deviation (only shifted when they are all equal); otherwise they are the recorded outputs unchanged.',
 ['histories','configurations'],'all histories, update intervals, batch sizes, encodings of mixed domains, and output sequences including constant ones',
 'Tests never look at what the surrogate receives; a stale, truncated, misaligned or wrongly scaled training set still yields plausible suggestions.',
 [BO,'util/general.py','core/task/space.py'],[('BO._update_model','core/bo.py'),('normalize','util/general.py'),('Design_space.unzip_inputs','core/task/space.py')],None,['updateModel() of a user-supplied surrogate'])
p('C06','Every suggested or evaluated location is a legal domain point',
 'Each location that the optimizer suggests, or passes to the objective on its own initiative, has one coordinate per problem dimension: continuous coordinates lie within their closed bounds, discrete coordinates equal one of the listed values, categorical coordinates are one of the category codes, and bandit locations equal one of the listed arms. This holds for every variable mix, repeated-variable dimensionality, surrogate, acquisition function, acquisition optimizer, batch method and initial design.',
 ['configurations','inputs','histories'],'all supported combinations of variable types, dimensionalities, surrogates, acquisitions, optimizers, batch evaluators and designs',
 'Tests cover a few fixed mixed domains with one seed; combinations of evaluator, optimizer and variable order are sampled very thinly.',
 ['core/task/space.py','core/task/variables.py','optimization/optimizer.py','optimization/acquisition_optimizer.py','optimization/anchor_points_generator.py','core/evaluators'],[('Design_space.round_optimum','core/task/space.py'),('apply_optimizer','optimization/optimizer.py'),('Variable.round','core/task/variables.py'),('RandomDesign','experiment_design/random_design.py')],None,['suggest_next_locations()','objective calls'])
p('C07','Context values are respected and never stick',
 'When a context fixes some variables to legal values, every suggested or evaluated location of that request or run carries exactly those values, and the remaining variables are still legal and chosen by optimising over them alone. The context applies only to the request or run it was given to: a later one without context, or with another, is unaffected. A context naming an unknown variable is rejected with an error.',
 ['configurations','histories'],'every subset of variables fixed to any legal value, in any order, over all variable types, batch evaluators and sequences of requests',
 'Tests fix one or two variables in one domain and compare with stored suggestions; they do not vary which variables are fixed, or follow sequences of contexts.',
 ['optimization/acquisition_optimizer.py','optimization/optimizer.py','optimization/anchor_points_generator.py',BO],[('ContextManager','optimization/acquisition_optimizer.py'),('OptimizationWithContext','optimization/optimizer.py'),('AnchorPointsGenerator.get','optimization/anchor_points_generator.py')],None,['suggest_next_locations(context=...)'])
p('C08','De-duplication never repeats an evaluated, pending or ignored location',
 'With de-duplication on, no suggested location equals an already evaluated, pending or ignored one, and the locations of one batch are pairwise different. The request fails with the "domain fully explored" error if and only if every legal location (within the context, if any) of a finite domain is taken, and then nothing is suggested or evaluated. Pending and ignored points apply only to the request they were given to.',
 ['histories','configurations','inputs'],'all finite and mixed domains, every set of evaluated/pending/ignored points including the origin and single points, with or without context, all batch methods',
 'Tests check the duplicate lookup on single points and one stored run; exhaustion, pending/ignored combinations and in-batch repeats are not explored.',
 ['util/duplicate_manager.py','optimization/anchor_points_generator.py','optimization/optimizer.py','core/evaluators/base.py'],[('DuplicateManager','util/duplicate_manager.py'),('apply_optimizer','optimization/optimizer.py'),('SamplingBasedBatchEvaluator.compute_batch','core/evaluators/base.py')],None,['suggest_next_locations(pending_X, ignored_X)'])
p('C09','Encoding, decoding and rounding of locations are mutually consistent',
 'Encoding a legal location for the surrogate and decoding it returns the same location; the encoding one-hot encodes each categorical variable in place and leaves the other coordinates, in order, unchanged, within the encoded bounds. Rounding any encoded point yields a legal encoded location, leaves legal ones unchanged, and picks per variable the nearest legal value (clipping for continuous, largest entry for categorical, nearest arm for bandits). Variable names, dimension counts, index maps, bounds, sub-spaces and finite grids agree with that layout for every ordering and multiplicity of variables.',
 ['configurations','inputs'],'every domain with any order and dimensionality of variables, every legal location and every encoded point',
 'Tests check some hand-written domains and points; interactions of variable order, repeated variables and one-hot widths are not enumerated.',
 ['core/task/space.py','core/task/variables.py'],[('Design_space.zip_inputs/unzip_inputs','core/task/space.py'),('Design_space.round_optimum','core/task/space.py'),('variables','core/task/variables.py')],None,['Design_space public methods'])
p('C10','Constrained problems only see feasible locations',
 'When the problem has constraints, every location of the random initial design, every suggested location and every location the optimizer evaluates satisfies all of them (each constraint expression is at most zero), also with contexts, batches, de-duplication, categorical encodings and acquisitions that take negative values. Feasibility of a set of locations is reported row by row as one exactly when all constraints hold. Designs that cannot honour constraints refuse to run instead of ignoring them.',
 ['configurations','inputs'],'all sets of constraints over all variable types, with and without context, all acquisitions and batch methods',
 'Tests use one disc constraint and one seed with one acquisition; conjunctions, tight regions, rounding and context interactions are not covered.',
 ['core/task/space.py','acquisitions/base.py','optimization/optimizer.py','optimization/anchor_points_generator.py','experiment_design'],[('Design_space.indicator_constraints','core/task/space.py'),('AcquisitionBase masking','acquisitions/base.py'),('RandomDesign.get_samples_with_constraints','experiment_design/random_design.py'),('apply_optimizer','optimization/optimizer.py')],None,['indicator_constraints()','initial_design()','suggest_next_locations()'])
p('C11','Initial designs have the promised size, legality and stratification',
 'Random, latin and Sobol designs return exactly the requested number of legal locations; the grid design returns k^d of them, k being the largest integer with k^d not above the request and d the number of continuous dimensions. In a latin design of n points each continuous coordinate has exactly one point in each of n equal slices; a grid contains every combination of k equally spaced values including both bounds, each once; a Sobol design fills equal dyadic slices evenly in every continuous coordinate. Non-continuous coordinates are drawn from all their legal values, and an unknown design name is rejected.',
 ['configurations','inputs'],'all domains, numbers of points (also non-powers) and design types',
 'Tests check shapes and bounds for one or two sizes; stratification and coverage for arbitrary sizes, dimensions and mixed domains are not checked.',
 ['experiment_design'],[('LatinDesign','experiment_design/latin_design.py'),('GridDesign/iroot/multigrid','experiment_design/grid_design.py'),('SobolDesign','experiment_design/sobol_design.py'),('RandomDesign','experiment_design/random_design.py')],None,['initial_design()'])
p('C12','Parallel evaluation returns what sequential evaluation would, and ends',
 'For every number of worker processes, batch size, completion order and worker failure, evaluating a batch terminates and returns one output per location, in the order of the locations, equal to what evaluating them one by one in a single process returns; in the absence of failures each location is evaluated exactly once. If workers die or raise, the batch is evaluated in the calling process instead, and an error of the objective itself reaches the caller. The number of processes used is the configured number of cores, independent of the batch size.',
 ['schedules','crash_points','fault_sequences','configurations'],'all completion orders of the workers, every subset of workers failing before or while delivering results, all worker/row count combinations including more workers than rows and results larger than the channel buffer',
 'Tests run one healthy parallel evaluation; no failures, no orderings, no large results.',
 ['core/task/objective.py','util/general.py',BOM],[('SingleObjective.evaluate','core/task/objective.py'),('_syncronous_batch_evaluation','core/task/objective.py'),('spawn','util/general.py')],None,['SingleObjective.evaluate()','process ids of objective calls'])
p('C13','Evaluation costs are learnt from every evaluation and used per unit cost',
 'With evaluation-time costs, the cost surrogate is trained on the encoded locations of all evaluations the optimizer made (initial and later) with the logarithm of their measured durations, in order, and nothing else; before any timed evaluation the cost is one everywhere. A user-supplied cost function is used as given, and no cost means cost one with zero gradient. Improvement-based acquisitions are divided by the cost with the matching quotient-rule gradient; confidence-bound acquisitions ignore it.',
 ['histories','configurations'],'all evaluation histories with arbitrary durations, batch sizes, parallel evaluation and cost options',
 'Tests check one update of the cost model in isolation; the end-to-end use of evaluation-time costs is never run.',
 ['core/task/cost.py',BO,BOM,'acquisitions/base.py'],[('CostModel','core/task/cost.py'),('AcquisitionBase.acquisition_function','acquisitions/base.py'),('BO.evaluate_objective','core/bo.py')],None,['training data handed to the cost surrogate','acquisition values'])
p('C14','Saved files reproduce the run exactly',
 'The saved evaluations file has a header and one row per evaluation, in order, holding its 1-based number, recorded output and input, such that reading the numbers back gives the recorded values exactly. The saved models file has a header naming every surrogate parameter and one numbered row per fit-or-reuse step of the last operation with the parameter values at that time; it is refused when there are none. The report states the number of samples, the best value and location, whether the iteration limit was reached, and the problem and optimizer set-up; every file requested from a run is written when the run ends.',
 ['histories','configurations'],'all histories, domains, output magnitudes, and file options',
 'Tests compare one saved file of one run; other domains, magnitudes, several runs and reports for other domain types are not checked.',
 [BO],[('BO.save_evaluations','core/bo.py'),('BO.save_models','core/bo.py'),('BO.save_report','core/bo.py')],None,['written files'])
p('C15','Acquisition values and gradients follow their definitions',
 'At every location, expected improvement, probability of improvement and the confidence bound equal their closed forms in the predicted mean and standard deviation, best surrogate mean, jitter or exploration weight; values are negated for minimisation, and are zero with zero gradient where constraints fail. The integrated variants are the averages of the plain ones over the surrogate samples. Value and gradient computations agree: the value returned with the gradient equals the value returned alone, and the gradient is its derivative.',
 ['inputs','configurations'],'all predictions, incumbents, jitters/weights, gradients, costs, constraint states and sample counts',
 'Tests check one or two fixed vectors per acquisition; sign, jitter, averaging and masking errors that vanish at those vectors go unnoticed.',
 ['acquisitions','util/general.py'],[('AcquisitionEI/MPI/LCB and MCMC variants','acquisitions/EI.py'),('get_quantiles','util/general.py'),('AcquisitionBase','acquisitions/base.py')],None,['acquisition_function(), acquisition_function_withGradients()'])
p('C16','Batch methods build batches as promised and leave no trace behind',
 'A batch has exactly the configured number of locations, or fewer only when de-duplication leaves too few choices; sequential, local-penalization and random batches start with the optimum of the (unpenalized) acquisition. Under local penalization each next location optimises the acquisition lowered around all locations already chosen in this batch, the penalty being larger the closer the location and adding up over the chosen locations. After the batch is built the acquisition is exactly what it was before, so the next batch does not depend on this one.',
 ['configurations','histories'],'all batch methods, batch sizes, acquisitions, contexts and sequences of batches',
 'Tests compare one stored batch per method; leaking penalties, wrong batch sizes under other settings or unpenalised later elements are not detected.',
 ['core/evaluators','acquisitions/LP.py'],[('LocalPenalization.compute_batch','core/evaluators/batch_local_penalization.py'),('AcquisitionLP','acquisitions/LP.py'),('RandomBatch','core/evaluators/batch_random.py'),('ThompsonBatch','core/evaluators/batch_thompson.py')],None,['suggest_next_locations()','acquisition values before/between/after'])
p('C17','Options select exactly the requested components, bad options are rejected',
 'For every combination of surrogate, acquisition, batch method, batch size, optimizer and extra options, the optimizer uses the requested component with the given option values and the documented defaults for the rest; user-supplied surrogate and acquisition objects are used as they are. A batch size of one always evaluates one location at a time. Unknown or incompatible choices (unknown names, mixed bandit domains, missing domains, ragged arms, missing objective and data, batch method that the surrogate does not support) raise an error instead of being silently replaced.',
 ['configurations'],'the full cross product of option values',
 'Tests construct a few combinations; silent substitution of a component or a dropped option leaves all of them passing.',
 ['util/arguments_manager.py',BOM,'core/task/space.py','optimization/optimizer.py'],[('ArgumentsManager','util/arguments_manager.py'),('BayesianOptimization.__init__','methods/bayesian_optimization.py'),('create_variable','core/task/variables.py'),('choose_optimizer','optimization/optimizer.py')],None,['constructed components and raised errors'])
p('C18','Configuration files override defaults key by key without corrupting them',
 'Loading a configuration yields the built-in defaults in which exactly the values present in the file are replaced, at any nesting depth, and keys unknown to the defaults are added. The built-in defaults themselves never change, so loading any sequence of files gives for each the same result as loading it first. An unreadable or malformed file is rejected with an error; textual domains and dimensionalities give the same search space as literal ones.',
 ['inputs','histories'],'all partial configuration trees and all sequences of loads',
 'There is no test of the configuration loader at all.',
 ['interface/config_parser.py','core/task/space.py','interface/driver.py'],[('update_config','interface/config_parser.py'),('parser','interface/config_parser.py'),('Design_space.fromConfig','core/task/space.py')],None,['parser()'])
p('C19','The output engine writes each log at its interval and never loses data',
 'A saver with interval k fires at every k-th regular iteration and only then; a saver with interval -1 fires exactly at final iterations. Each logger line holds the iteration number, time, best output seen in all iterations so far and the corresponding input, below a single header line. Unsupported formats, contents or intervals are rejected when the engine is created.',
 ['histories','configurations'],'all sequences of regular and final iterations with any data, for any set of savers and intervals',
 'There is no test of the output engine at all.',
 ['interface/output.py'],[('OutputEng.append_iter','interface/output.py'),('Logger.save_data','interface/output.py')],None,['written log files'])
p('C20','Surrogate queries are pure; fits use all the data; copies are independent',
 'Predictions, gradients, incumbent values and covariances of a surrogate never change the surrogate: the same query repeated, in any order and mixed with others, returns the same result and parameters stay as they were (for sampled hyper-parameters too, with one result per sample). After an update the surrogate holds exactly the given data; predicted deviations are strictly positive, and the incumbent is the smallest predicted mean over the data. A copy keeps the configuration and data, and updating either one leaves the other unchanged.',
 ['histories','configurations'],'all interleavings of queries, updates and copies over surrogate types and their options',
 'Tests check single predictions; side effects of queries and shared state between copies need sequences of operations.',
 ['models/gpmodel.py','models/base.py'],[('GPModel','models/gpmodel.py'),('GPModel_MCMC.predict (parameter restore)','models/gpmodel.py'),('copy','models/gpmodel.py')],None,['model wrappers: predict, predict_withGradients, get_fmin, predict_covariance, copy'])
p('C21','Data handed over by or to the caller stays isolated',
 'The optimizer never modifies arrays or structures the caller passes in: initial inputs and outputs, domain and constraint descriptions, contexts, pending and ignored points, and the arrays returned by the objective. Arrays returned to the caller are independent: changing them does not alter the recorded history or later suggestions.',
 ['histories','inputs'],'all operations in all orders, with the caller inspecting and overwriting every array it gave or received',
 'No test looks at caller-owned data after a call.',
 [BO,BOM,'core/task/space.py','util/duplicate_manager.py'],[('BO.get_evaluations copies','core/bo.py'),('np.vstack growth of X, Y','core/bo.py'),('Design_space deepcopy of descriptors','core/task/space.py')],None,['caller-owned arrays before/after'])
p('C22','A suggestion is the best allowed location for the acquisition',
 'On a finite domain without constraints, with a smooth acquisition whose best legal value is the legal point nearest to its peak, the suggested location attains the best acquisition value among all allowed locations: legal, consistent with the context, and (under de-duplication) not evaluated, pending or ignored. On continuous or mixed boxes the suggestion is the peak clipped to the box, up to numerical tolerance. This holds with and without acquisition gradients and for every anchor-selection logic.',
 ['configurations','inputs','histories'],'all domains up to a size, peaks inside and outside the domain, contexts and sets of taken points',
 'Tests compare with stored suggestions of one surrogate; whether they are optimal is not checked, and a search that returns a worse point passes.',
 ['optimization/optimizer.py','optimization/acquisition_optimizer.py','optimization/anchor_points_generator.py','acquisitions/base.py'],[('AcquisitionOptimizer.optimize','optimization/acquisition_optimizer.py'),('apply_optimizer','optimization/optimizer.py'),('AnchorPointsGenerator.get','optimization/anchor_points_generator.py')],None,['suggest_next_locations() with a user-defined acquisition'])
p('C23',"Entropy search scores with the current surrogate's belief about the minimum",
 'Entropy search scores a location by the certainty (expected sum over the representer points of p times log p plus their log-density, after an update of second order) that an evaluation there is expected to leave about which point is the minimum, per unit cost, always under the present data and parameters of the surrogate and never under those before an update. The probabilities p sum to one and are those of each point being the smallest under the joint Gaussian (exact for two points, otherwise within the accuracy of expectation propagation), whatever the order of the points, a common shift of the means, or further points that cannot be the minimum. Representer points are drawn with the given density (by default the expected improvement inside the domain and zero outside); points of zero density are left out and undefined densities are refused.',
 ['inputs','histories'],'all surrogate posteriors and representer sets, all sequences of surrogate updates and scores',
 'Tests compare one stored score of one belief; nothing tests a second belief, other numbers of points, far-apart means, or an update.',
 ['acquisitions/ES.py','util/epmgp.py','util/mcmc_sampler.py'],[('AcquisitionEntropySearch','acquisitions/ES.py'),('joint_min','util/epmgp.py'),('AffineInvariantEnsembleSampler.get_samples','util/mcmc_sampler.py')])
p('C24','A configured experiment runs as its file describes',
 'Running a configuration file evaluates the objective it names, giving it each configured variable under its own name, first at the configured initial design and then at locations proposed by the configured surrogate, acquisition, acquisition optimizer and batch method, until the configured number of iterations, minutes or distance tolerance is reached; entries absent from the file take the documented defaults. The returned history and the saved files contain exactly these evaluations. A configuration that cannot be run (unknown component, missing or failing objective) raises an error.',
 ['configurations','inputs'],'all partial configurations over variable mixes, designs, components, limits and constraints, with any evaluation durations',
 'There is no test of the driver, the objective loader or the command-line script at all.',
 ['interface/driver.py','interface/func_loader.py','interface/config_parser.py','interface/output.py','core/task/objective.py','experiment_design/__init__.py'],[('BODriver.run','interface/driver.py'),('load_objective','interface/func_loader.py'),('SingleObjective.fromConfig','core/task/objective.py'),('AcquisitionBase.fromConfig','acquisitions/base.py'),('Design_space.fromConfig','core/task/space.py')],None,['calls of the named objective','the optimizer returned by BODriver.run()','files saved by gpyopt.py'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s); assert d['statement'].count('. ')<=2,(d['id'],d['statement'].count('. '))
print(len(P))
