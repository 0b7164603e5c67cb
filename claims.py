LOOP = 'generated behaviours replayed into GPyOpt and recorded executions validated against BOLoop.tla'
SUG = 'generated request scenarios driven through the library, every response validated against Suggest.tla'
CLAIMS = {
 'C01': (LOOP, 'MC_BOLoop explores all legal behaviours (2 locations, <=3 rows, 2 operations; larger in thorough) against independent ghost history; simulated behaviours over 5 domains with failures, batches, lazy/eager initial data are replayed and every trace validated; so are recorded runs with the library components.'),
 'C02': (LOOP, 'Iteration, time (fake clock), tolerance (exact lattice distances) and surrogate failure limits, counted afresh over several runs of one object.'),
 'C03': (LOOP + '; paired runs for maximisation', 'Optimum, first-minimiser and convergence curve after each run, with ties; maximisation compared with minimising the negation.'),
 'C04': (LOOP + '; paired ask-tell / loop executions', 'Purity of suggestions in all replayed and recorded traces; equality of ask-tell and built-in loop with a deterministic surrogate.'),
 'C05': (LOOP, 'Every surrogate fit in every trace is compared with the full encoded history, the schedule and (fixed-point 1e-3) the normalisation.'),
 'C06': (SUG, 'Variable mixes, surrogates, acquisitions, optimizers, batch methods, designs and contexts chosen by TLC; locations compared exactly (order- and equality-preserving integers).'),
 'C07': (SUG, 'Sequences of requests and runs with changing contexts, unknown names and bandit contexts.'),
 'C08': (SUG, 'Finite domains down to full exploration, with pending and ignored points and contexts; the exact set of free locations is computed by the specification.'),
 'C09': ('enumerated search spaces: the encoding, decoding, rounding and index maps of the library validated against DesignSpace.tla', 'Exact lattice values; spaces up to 5 variables (7 in thorough) over all variable types and multiplicities.'),
 'C10': (SUG, 'Constraint families le/ub/lb/sum/disc with exact feasibility; row-by-row indicator values on lattice points.'),
 'C11': ('generated designs validated against the stratification predicates of InitDesign.tla, themselves model-checked on permutations, radical-inverse sequences and grids', 'Sizes 1..40 and 300, up to 12 continuous dimensions.'),
 'C12': ('ParallelEval.tla (workers, pipes, deaths; safety and termination) model-checked, two broken variants refuted; fault schedules generated by TLC replayed with real processes and validated against EvalObs.tla', 'The pipe model is the worst case (no buffer); real schedules vary completion order by sleeping.'),
 'C13': ('CostLearning.tla model-checked; generated cost histories replayed and recorded cost learning validated against it', 'Exact durations from a fake clock; recorded training sets of the cost surrogate; acquisitions per unit cost with closed-form quotient-rule gradients.'),
 'C14': ('SavedFiles.tla model-checked; generated histories of runs and save requests replayed, the files read back and validated against it', 'Files after arbitrary histories of runs, failures and saves; exact numbers over magnitudes; all report statements.'),
 'C15': ('closed forms of the acquisitions specified over a table of the normal distribution (AcqValues.tla, model-checked against difference quotients); generated predictions fed to the acquisitions through a stub surrogate and every value and gradient validated', 'Exact lattice of quantiles from -7.5 to 7.5, zero deviations, up to 3 samples, costs, constraints; gradients of fitted surrogates against difference quotients (1%).'),
 'C16': ('BatchProtocol.tla (batches built step by step) model-checked with three refuted broken variants; recorded batches of all batch methods, with every acquisition call, validated against it', 'Penalties at probe locations compared before, between and after the steps; sequences of batches on one optimizer; local penalization with GP surrogates only.'),
 'C17': ('Options.tla (option -> component mapping) model-checked with three refuted broken variants; generated option combinations used to construct optimizers, the components found (and what a first request does) validated against it', 'Pairs and triples of options over surrogates, acquisitions, batch methods, optimizers and their extra values; invalid choices have to raise.'),
 'C18': ('ConfigTree.tla (nested override) model-checked, the shared-defaults variant refuted; generated configuration trees loaded in sequences and validated against it', 'Trees over the real keys of the defaults, to depth 3, loaded in sequences; malformed files; textual and literal domains.'),
 'C19': ('OutputLog.tla model-checked with three refuted variants; generated logging sessions replayed, the files read back and validated against it', 'Several savers and loggers per session, regular and final iterations, intervals -1..4, several sessions.'),
 'C20': ('SurrogateUse.tla (surrogates as objects, queries interleaved step by step) model-checked with two refuted variants; generated sequences of updates, queries and copies run on the real surrogates and validated against it', 'GP (11 configurations, sparse included), GP_MCMC (3), warped GP; up to 12 operations on up to 3 surrogates; results compared up to 1e-6 relative.'),
 'C21': ('Isolation.tla (heap of cells shared by caller and optimizer, undisturbed twin) model-checked with four refuted aliasing designs; generated calls and overwritings replayed next to a twin and validated against it', 'Digests of every object the caller owns before and after every call; overwritten results; equality with a twin whose caller overwrites nothing.'),
 'C22': (SUG, 'Quadratic acquisition with a peak chosen by TLC; the set of best allowed locations is computed exactly by the specification.'),
 'C23': ('EntropySearch.tla (joint beliefs with exact pairwise bounds, scores of two candidates in closed form, life of a belief) model-checked with two refuted stale designs; generated beliefs, scores, surrogate histories and densities fed to the library and every answer validated against it', 'Integer Gaussians over 2-6 points; scores over a table of the closed form (13 separations, 5 correlations, 1/5/20 innovations); up to 9 updates and probes per life; real GP surrogates through a table kernel.'),
 'C24': ('Experiment.tla (configuration -> initial design -> acquisitions -> limits) model-checked with refuted broken variants; generated configuration files run through the driver and the command-line script, the recorded objective calls and results validated against it', 'Real configuration files and generated objective modules; durations from a fake clock; components of the finished optimizer; saved files read back.'),
}
NA = {}
