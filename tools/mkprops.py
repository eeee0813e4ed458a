import json
P=[]
B="causal_effect_bandits/bandits.py"; A="causal_effect_bandits/arms.py"; D="causal_effect_bandits/data.py"; N="causal_effect_bandits/parameters.py"; S="causal_effect_bandits/scm.py"; U="causal_effect_bandits/paper_utils.py"; X="causal_effect_bandits/example_scm.py"; G="causal_effect_bandits/nonlinear_utils.py"; L="causal_effect_bandits/plotting_utils.py"
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    len(title)<=80 or print("LONG",id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","A budgeted bandit run always ends, at the first round that exceeds the budget",
"With a finite sample limit every run of every algorithm returns: a run that is not ended by its confidence criterion ends after the first round whose cumulative sample count is strictly greater than the limit, and never starts another round after that. A run with no sample limit (None or infinity) ends once its arms' intervals separate. This holds whatever intervals the arms report (vacuous, infinite, tied, not-a-number estimates excepted) and whatever the data source delivers (short or empty batches, an exhausted dataset).",
["histories","inputs","fault_sequences","configurations"],
"all algorithms, 2-8 arms, all interval histories the arms can report (including ties, infinite bounds, zero-width intervals), all limits and round sizes, all sequences of short or empty reads",
"bandits_test runs one fixed three-arm history per algorithm with distinct estimates and a generator that always delivers",
[B],[("budget test and loop exit","UniformAlgorithm.run, LUCBAlgorithm.run, SuccessiveEliminationAlgorithm.run"),("limit normalisation","BAIBanditAlgorithm.__init__")],
["return of run()","BanditData.cum_samples","calls to the data source and arms"],
[("total_samples","cumulative units allocated","run() in "+B)])

p("C02","A run that stops before its budget is certified, and stops promptly",
"When uniform sampling or LUCB ends within its budget it returns one arm whose estimate is the lowest and whose upper bound is below every other arm's lower bound plus the allowed error tolerance; successive elimination ends within budget only when one arm survives, and returns it. Consequently, if every reported interval contained its arm's true cost-adjusted variance, the returned arm is optimal up to the tolerance. Conversely the run goes no further than the first round (for LUCB, after its initial round) in which all upper bounds are finite and that criterion holds.",
["histories","inputs","configurations"],
"all interval histories with distinct, tied, drifting, infinite and zero-width intervals, all costs, tolerances and arm counts",
"the tests see one separation pattern with tolerance zero and unit costs, in which one arm is best throughout",
[B],[("fixed-confidence end condition","BAIBanditAlgorithm._check_fixed_conf_end_condition"),("single survivor exit","SuccessiveEliminationAlgorithm.run")],
["BanditData.best_arm","BanditData.lcb_by_arm / ucb_by_arm / var_est_by_arm at the last round"])

p("C03","A run that exhausts its budget answers with its lowest-estimate arms",
"A run ended by its sample limit returns exactly the arms whose latest cost-adjusted variance estimate equals the minimum: over all arms for uniform sampling and LUCB, over the arms not yet eliminated for successive elimination. The answer of any completed run is never empty and never contains an eliminated arm.",
["histories","inputs"],
"all interval and estimate histories, including estimates that drift after an arm was eliminated, ties, infinite estimates, costs that reorder arms",
"the tests end with a unique minimum that was the minimum in every round",
[B],[("exhaustion answer","the sample_limit branches of run()"),("arm selection by mask","BAIBanditAlgorithm._select_arms_with_mask")],
["BanditData.best_arm"])

p("C04","Sample accounting conserves units",
"In the history of every completed run, the units recorded for an arm in a round are the units per round if that arm was updated in that round and 0 otherwise, each updated arm is updated exactly once per round, and while the source delivers full batches these are the units that reached the arm. The cumulative count of each round is the previous one plus the sum of that round's records over all arms, and every per-arm sequence has exactly one entry per round.",
["histories","inputs","fault_sequences"],
"all algorithms, interval histories (in particular ties at infinite bounds), arm counts, round sizes, repeated runs on the same bandit",
"the tests check the record of one history per algorithm but never compare it with what the arms received, and contain no ties",
[B],[("per-round recording","run() of each algorithm"),("total_samples increments","run() of each algorithm")],
["BanditData.samples_by_arm","BanditData.cum_samples","data passed to each arm's update"])

p("C05","The recorded history is what the arms reported, scaled by cost",
"For every round and every arm the recorded lower bound, upper bound and estimate equal the arm's cost times the interval ends and variance estimate that the arm reported after its most recent update up to and including that round; arms that were not updated repeat their previous values. Records of past rounds never change afterwards, and a later run returns its own history without altering an earlier result.",
["histories","inputs"],
"all algorithms, interval histories, costs different from one, repeated runs on the same arms",
"all tested arms have cost 1 and constant estimates",
[B],[("history recording","run() of each algorithm"),("cost scaling","BAIBanditAlgorithm.collect_bounds")],
["BanditData.lcb_by_arm","BanditData.ucb_by_arm","BanditData.var_est_by_arm"])

p("C06","LUCB samples the leader and its closest challenger, two distinct arms",
"After an initial round that updates every arm once, each LUCB round updates exactly two distinct arms: a leader with the lowest cost-adjusted estimate (among several, the one with the highest upper bound) and a challenger with the lowest lower bound among the arms whose estimate is not the lowest. If no such challenger exists because all estimates are equal, any two distinct arms are updated instead and the run continues. Ties within a role may be broken at random but never outside the role.",
["histories","inputs","schedules"],
"all interval histories and all outcomes of the random tie-breaks, 2-8 arms, any costs",
"the single tested LUCB history has no ties in the role that decides and no infinite or equal estimates",
[B],[("arm selection","LUCBAlgorithm.select_arms")],
["which arms' update is called in each round"])

p("C07","Successive elimination samples exactly the survivors; elimination is final",
"Each round updates every surviving arm exactly once and no eliminated arm. An arm is eliminated after a round exactly when its lower bound exceeds the smallest upper bound among the surviving arms that have the lowest estimate (at equality either is allowed), so the survivors never become empty, an eliminated arm never returns, and arms outside that rule are never dropped.",
["histories","inputs"],
"all interval histories including ties, zero-width intervals, infinite bounds and estimates that cross after elimination, any costs",
"the tested history eliminates two arms one by one with well separated constant estimates",
[B],[("candidate pruning","SuccessiveEliminationAlgorithm.run")],
["which arms' update is called in each round","BanditData.samples_by_arm","BanditData.best_arm"],
[("candidate_arms","arms still in the race","SuccessiveEliminationAlgorithm.run")])

p("C08","Uniform sampling gives every arm one update per round",
"In every round of uniform sampling each arm is updated exactly once, in generator mode with one and the same freshly generated batch of the configured size and exactly one generator call per round; in dataset mode each arm gets its own next units. No arm is skipped, repeated or dropped however the intervals evolve.",
["histories","inputs","fault_sequences"],
"all interval histories, arm counts, round sizes, batch faults",
"the single tested run uses constant arms that count units but do not look at which units they receive",
[B],[("round loop","UniformAlgorithm.run")],
["which data each arm's update receives"])

p("C09","On a dataset each arm reads every unit at most once, in order, across failures",
"When runs are given a dataset, the units an arm consumes are, in order and without gaps or repetitions, a prefix of that dataset that depends only on how often the arm itself was updated: each update takes the next round's worth of units (fewer only at the end of the dataset). This stays true over any sequence of runs of any algorithms over the same arms, including runs cut short by an exception or interrupt and resumed by calling run again without a reset; a reset starts the prefix over.",
["histories","crash_points","fault_sequences","configurations"],
"all sequences of runs, faults at any update (before or after the arm ingested the batch), resumes, algorithm changes and resets over shared arms, all dataset lengths and round sizes",
"no test passes a dataset to run at all, and none fails and resumes a run",
[B,D,A],[("per-arm read offset","all_data[n_start:n_start + units_per_round] in run() of each algorithm"),("unit count","get_num_units in "+A),("slicing","ExpData.__getitem__")],
["data passed to each arm's update"])

p("C10","Every interval is requested at the error level divided by the number of arms",
"In every round of every algorithm each updated arm is asked for its interval at exactly the run's error probability divided by the total number of arms, independent of the round, of eliminations and of the confidence or budget settings, so that over all arms the requested errors never sum to more than the error probability.",
["histories","configurations"],
"all algorithms, arm counts, error probabilities, elimination histories, repeated runs",
"test arms ignore the level they are given",
[B],[("union bound split","self.error_prob / len(self._arms) in run() of each algorithm")],
["delta argument of each arm's update"])

p("C11","Failures surface and leave the bandit usable",
"An exception raised during a run by the data source or by an arm, or a keyboard interrupt, reaches the caller unchanged; no arm is updated after it and no result is returned in its place. After such a failure, resetting the bandit and running again gives the same result as a bandit that never failed.",
["fault_sequences","crash_points","histories"],
"an exception or interrupt at any data-source call, any arm update (before or after it takes effect), any executed line of the bandit code, repeated failures, all algorithms",
"no test injects a failure",
[B,A],[("exception propagation and local run state","run() of each algorithm"),("reset","BAIBanditAlgorithm.reset")],
["exception seen by the caller of run()","update calls after the fault","result of the run after reset"])

p("C12","Reset returns arms and bandits to their just-constructed state",
"After any history of updates and runs, including ones aborted at an arbitrary point, resetting an arm (or a bandit, for all its arms) makes it indistinguishable from a newly constructed one: interval, estimates, pull count and unit count equal the initial ones, its nuisance parameter reports that it has no fit, and the same data with the same random numbers then give the same interval, effect and variance estimates at every update.",
["histories","crash_points"],
"all arm kinds, interval algorithms, nuisance parameters; all update histories; interrupts at any executed line of the package including inside reset itself",
"no test calls reset",
[A,N,B],[("arm reset","VarianceEstimatorArm.reset, SampleSplittingArm.reset"),("nuisance reset","reset of each NuisanceParameter"),("bandit reset","BAIBanditAlgorithm.reset")],
["ci, var_est, ate, num_pulled, get_num_units()","eta.has_enough_samples()","results of later updates"])

p("C13","Runs that share only data do not influence each other",
"Bandit runs over different arms that are executed concurrently in one process and share a dataset, a data generator or transformer functions give, under every interleaving and when each run draws its own random numbers, exactly the result each gives alone.",
["schedules","configurations"],
"all interleavings at source-line granularity of two or three concurrent runs of any algorithms over separate scripted or real arms, sharing a dataset or a generator",
"every test runs one bandit alone",
[B,A,N,D,S],[("run-local history and candidate lists","run() of each algorithm"),("copying folds","ExpData.k_fold"),("stateless generation","SCM.generate, LinearDataGenerator.generate")],
["BanditData of each run"])

p("C14","A run is a function of its inputs and the NumPy random seed",
"Given the same configuration and data and the same seed of NumPy's global random generator, generating data, updating arms, and running a bandit give the same results every time: independent of the wall clock, hash seed, operating-system entropy, Python's own random module, memory addresses and of whatever else ran earlier in the process.",
["histories","schedules","configurations"],
"all algorithms, arm and generator kinds, ambient clock, entropy and hash-seed values, earlier unrelated activity in the process",
"tests seed the generator only to compare with fixed tolerances, and never run anything twice",
[B,A,N,D,S,X],[("only np.random is used as the source of randomness","throughout the package"),("no module-level mutable state","throughout the package")],
["BanditData, arm estimates and generated data of two executions"])

p("C15","An arm keeps every unit it was given, exactly once, in two balanced folds",
"After any sequence of successful updates, with incremental splitting or with full re-splitting, the units held by an arm are exactly those of all batches since the last reset, each once, with covariates, exposure and response of a unit still belonging together; they lie in two disjoint folds whose sizes differ by at most one per batch (incremental) or in total (re-splitting), and the arm reports the total as its unit count.",
["histories","inputs","schedules"],
"all batch-size sequences including empty, single-unit and odd batches, both splitting modes, both arm kinds, all outcomes of the random split",
"arm tests use equal large batches, one splitting mode, and check only interval order",
[A,D],[("fold maintenance","SampleSplittingArm.update, BootstrapArm.update"),("append","ExpData.append"),("unit count","get_num_units")],
["data passed to the nuisance parameter's fit and calculate_score","get_num_units()"],
[("_split_data","the two folds",A)])

p("C16","Units used to fit the nuisance parameter never score it",
"In every update the nuisance parameter is fitted on one fold only and the effect and variance estimates are computed from the other fold only, using the whole of each; no unit is ever scored by a fit that used it, also when a fit fails or is skipped for lack of data. With incremental splitting this holds over the arm's whole history: a unit once used for fitting is never used for scoring later, and vice versa.",
["histories","schedules","inputs"],
"all batch-size sequences, splitting modes, outcomes of the random split, repeated updates, failed fits in between",
"the tests see estimates of one history and would not notice leakage between folds",
[A],[("sample splitting","SampleSplittingArm.update, BootstrapArm.update")],
["data passed to the nuisance parameter's fit and calculate_score"])

p("C17","Each reported interval is the documented interval of the accumulated data",
"After every update with enough data a sample-splitting arm's effect and variance estimates are the mean and population variance of the scores of its scoring fold, and its interval is the documented one at the requested level: the chi-square interval, the CLT interval with the level divided by the square of the number of updates since reset, or the finite-sample interval of the paper (vacuous until the scoring fold reaches the burn-in size). Interval ends are real and not NaN, the lower end is non-negative and not above the estimate, the upper end is not below it, whatever the covariates (collinear columns included).",
["histories","inputs","configurations"],
"all score values, batch sequences, levels in (0, 0.5], interval algorithms and their parameters, update counts, collinear or constant covariates",
"tests check interval order on one configuration of one algorithm for one seed",
[A,N],[("interval formulas","SampleSplittingArm.update"),("nuisance confidence width","calculate_cs_width of AIPW and FrontDoorLinearFiniteZ"),("update counter","num_pulled")],
["ci, ate, var_est after each update"])

p("C18","Insufficient data gives a vacuous interval, and the arm recovers",
"While an arm's fitting fold has never contained the minimum number of treated and of control units (with re-splitting: does not contain it), or its scoring fold has fewer than two units, an update reports the interval from 0 to infinity, an infinite variance estimate and no effect estimate, and raises nothing; such data never replace an already fitted nuisance parameter. From the first update at which the accumulated fold suffices, the arm reports the estimates it would report had the same units arrived in sufficient batches.",
["histories","fault_sequences","inputs"],
"all sequences of degenerate batches (all treated, all control, empty, single unit) mixed with ordinary ones, all nuisance parameter kinds that need both groups, any minimum of at least two",
"every tested batch has hundreds of units in both groups",
[A,N],[("sufficiency guard","fit and has_enough_samples of AIPW, FrontDoorLinearFiniteZ, LinearParameterBinaryTreatment"),("vacuous interval","has_enough_samples branch of update")],
["ci, var_est, ate","eta.has_enough_samples()"])

p("C19","A failed update is all-or-nothing for the arm's data",
"If an update fails (invalid level, failing data transformer, failing fit, scoring or width computation, failing memory allocation, interrupt at any executed line), the arm afterwards holds either all of that batch or none of it, with every unit intact, and its unit count says which; later updates work and together with them every unit is held exactly once. An invalid level is rejected before anything changes.",
["fault_sequences","crash_points","histories"],
"a failure at any transformer, fit, scoring, width or array-allocation call of any update in any batch history, both arm kinds and splitting modes",
"no test makes an update fail",
[A,D],[("order of validation, append and fit","SampleSplittingArm.update, BootstrapArm.update"),("append","ExpData.append")],
["get_num_units()","data passed to fit and calculate_score in later updates"])

p("C20","A valid adjustment arm estimates the true effect and its variance",
"Fed with data of a causal model for which its adjustment is valid, an arm's effect estimate converges to the true treatment effect for the back-door (AIPW) and the front-door arm, and its variance estimate converges to the asymptotic variance of the efficient score when its models are correctly specified, for every batching of the stream and in spite of interspersed degenerate, short or empty batches.",
["histories","fault_sequences","inputs"],
"all parameters of the example back-door and front-door models, all batch-size sequences, short and empty batches and source errors between them",
"tests compare the variance with the same score function and never compare an effect estimate with the truth",
[N,A,X],[("AIPW score","AIPW.transform, AIPW._phi"),("front-door score","FrontDoorLinearFiniteZ.transform, FrontDoorLinearFiniteZ._phi"),("effect estimate","SampleSplittingArm.update")],
["ate, var_est after the last update"])

p("C21","Random folds and subsamples partition the data",
"For every dataset, fold count and random outcome, k-folding puts each unit in exactly one fold, with fold sizes differing by at most one and units kept in their original relative order, and subsampling puts each unit in exactly one of two parts, everything on one side for proportion 0 or 1; rows stay intact, absent exposures or responses stay absent, and the source dataset is unchanged.",
["schedules","inputs","histories"],
"all random outcomes, unit counts from 0, fold counts from 1 (more folds than units included), one- and two-dimensional covariates, absent exposure or response, chains of operations",
"one four-unit dataset with k=1 and k=2 and a fixed seed",
[D],[("k_fold","ExpData.k_fold"),("subsample","ExpData.subsample")],
["returned ExpData objects"])

p("C22","A failed append leaves the dataset unchanged",
"Appending to a dataset either adds all new units after the existing ones, in order and with rows intact, or, when the new data are incompatible (wrong feature count, missing exposure or response) or an array allocation fails, raises and leaves covariates, exposure, response and unit count of the dataset exactly as they were. The appended dataset itself never changes.",
["fault_sequences","histories","inputs"],
"all append sequences with incompatible batches and allocation failures at any array operation, with or without exposure and response",
"append is tested only indirectly with compatible data",
[D],[("append","ExpData.append")],
["cov, exp, rsp, n_units after the call"])

p("C23","Causal models sample each variable once, after and from its parents",
"Generating n units from a structural causal model samples every variable exactly once for n units, after all its parents, passing it exactly the values drawn for its parents in that same call in the declared order; the returned covariates are the declared covariate variables side by side in the declared order, and exposure and response are the declared treatment and response variables. If a variable's distribution fails, the failure surfaces and later calls are unaffected; a variable order that violates the graph is rejected, not silently mis-sampled. A variable conditioned on a categorical parent is drawn, for each unit, from the distribution that the unit's category selects, given that unit's values of the other parents; the caller's parents are left as they were.",
["inputs","fault_sequences","histories"],
"all graphs and variable orders, variable dimensions, failures at any variable, repeated and nested calls",
"two fixed example graphs checked by means and variances",
[S],[("ancestral sampling","SCM.generate"),("categorical conditioning","categorical_conditioning")],
["arguments of each conditional distribution","returned ExpData"])

p("C24","Computing a treatment effect does not disturb the causal model",
"Computing the treatment effect of a causal model returns the mean response of n units with treatment forced to 1 minus that with treatment forced to 0, and leaves the model's distributions as they were, also when a distribution fails half-way or the computation is interrupted. Observational samples generated concurrently by other callers never see the forced treatment.",
["schedules","fault_sequences","crash_points"],
"all interleavings at line granularity with concurrent generation, a failure at any distribution call, an interrupt at any executed line, all graphs",
"no test computes a treatment effect",
[S],[("intervention by replacing the treatment distribution","SCM.compute_treatment_effect")],
["returned effect","cpds of the model","samples generated during and after the call"])

p("C25","The linear generator's responses use exactly the validated noise draw",
"Each call of the linear data generator asks its noise model for n values once, rejects a draw of any other length, and returns responses equal to the linear predictor plus the treatment effect times the treatment plus exactly those noise values; a failing or short noise read surfaces as an error and leaves the generator usable.",
["fault_sequences","inputs","histories"],
"all noise models that fail, return short, long or scalar-like draws at any call, all dimensions and parameters",
"no test exercises the linear generator",
[D],[("noise draw and check","LinearDataGenerator.generate")],
["calls to the noise model","returned ExpData"])

p("C26","A seeded experiment instance depends only on its seed",
"The conditional distributions that the paper's experiment builders construct for given dimensions and seed are the same every time, independent of the state of NumPy's global random generator before and during construction; different seeds give different instances, and building an instance draws nothing that changes an earlier one.",
["schedules","histories","configurations"],
"all seeds, dimensions and numbers of back-door paths (small), both experiment families, arbitrary draws from the global generator before and at any line during construction",
"no test builds a paper instance",
[U,G],[("seeded generator","get_section_5_1_cpds, get_section_5_2_cpds"),("seeded random functions","generate_random_nd_function")],
["samples drawn from each conditional distribution"])

p("C27","Each experiment arm observes exactly the variables it is named after",
"In the paper's experiments the arms consist of one front-door arm and one back-door arm for each of the 2^M choices of Z_i or V_i for every back-door path, each exactly once; whatever data flow through updates or runs, a back-door arm's nuisance parameter receives exactly the covariate columns of the variables in its name (the front-door arm those of Z_0), and its cost is the sum of the costs of these variables.",
["configurations","histories","inputs"],
"all dimensions, numbers of back-door paths, costs, both experiment families, all three bandits, any batches",
"no test builds the experiment arms",
[U,D],[("column index bookkeeping","generate_example_from_cpd"),("coordinate selection","get_coordinate_mask_fn")],
["data received by arm.eta.fit","arm.name, arm.cost"])

p("C28","Refitting a nuisance parameter forgets earlier data",
"After fitting a nuisance parameter on sufficient data, its scores on any data are those of a freshly constructed one fitted on the same data (up to solver tolerance), whatever it was fitted on before, including data with other covariate values, failed fits and fits aborted at an arbitrary point.",
["histories","crash_points","inputs"],
"all sequences of fits on different datasets and supports, insufficient data, aborts at any executed line, resets, for every nuisance parameter kind",
"every tested nuisance parameter is fitted once",
[N,D],[("fit","fit of each NuisanceParameter"),("table reset","TabularCPD.fit")],
["calculate_score after the last fit"])

p("C29","Arms and runs own their data: no aliasing with callers",
"Running a bandit or updating an arm never modifies the dataset, batch or arrays it was given, and later changes by the caller to arrays it passed in, such as a source that reuses its buffers, never change what an arm has already accumulated.",
["histories","fault_sequences","inputs"],
"all update sequences with batches whose buffers are overwritten at any later time, datasets shared by several arms and runs, all arm kinds, splitting modes and standard transformers",
"test generators return fresh arrays and nothing is compared afterwards",
[A,D,B],[("fold copies","ExpData.k_fold"),("concatenation","ExpData.append"),("transformers","get_identity_fn, get_remove_coordinates_fn, get_coordinate_mask_fn")],
["caller's arrays after the call","data passed to fit and calculate_score in later updates"])

p("C30","Estimates do not depend on the numeric type in which values arrive",
"Streams with equal values but different or changing array types (integer widths, booleans for exposures, floating point) give the same estimates and intervals, for every arm and nuisance parameter, wherever in the stream the type changes.",
["fault_sequences","histories","inputs"],
"all per-batch type changes of covariates, exposures and responses with exactly representable values, back-door and front-door arms",
"every tested stream has one integer type for exposures",
[N,D],[("table keys","TabularCPD.fit, TabularCPD.predict"),("exposure handling","FrontDoorLinearFiniteZ.fit, FrontDoorLinearFiniteZ.transform")],
["ci, ate, var_est after each update"])

p("C31","A unit's score depends only on the fit and the unit",
"Between two fits, the score a nuisance parameter gives a unit is always the same: whichever other units it is scored with, in whatever order and how often, after scoring calls that failed or were interrupted anywhere, while other threads score with it, whatever other parameters of the kind are fitted meanwhile, and whatever callers later write into the arrays they passed or received. Scoring modifies neither the units nor the fit.",
["histories","schedules","fault_sequences","inputs"],
"all histories of scoring calls over chunks of units, interrupts at any executed line, failing allocations, line-granular interleavings with other calls and parameters, reused buffers, for every nuisance parameter kind",
"the tests score one batch once per parameter",
[N,D],[("evaluation","transform, _phi, calculate_score of each NuisanceParameter"),("table look-up","TabularCPD.predict")],
["calculate_score","arrays passed to it","has_enough_samples","calculate_cs_width"])

p("C32","Distribution building blocks combine each unit's own parents plus fresh noise",
"The ready-made conditional distributions (linear normal, transformed normal, structural equation, added Gaussian noise, logistic Bernoulli, categorical conditioning, constants) give every unit the documented function of that unit's own parents plus noise of the requested mean and covariance that does not depend on the parents; extreme logits are decided; parents and weights of any numeric type and memory layout are accepted and never modified. Failing functions surface, and neither they, nor interrupted calls, nor calls running concurrently change what another call returns.",
["inputs","schedules","fault_sequences","histories"],
"all parent shapes, types and layouts, weights, element-wise functions (also memoised ones), interrupts at any executed line, failing functions, line-granular interleavings",
"the tests check means and variances of two fixed models at unlimited sample sizes",
[S],[("distributions","normal_cpd, transformed_normal_cpd, structural_equation_with_noise, add_gaussian_noise, logistic_bernoulli_cpd, logistic_linear_bernoulli_cpd, categorical_conditioning, deterministic_cpd")],
["returned samples","parents after the call"])

p("C33","Set to the truth, a linear parameter scores by the generator's exact law",
"After set_to_truth with a linear generator, the scores of a linear nuisance parameter are exactly those of the generator's true response and (overlap-limited) propensity, whatever came before: nothing, fits, failed or interrupted fits, resets, other truths. The next fit or reset forgets the truth, the generator is not modified, and a generator the parameter cannot represent is refused without effect.",
["histories","crash_points","inputs"],
"all sequences of fits, insufficient fits, resets, earlier truths and refusals with aborts at any executed line, all linear generators, the linear parameter kinds (kernel and boosting models cannot represent a linear truth)",
"set_to_truth is only used by a helper of the tests, after a fit",
[N,D],[("setting the truth","LinearParameterBinaryTreatment.set_to_truth, AIPW.set_to_truth"),("true coefficients","LinearDataGenerator.tau, beta, gamma")],
["calculate_score after set_to_truth, fit and reset"])

p("C34","A conditional table is the smoothed frequency table of its last fit",
"After any history of fits (refused or interrupted ones included), predictions for seen and unseen values and printing, a tabular conditional distribution fitted on a sample is that of the sample alone: each row is a probability distribution over the observed values in which every value has at least the configured fraction of uniform, larger frequencies never get less, the order of the sample does not matter, and it equals the relative frequencies where none is below the minimum. Predicting, printing and later changes to the caller's arrays never change it, its supports or what it prints.",
["histories","crash_points","schedules","inputs"],
"all finite-support samples and refit histories, interrupts at any executed line, seen and unseen queries, concurrent predictions, overwritten buffers",
"one uniform 3x3 table is fitted once",
[D],[("counting and smoothing","TabularCPD.fit"),("look-up","TabularCPD.predict"),("printing","TabularCPD.__str__")],
["TabularCPD.predict","x_support / z_support / support_size","str()"],
[("table","probabilities by value of x and z","TabularCPD.table in "+D)])

p("C35","Transformers keep exactly the documented columns, and nothing else",
"Applied to any data, in any chunks, by several arms and threads at once, repeatedly and after interrupted calls, a standard transformer returns for every unit the selected covariates in the selected order with the unit's own exposure and response, always with one row per unit and one column per selected covariate; it keeps no state between calls and does not modify its input.",
["inputs","schedules","histories","fault_sequences"],
"all column selections, widths, numeric types and chunkings, interrupts at any executed line, line-granular interleavings",
"transformers are only used with their default in the tests",
[D],[("transformers","get_identity_fn, get_remove_coordinates_fn, get_coordinate_mask_fn")],
["returned ExpData","input arrays after the call"])

p("C36","A random nonlinear function is a fixed function determined by its seed",
"A generated random function maps n points to n rows of the requested output dimension, row by row: the value at a point never depends on the other points, earlier, interrupted or concurrent evaluations. The same seed gives the same function, also while other functions are built concurrently or after a construction was interrupted, and with a seed of its own it neither uses nor advances the global random state; without one it depends on the global state alone.",
["inputs","schedules","histories","fault_sequences"],
"input dimensions 1-2, output dimensions 1-3, grids, kernels, seeds, chunkings, interrupts at any executed line, line-granular interleavings of constructions and evaluations",
"the module has no tests",
[G],[("Gaussian process sample","generate_random_nd_function")],
["returned function","np.random state"])

p("C37","Nuisance widths follow the published formula of the most recent data",
"Whatever was fitted, refused, interrupted or reset before, the width of a nuisance parameter's confidence sequence equals the published self-normalised bound of the data it was last fitted on, at every error level and constants; it is infinite when that bound is not yet defined, grows as the error level shrinks, and asking for it, scoring and concurrent or interrupted requests never change it.",
["histories","inputs","schedules","crash_points"],
"all fit histories with aborts at any executed line, data matrices including collinear and badly scaled ones, levels and constants, for AIPW and front-door parameters",
"widths are only used inside one arm test",
[N],[("width","AIPW.calculate_cs_width, FrontDoorLinearFiniteZ.calculate_cs_width")],
["calculate_cs_width"],
[("recent_data","data of the last fit","fit of each NuisanceParameter in "+N)])

p("C38","Races find the cheapest estimator, whatever happens on the way",
"Racing real arms whose adjustments are valid for one causal model, each arm's variance estimate approaches its true asymptotic variance as units are read, and each algorithm ends with an arm whose cost-adjusted variance is the lowest: by the estimates, and in truth up to the statistical resolution at the units read; that arm's effect estimate agrees with the true effect. This also holds for races that were interrupted, failed on their source, read short and were resumed, that ran on a dataset, or that followed resets and other races over the same arms; a race without a budget over clearly different arms ends.",
["histories","fault_sequences","crash_points","inputs"],
"random causal models with 3-5 valid adjustments, costs, algorithms, budgets, interval kinds, fault scripts, interrupts at any executed line",
"no test runs an algorithm over real arms to its answer",
[B,A,N,D],[("race","run of each algorithm"),("variance estimate","SampleSplittingArm.update"),("scores","calculate_score of AIPW and front-door parameters")],
["BanditData.best_arm","ate","get_num_units"])

p("C39","Generators draw from the law they declare",
"The linear generator and the example causal models deliver independent units whose covariates, exposures and responses follow the declared distributions; the parameters, moments and effect the example models report agree with each other, with the delivered data and with the computed treatment effect. Interrupted, concurrent, small or reseeded reads, effect computations and other instances in between change none of this.",
["inputs","histories","schedules","fault_sequences"],
"all generator parameters and dimensions, batch sizes, random states, interrupts at any executed line, line-granular interleavings of reads",
"generators are only used as a source of data in the tests",
[D,"causal_effect_bandits/example_scm.py","causal_effect_bandits/scm.py"],[("linear generator","LinearDataGenerator.generate"),("example models","back_door_scm, frontdoor_scm")],
["generated ExpData","returned parameters","compute_treatment_effect"])

p("C40","Scores are the influence function of the models fitted to the last good data",
"After any history, a nuisance parameter scores every unit with its documented influence function, evaluated with exactly the models it is built with (ridge, kernel ridge, linear per group, logistic or boosted propensity, smoothed table, regularised covariance), fitted to the last data with enough treated and untreated units since the last reset, with propensities and table entries clipped to the given overlap. Insufficient, refused and interrupted fits, other parameters and concurrent fits do not enter.",
["inputs","histories","schedules","crash_points"],
"all parameter kinds, hyperparameters, dimensions, fit histories, balanced and one-sided exposures, collinear and badly scaled covariates, numeric types; units that were fitted, are new, far away, single or of one group; interrupts at any executed line, line-granular interleavings of fits",
"tests compare a few scores of one parameter kind with a formula on one dataset",
[N,D],[("fit","fit of each NuisanceParameter"),("influence functions","_phi of each NuisanceParameter"),("smoothed table","TabularCPD.fit")],
["calculate_score","has_enough_samples"])

p("C41","A bootstrap interval is the percentiles of refits inside the fitting fold",
"After each successful update of a bootstrap arm, every bootstrap refit was fitted on one part of the arm's fitting fold and evaluated on the rest of that fold, never on the scoring fold; the interval is the lower delta/2 and upper 1-delta/2 percentile of the variances of those evaluations, of as many refits as were asked for (4/delta rounded up by default; those without a held-out unit do not count); the effect and variance are those of the scoring fold under the fit on the whole fitting fold. Without a refit to evaluate, the interval is vacuous. This holds after resets, failed and interrupted updates.",
["inputs","histories","fault_sequences","crash_points"],
"all batch histories, both splitting modes, numbers of bootstraps, error levels, parameter kinds, failing parameter calls, interrupts at any executed line",
"the tests only compare the order of interval ends of one arm",
[A,D],[("bootstrap","BootstrapArm.update"),("random halves","ExpData.subsample")],
["ci","ate","var_est","units given to the nuisance parameter"])

p("C42","Invalid requests are refused before anything changes",
"A request with invalid arguments is refused with an error: algorithms with an error probability or confidence outside the open unit interval, a negative tolerance, or neither confidence nor budget; updates at an error level outside it; folds, shares, widths, missing columns, generator weights, incomplete causal models and mismatched distribution building blocks. A refused request changes nothing: no arm, parameter, dataset, generator, model or random state, so every later valid request gives what it would have given without it, also when refused requests were made concurrently or interrupted. Valid border values are accepted.",
["inputs","histories","schedules","crash_points"],
"all sessions of valid and invalid requests to all components, line-granular interleavings, interrupts at any executed line",
"constructors and updates are tested with valid values only",
[B,A,N,D,"causal_effect_bandits/scm.py"],[("validation","BAIBanditAlgorithm.__init__, update of the arms, ExpData, LinearDataGenerator, SCM")],
["exceptions","results of later requests","np.random state"])

p("N02","Plots show the recorded history",
"Plotting a bandit result draws for each arm its recorded estimates and bounds against the cumulative sample counts from the requested round on.",
["inputs"],"all bandit results","not tested",[L],[("plotting","plot_bandit_results")],["matplotlib axes"])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P: jsonschema.validate(q,sch)
print(len(P))
