# Generates /verif/properties.jsonl (single source for the property texts).
import json, sys
S="src/quocslib/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=False):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],
      mechanism=[dict(name=a,where=S+b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Every delivered pulse sample respects the declared amplitude limits",
 "Every sample of every pulse handed to the figure-of-merit evaluation lies between the lower and upper amplitude limit declared for that pulse (the two limits may be given in either order), for every search vector, basis, initial guess, scaling function and accumulated base pulse, for the default shaping chain and for every configured chain that ends with the limiting step, in the clipping and (up to floating-point rounding) in the shrinking mode. The initial guess is brought inside the limits before it is used.",
 ["inputs","configurations","histories"],"all real sample values, grid sizes, limit pairs, guesses, scaling functions, base pulses left by any number of earlier super-iterations; default shaping chain or any chain ending with the limiting step",
 "The tests build a handful of pulses with fixed limits and never assert that samples stay inside them.",
 ["pulses/BasePulse.py"],[("limiting step of the shaping chain","pulses/BasePulse.py:_get_limited_pulse,_shrink_pulse_2,limit_pulse"),("shaping chain","pulses/BasePulse.py:_get_build_pulse"),("limit ordering","pulses/BasePulse.py:__init__")],
 [("amplitude limits","declared interval of admissible samples","pulses/BasePulse.py:amplitude_lower,amplitude_upper")],["pulses argument of the figure-of-merit evaluation"])

p("C02","Amplitude limiting keeps admissible pulses and preserves the shape",
 "A pulse that is already inside its amplitude limits is delivered unchanged. In clipping mode (the default) each out-of-range sample is replaced by the nearest limit and no other sample changes; in shrinking mode a partly out-of-range pulse is contracted by one common affine map with slope between 0 and 1 that moves an exceeded extreme onto its limit, leaves an extreme that was not exceeded where it was, and leaves the overall ordering of samples intact, while a pulse entirely beyond one limit becomes that limit.",
 ["inputs"],"all pulses (any length, any real samples) and all limit pairs",
 "Shape preservation is a relation between all samples of an arbitrary pulse; tests only sample two fixed pulses and check no relation.",
 ["pulses/BasePulse.py"],[("clip / shrink","pulses/BasePulse.py:_get_limited_pulse,_shrink_pulse_2")],(),["pulses argument of the figure-of-merit evaluation"])

p("C03","Pulses are assembled from guess, base, update and scaling in configured order",
 "The delivered pulse is the result of applying the configured shaping steps in the configured order to the zero pulse, where the steps mean: add the (limited) initial guess, add the base pulse, add the basis expansion, multiply by the scaling function (or pass time and pulse to a two-argument scaling function), and limit; without a configuration the order is guess, base, update, scale, limit. Guess and scaling are evaluated on the delivered time grid, which has the configured number of samples running linearly from 0 to the pulse's final time, and an unknown step name changes nothing.",
 ["inputs","configurations"],"all shaping-step lists, guess/scaling given as expression or list, bins numbers, final times and bases",
 "There are arbitrarily many shaping chains and function values; tests run two configurations end to end without an oracle for the samples.",
 ["pulses/BasePulse.py"],[("shaping chain construction and folding","pulses/BasePulse.py:__init__,_get_build_pulse,get_pulse"),("steps","pulses/BasePulse.py:add_initial_guess,add_base_pulse,add_shaped_pulse,scale_pulse,limit_pulse"),("time grid","pulses/BasePulse.py:_set_time_grid")],(),["pulses and timegrids arguments of the figure-of-merit evaluation"])

p("C04","Each basis yields its documented expansion of the search parameters",
 "For every search vector and every draw of random super-parameters the unshaped pulse equals the documented expansion sample by sample: the Fourier sum of sine/cosine pairs, for the Walsh basis that sum cut where, added to the limited initial guess, it would leave the amplitude limits, Chebyshev sums, sums of shifted sinc functions, sums of error-function steps (the parameters being step heights, or heights and step times, or heights, times and widths) with a step at the start for the offset and a final step that takes the pulse back to zero at the end (with all parameters varied: if there is an offset), and the piecewise-constant pulse equal to its parameters. Each basis declares exactly as many search parameters, scales and offsets as its expansion consumes, with zero offsets so that the zero vector is the zero update.",
 ["inputs","configurations"],"any number of basis vectors, any coefficients, any super-parameters, grids and final times",
 "Tests run optimizations with a few bases and never compare the samples with the formula; a wrong index or coefficient still gives a plausible optimisation.",
 ["pulses/basis/Fourier.py","pulses/basis/Walsh.py","pulses/basis/Chebyshev.py","pulses/basis/Sinc.py","pulses/basis/Sigmoid.py","pulses/basis/SigmoidTimeDep.py","pulses/basis/SigmoidSigmas.py","pulses/basis/PiecewiseBasis.py"],
 [("expansion","pulses/basis/*.py:_get_shaped_pulse"),("sizes","pulses/basis/*.py:__init__")],[("search parameter count, scales, offsets","how many entries of the search vector belong to the pulse","pulses/basis/*.py:control_parameters_number,scale_coefficients,offset_coefficients")],["bare pulses returned to the user"])

p("C05","Scalar parameters always stay inside their declared interval",
 "Whatever value the search proposes, the parameter delivered to the evaluation and the parameter kept as the current best is the proposed value when that lies inside the declared interval and the violated limit otherwise.",
 ["inputs","histories"],"all proposed reals, all intervals with lower not above upper, any sequence of get/set calls",
 "Tests use one problem whose optimum is interior, so limits are hardly ever active.",
 ["parameters/BaseParameter.py","parameters/Parameter.py"],[("limit check","parameters/BaseParameter.py:_check_limits,_set_parameter,get_parameter,set_parameter")],[("parameter value","current value","parameters/BaseParameter.py:value")],["parameters argument of the figure-of-merit evaluation"])

p("C06","Every search-vector entry belongs to exactly one control",
 "At all times the entries of the search vector are partitioned among the controls: pulses in configuration order, then parameters, each owning a contiguous block as long as its declared number of parameters, together covering the whole vector without overlap, also after bases were redrawn or changed size between super-iterations. The vectors of initial spreads and of start values carry, at each control's block, exactly that control's scales and offsets (or amplitude variation and current value).",
 ["configurations","histories"],"any number and mix of pulses and parameters, any basis sizes, any number of re-selections",
 "Tests use at most a couple of pulses of equal size, where an off-by-one or a stale index is invisible.",
 ["Controls.py","pulses/BasePulse.py","parameters/BaseParameter.py"],[("index assignment","Controls.py:__init__,_update_control_parameter_indexes,select_basis"),("index lists","pulses/BasePulse.py:set_control_parameters_list"),("index lists of parameters","parameters/BaseParameter.py:set_control_parameters_list"),("vectors","Controls.py:get_sigma_variation,get_mean_value,get_control_parameters_number")],[("block of each control","indices into the search vector","pulses/BasePulse.py:control_parameters_list,last_index")],["length of the search vector and of the start simplex"])

p("C07","Each control is delivered from its own entries, with its own time and in order",
 "The evaluation receives one pulse and one time grid per configured pulse and one value per configured parameter, in configuration order; each is computed only from that control's own entries of the search vector and, for pulses, from the (fixed) final time configured for the time name that pulse refers to. This holds for every evaluation, also when the receiver changes the arrays it was handed. The same holds for the bare pulses and for updates of the base controls, and the automatic-differentiation variant delivers the same values zero-padded to the longest pulse.",
 ["inputs","configurations"],"any number of pulses/parameters/times, any search vector, pulses sharing or not sharing times",
 "Needs all mixes of pulses, times and parameters; tests use one time shared by all pulses.",
 ["Controls.py","parameters/TimeParameter.py"],[("delivery","Controls.py:_get_controls_lists,get_bare_controls_lists,update_base_controls,_get_controls_jax_obj,_get_converted_jax_obj")],(),["get_FoM(pulses, parameters, timegrids)"])

p("C08","Dressing keeps the best pulse: after a super-iteration the zero update is the best",
 "When a super-iteration ends, the base controls are updated with the best search vector of that super-iteration, so that for the default clipping chain the controls obtained from the new start values are identical to the controls of that best vector; the update is accumulated on (or, if so configured, replaces) the base pulse exactly once. The recorded lists of best vectors and super-parameters get exactly one matching entry per finished super-iteration.",
 ["histories","inputs"],"any number of super-iterations, any best vectors, any bases whose zero vector is the zero update",
 "Tests stop after few super-iterations and never compare delivered controls before and after the dressing.",
 ["optimizationalgorithms/dCRABAlgorithm.py","Controls.py","pulses/BasePulse.py"],[("dressing","optimizationalgorithms/dCRABAlgorithm.py:run,_dsm_build,_update_base_pulses"),("base update","Controls.py:update_base_controls"),("accumulate","pulses/BasePulse.py:set_base_pulse")],[("base pulse","sum of accepted updates","pulses/BasePulse.py:base_pulse")],["get_best_controls(), start of next super-iteration"])

p("C09","Random super-parameters are stratified over the declared range",
 "Each draw of k super-parameters puts exactly one into each of the k equal sub-intervals of the declared range, in ascending sub-interval order, replaces the whole previous draw, and consumes k fresh random numbers of the configured generator; so all of them stay inside the declared range.",
 ["inputs","configurations"],"any k, any range, any random numbers in [0,1)",
 "Randomised: tests see a few draws and assert nothing about them.",
 ["pulses/superparameter/Uniform.py","pulses/superparameter/SuperParameterDistribution.py","pulses/basis/ChoppedBasis.py"],[("draw","pulses/superparameter/Uniform.py:set_random_super_parameter")],[("super-parameters","frequencies/centres of the chopped basis","pulses/superparameter/SuperParameterDistribution.py:w")],["super-parameters reported to the user"])

p("C10","A configured seed makes the whole optimization reproducible",
 "Two optimizations with the same settings, the same configured random seed and the same deterministic evaluation send the same sequence of controls, whatever state the global random generators are in; this holds for every algorithm that takes a seed (dCRAB with every direct-search method, GRAPE, AD).",
 ["histories","configurations"],"all settings with a seed, all prior states of the global random generators",
 "Non-interference over two runs (hyperproperty); tests compare no two runs.",
 ["tools/randomgenerator.py","tools/linearalgebra.py","pulses/superparameter/Uniform.py","optimizationalgorithms/dCRABAlgorithm.py","gradientfreemethods/CMAES.py","gradientfreemethods/NelderMead.py"],[("seeded generator","tools/randomgenerator.py"),("uses","tools/linearalgebra.py:simplex_creation"),("uses","pulses/superparameter/Uniform.py:set_random_super_parameter"),("uses","gradientfreemethods/CMAES.py:run_dsm")],(),["sequence of controls sent for evaluation"])

p("C11","The start simplex is centred at the start value with the declared spreads",
 "The start simplex has one more vertex than search entries, its first vertex is the start value, and the displacements of the other vertices, divided entrywise by the declared spreads, form an orthonormal set; hence the simplex is never degenerate and no vertex is displaced in any entry by more than that entry's spread.",
 ["inputs"],"any dimension, start value, positive spreads and random matrix of full rank",
 "Tests run with fixed problems and do not inspect the simplex.",
 ["tools/linearalgebra.py"],[("simplex creation","tools/linearalgebra.py:simplex_creation,gram_schmidt")],(),["first evaluations of a super-iteration"])

p("C12","The reported best is the best evaluation ever made",
 "After every evaluation the best figure of merit held by the optimizer is the best over all successful evaluations so far (without noise re-evaluation and drift compensation), the best search vector is the vector that achieved it, ties keep the earlier one, and the record flag sent with each evaluation is true exactly when it improved. The final report and the best controls returned to the user are those of that best evaluation and not of the last one.",
 ["histories"],"any sequence of figure-of-merit values (including ties, huge and negative values) and search vectors",
 "A history property; tests check only that an optimisation of one problem converges.",
 ["optimizationalgorithms/dCRABAlgorithm.py","optimizationalgorithms/DirectSearchAlgorithm.py","optimizationalgorithms/GRAPEAlgorithm.py","optimizationalgorithms/ADAlgorithm.py","optimizationalgorithms/OptimizationAlgorithm.py"],[("record update","optimizationalgorithms/*.py:_get_response_for_client,get_is_record"),("final results","optimizationalgorithms/*.py:_get_final_results"),("best controls","optimizationalgorithms/OptimizationAlgorithm.py:get_best_controls")],[("best so far","record value and vector","optimizationalgorithms/OptimizationAlgorithm.py:best_FoM,best_xx")],["final results, get_best_controls(), record flags"])

p("C13","Maximizing f is minimizing -f",
 "With direction 'maximization' the search receives the negated user value and with 'minimization' the value itself, the goal is converted in the same way, and every figure of merit reported back at the end carries the user's sign; so an optimization of f in one direction sends exactly the controls that an optimization of -f sends in the other.",
 ["inputs","configurations","histories"],"all figure-of-merit functions, goals and settings",
 "A relation between two runs; tests only run each direction once on different problems.",
 ["communication/AllInOneCommunication.py","optimizationalgorithms/OptimizationAlgorithm.py","Optimizer.py","optimizationalgorithms/dCRABAlgorithm.py","optimizationalgorithms/DirectSearchAlgorithm.py","optimizationalgorithms/GRAPEAlgorithm.py"],[("sign at the boundary","communication/AllInOneCommunication.py:get_data"),("goal","optimizationalgorithms/OptimizationAlgorithm.py:__init__"),("reports","optimizationalgorithms/*.py:_get_final_results")],(),["controls sent, final results"])

p("C14","Budget, goal, time limit and user stop end the evaluations",
 "The number of evaluations never exceeds the configured total; no evaluation is made once the best figure of merit has reached the goal, once the total run time is used up, or once the user or the client has stopped the optimization; and each of these stops also makes the direct search end, with a termination reason that names the limit that was actually hit.",
 ["histories","configurations"],"any budgets, goals, clocks, figure-of-merit histories and stop points",
 "Depends on the point at which the limit is hit, within any search step; tests use budgets hit in the main loop only.",
 ["optimizationalgorithms/OptimizationAlgorithm.py","communication/AllInOneCommunication.py","gradientfreemethods/NelderMead.py","gradientfreemethods/CMAES.py","optimizationalgorithms/dCRABAlgorithm.py"],[("gate before each evaluation","optimizationalgorithms/OptimizationAlgorithm.py:_routine_call"),("user stop","optimizationalgorithms/OptimizationAlgorithm.py:handle_user_cancellation,stop_optimization")],[("evaluation count","number of evaluations made","optimizationalgorithms/OptimizationAlgorithm.py:iteration_number"),("running flag","whether the optimization may go on","communication/AllInOneCommunication.py:is_user_running")],["calls of the figure-of-merit evaluation, termination reason"])

p("C15","A failed or suppressed evaluation never becomes or destroys the record",
 "When an evaluation reports a non-zero status, the optimization stops and neither the best figure of merit nor the best search vector is replaced by that evaluation, and no exception escapes. An evaluation that was not made because the optimization had already stopped leaves the best figure of merit and best vector unchanged, including during re-evaluation and drift compensation.",
 ["fault_sequences","crash_points"],"failure or stop at any evaluation of any search phase, with any value (or none) accompanying the failure",
 "Fault injection at every evaluation; tests have no failing evaluation.",
 ["communication/AllInOneCommunication.py","optimizationalgorithms/OptimizationAlgorithm.py","optimizationalgorithms/dCRABAlgorithm.py","optimizationalgorithms/DirectSearchAlgorithm.py","gradientfreemethods/NelderMead.py"],[("status handling","communication/AllInOneCommunication.py:get_data"),("record update","optimizationalgorithms/*.py:_get_response_for_client"),("drift compensation","optimizationalgorithms/dCRABAlgorithm.py:_update_FoM,_inner_routine_call")],(),["final results after a failure"])

p("C16","Noise re-evaluation averages all repetitions and accepts only above the thresholds",
 "With re-evaluation configured, the value given to the search is the mean of all evaluations made for that vector, a vector is re-evaluated only while the probability that it beats the record reaches the next configured threshold, and it becomes the record only if the probability finally exceeds the last threshold; the record then carries the averaged value, averaged deviation and the vector itself. The probability is the normal probability that the first mean is below the second for the combined deviation.",
 ["inputs","histories"],"any threshold lists, any noisy values and deviations",
 "Depends on every path through the thresholds; tests run one noisy problem without an oracle.",
 ["optimizationalgorithms/dCRABAlgorithm.py","optimizationalgorithms/DirectSearchAlgorithm.py"],[("re-evaluation","optimizationalgorithms/dCRABAlgorithm.py:_inner_routine_call,_get_average_FoM_std,_probabnormx1betterx2"),("re-evaluation","optimizationalgorithms/DirectSearchAlgorithm.py:_inner_routine_call,_get_average_FoM_std,_probabnormx1betterx2")],[("test values","values of the repetitions","optimizationalgorithms/dCRABAlgorithm.py:FoM_test,sigma_test")],["value returned to the search, record"])

p("C17","Drift compensation re-measures the best controls and adopts the mean",
 "Drift compensation evaluates the current best controls the configured number of times and adopts the mean of these values as the new reference figure of merit while the best vector stays the same; when it is not configured it makes no evaluation.",
 ["histories","configurations"],"any number of averages, any drifting values, any time at which it triggers",
 "Timing dependent and not asserted by any test.",
 ["optimizationalgorithms/dCRABAlgorithm.py","gradientfreemethods/NelderMead.py"],[("after super-iteration","optimizationalgorithms/dCRABAlgorithm.py:_update_FoM"),("after minutes","gradientfreemethods/NelderMead.py:run_dsm")],(),["best figure of merit, evaluations"])

p("C18","Nelder-Mead returns the best vertex it evaluated with its true value",
 "The Nelder-Mead search keeps every vertex paired with the value returned for that very vertex, never replaces the best vertex by a worse one, starts from the given simplex (or one containing the start point), and returns, also when it was stopped early, the vertex with the smallest value it holds together with that value; the number of evaluations it reports is the number it made, and each new vertex is the reflection, expansion, contraction or shrink of the current simplex with the standard (or dimension-adapted) coefficients.",
 ["inputs","histories"],"any objective, dimension, start simplex and stopping point",
 "Needs all branch sequences of the simplex moves; tests optimise one smooth function.",
 ["gradientfreemethods/NelderMead.py"],[("simplex loop","gradientfreemethods/NelderMead.py:run_dsm")],[("simplex and values","vertices and figure of merit of each","gradientfreemethods/NelderMead.py:sim,fsim")],["result of the search, evaluated vectors"])

p("C19","Stopping criteria fire exactly on their documented condition and stay fired",
 "The search-level criteria stop the search exactly when the documented condition holds: evaluation count reaching the configured maximum, simplex extent within xatol, spread of values within fatol, search time beyond the limit, or the fitted change of the best figure of merit over the configured number of last evaluations being below the configured threshold; once fired they stay fired until a new search is started, and the reported reason names a criterion that did fire.",
 ["inputs","histories"],"any counts, simplices, value histories, clocks and thresholds",
 "Boundary conditions over arbitrary histories; tests use defaults.",
 ["stoppingcriteria/StoppingCriteria.py","stoppingcriteria/NelderMeadStoppingCriteria.py","stoppingcriteria/CMAESStoppingCriteria.py"],[("criteria","stoppingcriteria/*.py:check_stopping_criteria,check_advanced_stopping_criteria")],[("converged flag","search is to end","stoppingcriteria/*.py:is_converged,terminate_reason")],["end of the direct search and its reason"])

p("C20","CMA-ES samples, ranks and reports consistently",
 "The CMA-ES search evaluates the start point first, keeps each candidate paired with its own value when ranking, forms the new mean as the weighted sum of the best half with positive decreasing weights that add up to one, draws the candidates of every later generation with the mean, step size and covariance that the CMA-ES update equations give for the ranked candidates so far, reports the best candidate of the last generation with its own value and the number of evaluations it made, and leaves the start point and the spreads it was given as they are.",
 ["inputs","histories"],"any objective, dimension, spread, random draws and stopping point",
 "Random population method; tests only look at convergence.",
 ["gradientfreemethods/CMAES.py"],[("generation loop","gradientfreemethods/CMAES.py:run_dsm")],(),["result of the search, evaluated vectors"])

p("C21","Piecewise propagators are the ordered products of the slice exponentials",
 "For any number of slices (at least one), control samples, drift, control Hamiltonians and step, the stored propagator of slice i is the exponential of -i*dt times the drift plus the amplitude-weighted controls of that slice, for every slice, and the final propagator is the time-ordered product with later slices on the left; the automatic-differentiation variants compute the same.",
 ["inputs"],"any number of slices and controls, any matrices",
 "Tests compare a fixed two-level case at most; order mistakes are invisible for commuting Hamiltonians.",
 ["timeevolution/piecewise_integrator.py","timeevolution/piecewise_integrator_AD.py"],[("propagators","timeevolution/piecewise_integrator.py:pw_evolution,pw_final_evolution"),("AD propagators","timeevolution/piecewise_integrator_AD.py")],(),["propagators returned"])

p("C22","The GRAPE gradient is the adjoint formula of the cost it minimizes",
 "The gradient given to the gradient-based search equals, slice by slice and control by control, the first-order adjoint expression built from the state propagated forwards from the initial state and the target propagated backwards through the same slice propagators, in the order of the search vector, for state transfer with one control Hamiltonian driven by one pulse; the cost and the gradient refer to the same controls.",
 ["inputs"],"any number of slices, controls and Hermitian Hamiltonians",
 "Needs all slice positions and controls; a test only checks that a toy problem converges.",
 ["optimizationalgorithms/GRAPEAlgorithm.py","tools/linearalgebra.py"],[("gradient","optimizationalgorithms/GRAPEAlgorithm.py:get_gradient"),("commutator","tools/linearalgebra.py:commutator")],(),["gradient handed to the minimizer"])

p("C23","The saved best result is complete and belongs to the latest record",
 "Whenever a record is reported, and only then, the saved best-controls file is replaced by one that holds every pulse, every parameter and every time grid of that record, each retrievable under its own name (repeated names get distinct keys), together with the figure of merit (as handed to the search) and further record data; loading the file gives back the values that were sent.",
 ["histories","inputs"],"any number of controls, any names including repeated ones, any values, npz and json form",
 "The existing dump test uses one fixed set of names; name collisions and histories are open.",
 ["utils/BestDump.py","communication/AllInOneCommunication.py"],[("dump","utils/BestDump.py:dump_controls,dump_dict"),("trigger","communication/AllInOneCommunication.py:update_controls")],(),["best_controls file"])

p("C24","File exchange never uses a stale figure of merit and survives a silent partner",
 "In the file-based exchange each evaluation removes any earlier figure-of-merit file before it publishes the new controls, and returns the value the partner writes after it has read the published controls; when no answer comes within the configured time or the file is unreadable it reports a non-zero status, so that the optimization stops in an orderly way.",
 ["schedules","fault_sequences"],"any timing of the partner process, left-over files, missing, late or malformed answers",
 "Needs a second process with adversarial timing; no test exists.",
 ["utils/FilesUpdateFom.py"],[("exchange","utils/FilesUpdateFom.py:get_FoM")],(),["figure-of-merit dictionary returned, files in the exchange folder"])

p("C25","The Ornstein-Uhlenbeck noise follows its exact discrete recursion",
 "Each generated noise trace has as many samples as whole time steps fit into the requested duration (at least one) and follows, step by step, the discretised Ornstein-Uhlenbeck recursion with the configured relaxation, mean and strength and a fresh Gaussian increment per step.",
 ["inputs"],"any lengths, parameters and increments",
 "Random trace of arbitrary length; tests do not check it.",
 ["noiseprocesses/ornsteinuhlenbeckprocess.py"],[("recursion","noiseprocesses/ornsteinuhlenbeckprocess.py")],(),["noise trace"])

p("C26","Search requests are passed through the evaluation counter unchanged",
 "For every direct-search method the objective receives exactly the vector the search proposes and the declared extra arguments, and the search receives back exactly the value the objective returned; the counter equals the number of calls made.",
 ["histories","inputs"],"any objective, any number of calls",
 "Only indirectly exercised by tests.",
 ["gradientfreemethods/DirectSearchMethod.py"],[("wrapper","gradientfreemethods/DirectSearchMethod.py:_get_wrapper")],(),["objective calls"])

p("C27","Settings select exactly the named building block",
 "A building block (algorithm, basis, direct search, distribution) given as an attribute is used as it is, one given by module and class name is that class, and one given by its short name is the class registered under that name for that kind; an unknown selection yields no class and a message instead of silently using something else.",
 ["configurations"],"all combinations of the ways to name a building block, all registered names",
 "Tests use a few names only.",
 ["utils/dynamicimport.py"],[("lookup","utils/dynamicimport.py:dynamic_import")],(),["class used by the optimizer"])
p("C28","The automatic-differentiation search differentiates the cost it minimises",
 "In the automatic-differentiation algorithm the gradient given to the search is taken at exactly the vector the search asks about, and the differentiated function is, for every vector, the signed figure of merit of the same delivered controls (pulses, time grids and parameters) whose value the search receives for that vector, also after super-iterations have changed the base controls; asking for a gradient counts as no evaluation and sets no record.",
 ["inputs","histories"],"any vectors, in any order of value and gradient requests; any basis, limits, base pulses; both directions",
 "A gradient of a slightly different function (another sign, other limits, a stale base pulse) still converges on the examples the tests run.",
 ["optimizationalgorithms/ADAlgorithm.py","Controls.py"],[("differentiated function","optimizationalgorithms/ADAlgorithm.py:get_gradient"),("cost","optimizationalgorithms/ADAlgorithm.py:inner_routine_call,inner_run"),("delivery","Controls.py:_get_controls_jax_obj")],(),["fun and jac arguments of the minimizer, get_FoM calls"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
