"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection (seeded search over schedules/faults/histories; %s)'


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), oracle='', note=''):
    return dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
                anchors={'files': files, 'mechanism': [dict(name=a, where=b) for a, b in mech],
                         **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                         **({'observe_at': list(observe)} if observe else {})}), dict(oracle=oracle, note=note)


C = 'acados/ocp_nlp/'
T = 'interfaces/acados_template/acados_template/'
ITEMS = [
 P('P01', 'Stage-parallel execution gives the result of serial execution',
   'With the multi-threaded build, every solve, cost evaluation and residual evaluation returns the same iterates, multipliers, status, statistics and QP data as with one thread, for every number of threads and every interleaving of the threads. No two threads of one solver call ever access the same memory without ordering if one of them writes.',
   ['schedules', 'histories', 'fault_sequences'],
   'all thread counts 2..8, all preemption points at instrumented memory accesses, model-function calls and linear-algebra calls, all histories of set/solve/reset calls, model-function and QP faults',
   'the tests build without OpenMP or run one natural schedule; a race on a stage loop needs a specific interleaving of two stages and usually changes results only slightly',
   [C + 'ocp_nlp_common.c', C + 'ocp_nlp_sqp.c', C + 'ocp_nlp_sqp_with_feasible_qp.c', C + 'ocp_nlp_ddp.c', C + 'ocp_nlp_sqp_rti.c'],
   [('per-stage workspaces and memories, disjoint in OpenMP builds', 'ocp_nlp_workspace_calculate_size/ocp_nlp_cast_workspace'), ('parallel stage loops', 'ocp_nlp_approximate_qp_matrices, ocp_nlp_initialize_submodules, ocp_nlp_alias_memory_to_submodules')],
   [('stage memories', 'written by exactly one stage of a parallel loop', 'nlp_mem->dynamics/cost/constraints[i]')],
   ['get/get_flat/get_stats/get_from_qp_in of the Python interface'],
   'same plan executed with 1 thread and with k simulated threads under a seeded scheduler, compared bitwise; vector-clock race detector over all instrumented accesses and BLASFEO operand ranges'),
 P('P02', 'A batch solver treats every instance as if it were solved alone',
   'Every call of a batch OCP solver or batch integrator leaves each instance exactly as if a separate solver had received that instance\'s data and calls one after another: same iterates, statistics, statuses, sensitivities and parameters, for every number of threads, every interleaving and every batch size. An instance that fails or is not part of the call never changes another one; instances added later start like new solvers; sizes that were never initialised are rejected.',
   ['schedules', 'histories', 'fault_sequences'],
   'batch sizes 1..5 growing and shrinking, 1..8 threads, all preemption points at instrumented accesses, mixtures of batch calls and calls on single members, model-function and QP faults tied to the content of one instance',
   'races between instances and cross-talk through shared memory or status arrays need particular interleavings, sizes and failing members; tests run one nominal batch',
   [T + 'acados_ocp_batch_solver.py', T + 'acados_sim_batch_solver.py', T + 'c_templates_tera/acados_solver.in.c', T + 'c_templates_tera/acados_sim_solver.in.c'],
   [('parallel loops over instances', 'acados_batch_solve, acados_batch_set, acados_batch_get, ... in acados_solver.in.c'), ('batch size and status bookkeeping', 'AcadosOcpBatchSolver._create_missing_solvers, solve')],
   [('n_batch_current', 'default size, set by the last call', 'AcadosOcpBatchSolver'), ('status', 'status of the last batch call', 'AcadosOcpBatchSolver')],
   ['all getters of the batch solver and of its members'],
   'reference model: separate solvers called serially with the same data; bitwise comparison of every member after every call plus the race detector'),
 P('P03', 'A time limit ends a solve where its rule says, in elapsed time, honestly',
   'With a time limit, a solve stops with the timeout status at the first iteration at which the elapsed time plus the estimate of the configured heuristic reaches the limit, and never otherwise. A solve that stops this way has exactly the iterate and statistics of an execution truncated at that iteration. Steps of the system time do not influence it.',
   ['histories', 'fault_sequences', 'inputs'],
   'all five heuristics, all limits, SQP, feasible-QP SQP and DDP solvers; slow or stalled model functions and QP solves, system time steps, model-function and QP failures, several solves in a row',
   'tests cannot choose how long an iteration takes, nor step the clock in the middle of a solve',
   [C + 'ocp_nlp_sqp.c', C + 'ocp_nlp_sqp_with_feasible_qp.c', C + 'ocp_nlp_ddp.c', 'acados/utils/timing.c'],
   [('timeout check and heuristics', 'timeout_max_time, timeout_heuristic in the main loops'), ('clock', 'acados_tic/acados_toc')],
   [('timeout_estimated_per_iteration_time', 'estimate kept over iterations and, for MAX_OVERALL, over solves', 'solver memories')], ['solve/get_stats/get/get_residuals'],
   'reference: the same program on the simulated clock, without limit and truncated at every iteration, gives the elapsed time and iterate at every check; an executable model of the heuristics predicts the end'),
 P('P04', 'A success status is only returned at a point that solves the problem',
   'If an OCP solve of an SQP-type or DDP solver returns success, then the iterate is finite and satisfies stationarity, dynamics, constraint and complementarity conditions of the current problem data to the tolerances in force, and the reported residuals and cost are those of that iterate. Every other returned status names what happened: maximum iterations only after that many iterations, NaN only if something non-finite occurred, QP failure only if the QP solver failed, and a solve repeated at a converged point without changes returns immediately.',
   ['histories', 'inputs', 'fault_sequences'],
   'all solver types, costs, constraints, integrators in the model zoo; histories of data changes, option changes and solves; NaN/Inf/status faults of model functions, QP solver failures and early stops at arbitrary calls, clock jumps',
   'the tests check a handful of nominal problems without independent residuals and never make a model function or the QP solver fail at a chosen call',
   [C + 'ocp_nlp_sqp.c', C + 'ocp_nlp_ddp.c', C + 'ocp_nlp_sqp_with_feasible_qp.c', C + 'ocp_nlp_common.c', C + 'ocp_nlp_globalization_*.c', C + 'ocp_nlp_cost_*.c', C + 'ocp_nlp_constraints_*.c'],
   [('termination checks', 'check_termination in each solver'), ('residual computation', 'ocp_nlp_res_compute'), ('NaN detection', 'ocp_nlp_sqp: isnan checks of residuals, QP status handling')],
   (), ['solve/get_status/get_residuals/get_stats/get_cost/get'],
   'independent KKT oracle written against the problem description (CasADi + numpy), evaluated on the returned iterate after every solve of a random history under faults'),
 P('P05', 'After a reset a solver behaves exactly like a newly created one',
   'After any history of inputs, options, solves, failures and non-finite iterates, a reset solver has the documented initial iterate and from then on returns exactly what a newly created solver with the same problem data returns. With the flags for numerical values and options, the data and options too are those of a new solver.',
   ['histories', 'fault_sequences'],
   'all zoo problems; histories of up to four solves with NaN/Inf iterates, model-function and QP faults at arbitrary calls, phases of RTI calls; all combinations of reset flags',
   'leaked state only shows after particular histories (failed QP, aborted line search, NaN in an integrator); tests create a fresh solver per scenario',
   [T + 'c_templates_tera/acados_solver.in.c', 'interfaces/acados_c/ocp_nlp_interface.c', C + 'ocp_nlp_common.c', 'acados/sim/*.c', 'acados/ocp_qp/ocp_qp_xcond_solver.c'],
   [('reset function', 'acados_solver.in.c: {{name}}_acados_reset'), ('integrator memory reset', 'sim_*_memory_set_to_zero'), ('QP memory reset', 'ocp_qp_xcond_solver_memory_reset')],
   (), ['reset() and all getters of the Python interface'],
   'executable reference: a second, freshly created instance given the same data; every observable of the following program compared bitwise'),
 P('P06', 'The last value set is the value used and reported; reading changes nothing',
   'After every operation each problem-data field, parameter and iterate entry of an OCP solver has the value last set by the caller (or by a solve or reset, or else the description\'s default), at exactly the stages addressed. All getters agree with one another, hand out data that belong to the caller, and no query changes any datum or any later result.',
   ['histories', 'inputs', 'fault_sequences'],
   'random programs of dense, sparse, flat and strided setters for bounds, cost, parameters, global parameters, iterates at all stages, resets and solver calls under model-function and QP faults, with arbitrary queries in between',
   'a setter that writes a neighbouring stage or an aliased array, or a getter that clobbers solver memory, only shows after particular combinations of stages, fields and calls',
   [T + 'acados_ocp_solver.py', 'interfaces/acados_c/ocp_nlp_interface.c', C + 'ocp_nlp_cost_*.c', C + 'ocp_nlp_constraints_bgh.c', C + 'ocp_nlp_constraints_bgp.c', T + 'c_templates_tera/acados_solver.in.c', T + 'c_templates_tera/acados_multi_solver.in.c'],
   [('setters and getters', 'AcadosOcpSolver.set/get/cost_set/constraints_set/set_params_sparse/set_flat/get_flat'), ('model set/get', 'ocp_nlp_cost_*_model_set/get, ocp_nlp_constraints_*_model_set/get'), ('default values', '*_acados_setup_nlp_in/_create_set_default_parameters')],
   (), ['get/get_flat/cost_get/constraints_get/get_from_qp_in/store_iterate_to_obj/get_stats'],
   'reference model of all data fields and iterates, compared bitwise after every operation; cost and recomputed residuals must be those of the data and iterate set (independent KKT oracle); a twin solver runs the same program without any query'),
 P('P07', 'Saved iterates and QPs load back exactly; failed saves destroy nothing',
   'store_iterate, load_iterate, dump_last_qp_to_json and the iterate and QP objects round-trip the complete state exactly (values, structure and non-finite numbers), so that a solver continued from a loaded file behaves like the one that saved it. Saving never changes the solver, never replaces an existing file unless overwriting was requested, and a save or load that fails (open or write errors, full disk, truncated or unreadable file) raises and leaves the solver state unchanged.',
   ['inputs', 'fault_sequences', 'histories'],
   'solvers of all types; histories of data changes, solves, saves with chosen, default and colliding file names under clock steps, loads, dumps and rebuilds, with failing opens, file-size limits and truncated files',
   'lost digits, missing fields, silent overwriting or half-loaded state surface only for particular dimensions, clock values and I/O faults, and the file looks right',
   [T + 'acados_ocp_solver.py', T + 'acados_ocp_iterate.py', T + 'acados_ocp_qp.py', 'interfaces/acados_c/ocp_nlp_interface.c', 'interfaces/acados_matlab_octave/ocp_dump_qp.c'],
   [('iterate files', 'store_iterate, load_iterate'), ('QP files', 'dump_last_qp_to_json (Python and C backends), AcadosOcpQp'), ('objects', 'AcadosOcpIterate, AcadosOcpFlattenedIterate, store_iterate_to_obj, load_iterate_from_obj')],
   [('file', 'JSON files of iterates and QPs', T + 'acados_ocp_solver.py')], ['store_iterate, load_iterate, dump_last_qp_to_json, store_iterate_to_obj, AcadosOcpQp.from_json'],
   'twin execution without persistence operations and a twin restored from the file, compared bit by bit; contents of all files before and after each faulty operation'),
 P('P08', 'RTI phases compose to the full step and advanced-step levels keep their meaning',
   'Preparation followed by feedback gives the same iterate and status as the undivided real-time iteration, which is one full SQP step, whatever initial state is set in between. Advanced-step preparations of level A, B, C and D produce what their definition says (advanced initial state, QP data re-used or updated, optimality of the reduced problem in the limit), and on linear-quadratic problems every feedback is optimal. Each phase reports success if and only if none of its QP solves failed, and a failed step leaves the iterate as it was.',
   ['histories', 'fault_sequences', 'inputs'],
   'closed loops of 2-5 steps on RTI problems with all levels, iteration counts, condensing kinds, regularization; changes of data and iterate between the phases; QP failures and NaN/Inf model evaluations placed in the preparation or in the feedback phase',
   'the relation between phases involves two calls with changes in between and a reference step computed another way; tests run each variant once and look at plots or the final cost',
   [C + 'ocp_nlp_sqp_rti.c', C + 'ocp_nlp_common.c', 'acados/ocp_qp/ocp_qp_xcond_solver.c', 'acados/ocp_qp/ocp_qp_partial_condensing.c', 'acados/ocp_qp/ocp_qp_full_condensing.c'],
   [('phases', 'ocp_nlp_sqp_rti_preparation_step/feedback_step'), ('advanced-step preparation', 'ocp_nlp_sqp_rti_preparation_advanced_step, ocp_nlp_zero_order_qp_update, ocp_nlp_level_c_update'), ('split condensing', 'condense_lhs, condense_rhs_and_solve')],
   [('qp_in', 'linearization of the last preparation', 'ocp_nlp_memory'), ('tmp_nlp_out', 'linearization point of level A', 'ocp_nlp_workspace')],
   ['solve with rti_phase 0/1/2, get/get_stats/get_from_qp_in'],
   'twin instances: the step composed in another way (undivided RTI, one SQP iteration, standard RTI iterations fed with the advanced state), stationarity of the stored quadratic model, independent KKT oracle for fixed points and linear-quadratic problems'),
 P('P09', 'Solver instances are independent, and calls leave the process as it was',
   'Every call on a solver or integrator has the same effect whatever other instances of the same or another problem were created, used, destroyed or are running in other threads of the process. Calls return with the OpenMP thread count of the caller, the floating-point environment, the working directory and the environment variables as they were.',
   ['schedules', 'histories', 'fault_sequences'],
   'two to four instances (OCP solvers and integrators, same or different problems) in random interleavings of calls, some calls executed at the same time by application threads, with creations and destructions in other threads, model-function and QP faults tied to the arguments',
   'hidden static or shared state needs two live instances with a particular interleaving of calls; tests use one solver after another and never compare with a run in isolation',
   ['acados/**/*.c', 'interfaces/acados_c/*.c', T + 'c_templates_tera/acados_solver.in.c', T + 'c_templates_tera/acados_sim_solver.in.c'],
   [('all state in the memory of the instance', '*_config/_dims/_opts/_memory/_workspace'), ('thread count saved and restored', 'omp_get_max_threads/omp_set_num_threads in ocp_nlp_sqp.c, ocp_nlp_sqp_rti.c, ocp_nlp_ddp.c, ...')],
   (), ['all getters of the Python interface; omp_get_max_threads, fegetenv, getcwd, environ'],
   'every instance executed alone from creation to destruction, then all of them interleaved under the seeded thread scheduler; bitwise comparison after every call group, race detector, process state before and after'),
 P('P10', 'Memory: exact return at destruction, no allocation or overrun in calls',
   'Destroying an OCP solver, integrator or batch solver returns every heap block that was allocated for it, exactly once, whatever it did before (including failed solves, recreation with other time steps or condensing, growth of a batch). Setters, getters, solver calls and sensitivity evaluations neither allocate nor free heap memory, and no call ever writes outside allocated memory.',
   ['histories', 'fault_sequences', 'schedules'],
   'up to three objects of the zoo living at once, created, used and destroyed in random order with setters, queries, solves, RTI phases, resets, recreations, dumps, under model-function and QP faults and simulated threads',
   'leaks and overruns do not change results and appear only for particular option combinations and call orders; tests run each solver once and exit',
   ['interfaces/acados_c/ocp_nlp_interface.c', 'interfaces/acados_c/sim_interface.c', C + '*.c', 'acados/sim/*.c', 'acados/utils/external_function_generic.c', T + 'c_templates_tera/acados_solver.in.c', T + 'c_templates_tera/acados_sim_solver.in.c', T + 'c_templates_tera/acados_multi_solver.in.c'],
   [('size computation and assignment of one memory block per module', '*_calculate_size / *_assign'), ('creation, recreation, destruction', '*_acados_create, _acados_create_with_discretization, _acados_update_qp_solver_cond_N, _acados_free'), ('statistics rows', 'stat_m/stat_n of the NLP solvers')],
   (), ['accounted heap (malloc/calloc/realloc/free of library and generated code), red zones, quarantined freed blocks'],
   'heap accounting model: blocks owned by each object, zero allocation inside calls, red-zone and quarantine audit after every operation'),
 P('P11', 'Integrator calls return the Runge-Kutta map and its derivatives',
   'Every call of an integrator returns the state, algebraic variables and forward, adjoint and second-order sensitivities of the configured Runge-Kutta scheme for the current inputs, parameters, seeds and step length, up to the configured Newton accuracy. This holds whatever calls, failures, non-finite inputs or option changes came before.',
   ['histories', 'inputs', 'fault_sequences'],
   'ERK, IRK (Gauss-Legendre, Radau), DAE, GNSF integrators of the zoo with all sensitivity options; histories of calls with random inputs, guesses, seeds, step lengths and faults of model functions',
   'stale Jacobians, sensitivities or guesses show only after particular option changes or failed calls; the tests compare nominal calls with finite differences',
   ['acados/sim/sim_erk_integrator.c', 'acados/sim/sim_irk_integrator.c', 'acados/sim/sim_gnsf.c', 'acados/sim/sim_collocation_utils.c', T + 'acados_sim_solver.py', T + 'c_templates_tera/acados_sim_solver.in.c'],
   [('Newton iterations and Jacobian reuse', 'sim_irk, sim_gnsf'), ('sensitivity propagation', 'sim_erk, sim_irk, sim_gnsf')],
   [('xdot, z', 'Newton guess kept between calls', 'sim_irk_memory, sim_gnsf_memory')], ['AcadosSimSolver.solve/get/simulate'],
   'independent Runge-Kutta/collocation integrators and their derivatives built with CasADi from tableau definitions'),
 P('P12', 'A created solver runs the code of its own formulation',
   'Whenever an OCP solver or integrator is created with the reuse check on (the default), the library that is loaded was built from exactly the code that its formulation generates in an empty directory. This holds whatever was generated or built before in the same export directory under the same name, and whichever of those processes died or ran into a full disk or a failing compiler at whatever point. Without a fault in the current process, creation succeeds and reuses code that is complete and unchanged.',
   ['crash_points', 'fault_sequences', 'histories', 'inputs'],
   'histories of up to 7 process lifetimes (constructor with all generate/build flags, static generate and build) over some 100 formulations that differ pairwise in one respect (dynamics, data, options, dimensions, single and multi-phase, integrators); crash before, within or after every file write, removal, rendering, function export and command of make; full disk; failing compiler; clock jumps between lifetimes',
   'a stale library looks like a working solver; it takes an interrupted or failed run at the wrong point, or a clock that goes back, and the tests always generate into a clean state and never stop a run midway',
   [T + 'acados_ocp_solver.py', T + 'acados_sim_solver.py', T + 'acados_ocp.py', T + 'acados_sim.py', T + 'acados_multiphase_ocp.py', T + 'utils.py', T + 'casadi_function_generation.py', T + 'c_templates_tera/Makefile.in', T + 'c_templates_tera/multi_Makefile.in'],
   [('code reuse check', 'AcadosOcpSolver.is_code_reuse_possible, AcadosSimSolver.is_code_reuse_possible, hash_class_instance, compare_ocp_formulations'), ('generation and build', 'AcadosOcpSolver.generate/build, AcadosSimSolver.generate/build')],
   [('json file', 'description and hash of the generated code', 'code_gen_options.json_file'), ('shared library', 'code that is executed', 'code_export_directory')], ['constructor of AcadosOcpSolver and AcadosSimSolver (library that is loaded, exceptions)'],
   'model of a library as the digest of every file its compilation read; reference: the library a fresh directory yields for the same formulation; real Python interface, templates, CasADi export and GNU make'),
 P('P13', 'Reported computation times are the time that passed in the call',
   'After every OCP solver or integrator call, also one that fails or stops early, the reported total, preparation and feedback times equal the time that elapsed in that call; the QP solver time and the integrator model-evaluation time equal what was spent there. Every other part is nonnegative, belongs to the last call only and disjoint parts do not exceed the total. Steps of the system time do not influence them.',
   ['histories', 'fault_sequences'],
   'all zoo OCPs (including all RTI phases and levels) and integrators; random histories with slow model functions and QP solves, failures that end calls early, system time steps forwards and backwards',
   'tests cannot know how much time really passed; time leaked from an earlier call or lost on an early return stays invisible',
   [C + 'ocp_nlp_sqp.c', C + 'ocp_nlp_sqp_rti.c', C + 'ocp_nlp_ddp.c', C + 'ocp_nlp_sqp_with_feasible_qp.c', C + 'ocp_nlp_common.c', 'acados/sim/*.c', 'acados/utils/timing.c'],
   [('nlp_timings', 'ocp_nlp_timings_reset, ocp_nlp_timings_get'), ('sim_info', 'sim_*_integrator.c')],
   (), ['get_stats(time_*) and AcadosSimSolver.get(time_*)'],
   'simulated clock whose every advance is known to the simulator (cost per function evaluation, QP solve, stall), compared exactly'),
 P('P14', 'Values in the description act like the same values set at run time',
   'A solver generated from a description with other bounds, matrices, references, weights, slack penalties, parameters, cost scaling and options reports these values and behaves exactly like a solver of the same structure that was given them at run time. It does not matter what the second solver did before it was reset, and after a reset of numerical values or options each solver has the values of its own description again.',
   ['configurations', 'histories', 'fault_sequences'],
   'pairs of descriptions that differ in all numerical values and settable options, for solvers of all types, cost and constraint modules, multi-phase problems; random histories, resets, data and option changes; model-function and QP faults at the same calls of both solvers',
   'the templates write every value in separate lines per stage class; a swapped index, a condition that drops a value or an option stored under another name matters only for values and histories no test uses',
   [T + 'c_templates_tera/acados_solver.in.c', T + 'c_templates_tera/acados_multi_solver.in.c', T + 'acados_ocp.py', T + 'acados_multiphase_ocp.py', T + 'acados_ocp_solver.py', 'interfaces/acados_c/ocp_nlp_interface.c'],
   [('generated values', '*_acados_create_setup_nlp_in_numerical_values'), ('generated options', '*_acados_create_set_opts'), ('run-time setters', 'constraints_set, cost_set, set, options_set')],
   [('nlp_in', 'problem data', 'ocp_nlp_in'), ('nlp_opts', 'options', 'ocp_nlp_opts')], ['all getters of the Python interface'],
   'twin: a separately generated solver; every observable of the same program compared bitwise, and its data compared with the Python description'),
 P('P15', 'Failures leave no hidden damage: the solver converges again once faults stop',
   'After any history of failed or faulty calls (non-finite model values, failing QPs, iteration limits, invalid guesses) the next calls, from a finite iterate and without reset, converge whenever a newly created solver with the same data, options and iterate converges, within a bounded number of further iterations (hot starting the first QP of a call, an explicit request to trust the previous QP solution, excluded). The solution reached is a KKT point of the same quality.',
   ['fault_sequences', 'histories', 'configurations'],
   'solvers of all types, globalizations, warm-start settings and RTI levels; histories of data, option and iterate changes with model-function and QP-solver faults at arbitrary calls; then a fault-free tail',
   'a poisoned internal variable (QP warm start, integrator guess, saved linearization, status) makes every later call fail and appears only after a failure at a particular place, which no test provokes',
   ['acados/ocp_nlp/*.c', 'acados/sim/*.c', 'acados/ocp_qp/*.c'],
   [('QP failure handling', 'last_qp_failed, warm_start_first_qp of SQP, SQP_RTI, DDP, SQP_WITH_FEASIBLE_QP'), ('integrator guesses', 'xdot_guess/z_guess, lifted IRK')],
   [('hot start', 'QP solver memory of the previous call', 'ocp_qp_hpipm_memory'), ('guess', 'integrator guesses', 'sim_*_memory')], ['AcadosOcpSolver.solve/get/get_stats'],
   'liveness: progress within a bounded number of calls after the faults stop, judged against a new solver from the same state and the KKT oracle'),
 P('P16', 'Solution sensitivities are the derivatives of the solution map',
   'At a solution, forward and adjoint solution sensitivities with respect to the initial state and to global parameters are the derivatives of primal variables, slacks and multipliers, the value gradient and Hessian those of the optimal value. This holds after any history of data changes, failed calls and other sensitivity evaluations, for every choice and order of stages, seeds and fields. Evaluations are repeatable, leave the iterate as it is and do not influence later solves.',
   ['histories', 'fault_sequences', 'inputs'],
   'SQP and SQP_RTI solvers with exact Hessian, parametric dynamics, costs and nonlinear (terminal) constraints, slacks, active and inactive inequalities; random histories of data, p_global, guess and option changes, faulty solves, resets; random interleavings of forward, adjoint, value-gradient and value-Hessian evaluations; stage-parallel execution',
   'the tests compare single fields on few problems, without active constraints, slacks or terminal constraints, and right after the first solve; wrong terms for other fields, stages, orders and histories give plausible numbers',
   ['acados/ocp_nlp/ocp_nlp_common.c', 'acados/ocp_nlp/ocp_nlp_sqp.c', 'acados/ocp_nlp/ocp_nlp_sqp_rti.c', 'acados/ocp_nlp/ocp_nlp_constraints_bgh.c', 'acados/ocp_nlp/ocp_nlp_cost_external.c', 'acados/ocp_nlp/ocp_nlp_dynamics_disc.c', 'interfaces/acados_c/ocp_nlp_interface.c', T + 'acados_ocp_solver.py'],
   [('right-hand sides', 'ocp_nlp_params_jac_compute, ocp_nlp_common_eval_param_sens, ocp_nlp_common_eval_solution_sens_adj_p'), ('value derivatives', 'ocp_nlp_common_eval_lagr_grad_p, eval_and_get_optimal_value_hessian'), ('factorization', 'setup_qp_matrices_and_factorize')],
   [('jac_lag_stat_p_global, jac_ineq_p_global, jac_dyn_p_global', 'parametric Jacobians', 'ocp_nlp_memory'), ('factorization', 'of the last QP', 'QP solver memory')], ['eval_solution_sensitivity, eval_adjoint_solution_sensitivity, eval_and_get_optimal_value_gradient, eval_and_get_optimal_value_hessian'],
   'implicit function theorem on the independent CasADi model at the same iterate (compared where the linear system is well conditioned and no constraint is weakly active), and a twin solver that makes the same calls without the evaluations',
   note='The linear solves with the factorized QP run in the HPIPM adapter (dense factorization), because the HPIPM of this sandbox predates the sensitivity interface; HPIPM is not part of the tree.'),
 P('P17', 'Stored iterates and statistics rows are those of the actual iterations',
   'The iterates stored by store_iterates, the logged step and multiplier norms and every row of the statistics table describe the iterations of the last call in order: stored iterate k is the iterate reached after k iterations, residual columns are its residuals, QP columns are the status and iterations of the QP solved there. This also holds for calls that stop early or fail, and no row contains values of earlier calls.',
   ['histories', 'fault_sequences', 'configurations'],
   'solvers of all types with logging options; histories of data, guess and option changes and solves that converge, stop at a limit or fail through model-function or QP-solver faults',
   'rows left from earlier calls or shifted by one appear only after particular histories and exits and look like plausible numbers',
   ['acados/ocp_nlp/ocp_nlp_sqp.c', 'acados/ocp_nlp/ocp_nlp_ddp.c', 'acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c', 'acados/ocp_nlp/ocp_nlp_sqp_rti.c', 'acados/ocp_nlp/ocp_nlp_common.c', T + 'acados_ocp_solver.py'],
   [('statistics', 'mem->stat of every NLP solver'), ('stored iterates', 'nlp_mem->iterates, store_iterates'), ('logging', 'print_and_save/log of the NLP solvers')],
   (), ['get_stats, get_iterate(k), get_iterates'],
   'log of the QP calls kept by the simulator, KKT oracle at stored iterates, and executions of the same call truncated after k iterations'),
 P('P18', 'Changing time grid or condensing horizon equals generating it that way',
   'A solver whose time steps, horizon length or condensing horizon were changed after arbitrary use behaves exactly like a solver generated with that grid, given the same data and options. Changes that keep the number of nodes keep data and iterate, recreation with another number of nodes starts like a new solver, and rejected changes (wrong number of steps, condensing horizon out of range) leave the solver as it was.',
   ['histories', 'fault_sequences', 'configurations'],
   'solvers of all types with ERK, IRK, GNSF, discrete dynamics and per-stage integrator options; histories of solves, data and option changes, time-step changes with the same or another number of nodes, condensing changes, resets, wrong arguments, model-function and QP faults',
   'stale step sizes, scalings, condensing blocks or options show only for particular orders of changes and resets and only as slightly different numbers or later memory errors; the tests change the grid once on one problem',
   [T + 'acados_ocp_solver.py', T + 'c_templates_tera/acados_solver.in.c', 'interfaces/acados_c/ocp_nlp_interface.c', 'acados/sim/*.c', 'acados/ocp_qp/ocp_qp_partial_condensing.c'],
   [('recreation', '*_acados_create_with_discretization, *_acados_update_time_steps'), ('condensing horizon', '*_acados_update_qp_solver_cond_N'), ('Python bookkeeping', 'AcadosOcpSolver.set_new_time_steps, update_qp_solver_cond_N, reset')],
   [('T', 'step size of the integrator of a stage', 'sim_in'), ('scaling', 'cost weight of a stage', 'ocp_nlp_cost_*_model')], ['set_new_time_steps, update_qp_solver_cond_N, reset and all getters'],
   'twin: a separately generated solver of the final grid, given the data the reference model holds; every observable of the following program compared bitwise'),
 P('P19', 'Results depend on inputs only, not on memory contents, addresses or time',
   'Two executions of the same program of solver or integrator calls return bitwise the same results although heap contents, addresses, dead stack contents, speed and wall-clock time differ. Without a configured time limit, no clock value, step or jump influences any result.',
   ['configurations', 'histories', 'fault_sequences'],
   'all zoo OCPs and integrators; random programs with model-function and QP faults; random heap contents and shifts, overwritten dead stack, clock start, rate, jumps backwards and forwards',
   'reading uninitialised memory usually finds zeros in tests, and a dependence on time needs a clock step at the right moment',
   ['acados/**/*.c', 'interfaces/acados_c/*.c', T + 'c_templates_tera/acados_solver.in.c'],
   [('memory assignment and casts', '*_calculate_size/*_assign of every module'), ('time stamps', 'acados/utils/timing.c')],
   (), ['all getters of the Python interface except time stamps'],
   'the same plan executed twice in one process, on a clean and on a perturbed environment, compared bitwise'),
 P('P20', 'Globalized solvers accept only steps that their acceptance rule admits',
   'Every step taken with MERIT_BACKTRACKING or FUNNEL_L1PEN_LINESEARCH globalization is the first of the trial step sizes 1, alpha_reduction, alpha_reduction^2, ... that fulfils the documented rule with the configured options: decrease of the l1 merit function with the Leineweber weights (sufficient decrease if requested) down to alpha_min, or the funnel conditions with their width and penalty updates. Points at which the cost or a constraint is not finite are never accepted; DDP iterates fulfil the dynamics and never increase the cost.',
   ['inputs', 'histories', 'fault_sequences', 'configurations'],
   'SQP, SQP_WITH_FEASIBLE_QP and DDP solvers with hard, soft, two-sided and partially undefined constraints; histories of data, guess and option changes and solves with failing model functions and inexact, early terminated QP solutions',
   'the rule depends on the whole history of multipliers, penalty and funnel width; a wrong sign, stale weight or ignored option still converges on the sampled problems',
   ['acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c', 'acados/ocp_nlp/ocp_nlp_globalization_funnel.c', 'acados/ocp_nlp/ocp_nlp_globalization_common.c', 'acados/ocp_nlp/ocp_nlp_common.c', 'acados/ocp_nlp/ocp_nlp_ddp.c', T + 'c_templates_tera/acados_solver.in.c'],
   [('merit function', 'ocp_nlp_evaluate_merit_fun, ocp_nlp_compute_merit_gradient, merit_backtracking_update_weights'), ('line search', 'ocp_nlp_line_search, ocp_nlp_soc_line_search, ocp_nlp_ddp_backtracking_line_search'), ('funnel', 'is_trial_iterate_acceptable_to_funnel, update_funnel_penalty_parameter, decrease_funnel')],
   [('weights', 'weight_merit_fun', 'nlp_work'), ('funnel', 'funnel_width, penalty_parameter, funnel_penalty_mode', 'ocp_nlp_globalization_funnel_memory')], ['get_iterates, get_stats(alpha column, nlp_iter), get_status'],
   'executable reference model of the acceptance rules on the independent CasADi model, stepped along the stored iterates (a set of states where a decision is within rounding)'),
]

NA = [
 (P('N01', 'Generated derivatives equal the derivatives of the model functions',
   'Jacobians, Hessians and adjoints generated for a model equal the mathematical derivatives of the model expressions.', ['inputs'], 'all model expressions', 'tests sample a few models',
   [T + 'casadi_function_generation.py'], [('generation through CasADi AD', 'casadi_function_generation.py')])[0],
  'pure function of the model expression computed by CasADi: no schedule, time, I/O, fault or multi-party behaviour for a simulator to decide'),
 (P('N02', 'The QP solvers return solutions of the QPs they are given',
   'For every well-posed QP the selected QP solver returns a point satisfying its KKT conditions to its tolerance.', ['inputs'], 'all QPs', 'tests sample a few QPs',
   ['acados/ocp_qp/ocp_qp_hpipm.c', 'acados/dense_qp/dense_qp_hpipm.c'], [('external solvers', 'external/')])[0],
  'numerics of external submodules (HPIPM, qpOASES, DAQP, OSQP, ...) that are not part of this tree and, except for HPIPM inside CasADi, not installed here; pure numeric functions'),
 (P('N03', 'The MATLAB, Octave, Simulink and ROS 2 interfaces mirror the Python interface',
   'A problem formulated through MATLAB, Octave, Simulink blocks or the ROS 2 package generator gives the same solver as through Python.', ['inputs', 'configurations'], 'all problems', 'tests of these interfaces need the respective tools',
   ['interfaces/acados_matlab_octave', T + 'ros2', T + 'simulink_opts.py'], [('MATLAB classes', 'interfaces/acados_matlab_octave')])[0],
  'none of MATLAB, Octave, Simulink, ROS 2 is installed or installable offline, so no execution of that code can be simulated'),
 (P('N04', 'Inconsistent problem descriptions are rejected before code generation',
   'A description with inconsistent dimensions or options is rejected with an error instead of producing a solver.', ['inputs', 'configurations'], 'all descriptions', 'tests sample a few invalid descriptions',
   [T + 'acados_ocp.py', T + 'acados_ocp_options.py'], [('make_consistent', 'acados_ocp.py')])[0],
  'pure function of the description: input validation without concurrency, time, I/O or history'),
]


def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(V, 'props')) if f.startswith('p')}
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, _ in ITEMS:
            assert p['id'] in built and len(p['title']) <= 80, p['id']
            assert p['statement'].count('. ') <= 2, p['id']
            f.write(json.dumps(p) + '\n')
        for p, _ in NA:
            f.write(json.dumps(p) + '\n')
    man = {'version': 1,
           'setup_cmd': './run.sh setup',
           'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: all seams are placed at link time (ld --wrap, symbol interposition) and by compiler instrumentation of the unmodified sources in /repo', 'source_commits': []},
           'checks': [{'property': p['id'], 'quick_cmd': f'./run.sh {p["id"]} quick', 'thorough_cmd': f'./run.sh {p["id"]} thorough', 'evidence_file': f'evidence/{p["id"]}.json',
                       'technique': TECH % x['oracle'], 'level': 'exploration',
                       'level_note': x['note'] or 'seeded search over plans (history, schedule, faults) executed on the real code in one simulated process; no exhaustiveness is claimed; every violation is confirmed by replay in a fresh process and minimised'} for p, x in ITEMS],
           'not_applicable': [{'property': p['id'], 'reason': r} for p, r in NA],
           'notes': 'see DESIGN.md; known findings and repaired defects: known_findings.json'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
