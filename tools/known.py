"""writes known_findings.json (never called by a check)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []


def fixed(prop, commit, what):
    F.append({'id': f'F{len(F) + 1:02d}', 'property': prop, 'status': 'fixed', 'entry': f'fixed: property={prop} {commit} {what}', 'what': what})


def known(prop, sig, msg, what):
    F.append({'id': f'F{len(F) + 1:02d}', 'property': prop, 'status': 'known', 'sig': sig, 'msg': msg, 'what': what})


fixed('P01', 'acc2f6f', 'SQP_WITH_FEASIBLE_QP: variable shared between the threads of two stage loops (data race)')
fixed('P01', 'ccb033d', 'qp_in->d_mask written by every thread of the stage loop that aliases memory (data race)')
fixed('P04', 'e9962db', 'DDP returned success although the initial state constraint was violated')
fixed('P04', 'ceaf392', 'DDP damped the multipliers with those of the previous trial iterate instead of the current iterate')
fixed('P05', '318b4b8', 'lifted IRK: expansion of the stage variables used sensitivities of the time before the reset')
fixed('P05', '0cc2ba2', 'DDP used the feedback gain of stage 0, which is not computed if the initial state is eliminated')
fixed('P20', 'c25ab2f', 'DDP with FIXED_STEP dropped the feedback term of the forward sweep')
fixed('P10', '3c7f194', 'SQP_RTI wrote statistics beyond the allocated rows if feedback is called repeatedly (heap overflow)')
fixed('P05', '1a9b863', 'statistics table contained values of previous solver calls')
fixed('P04', 'f6210b1', 'DDP checked convergence with residuals of an earlier iterate when the maximum number of iterations is reached')
fixed('P02', '6c5fd90', 'batch solve overwrote the status of members that did not take part in the call')
fixed('P02', '77fa326', 'members added to a batch later lost the save_p_global setting')

fixed('P11', '5560d7f', 'ERK Hessian propagation without forward sensitivities wrote beyond the adjoint trajectory and returned a wrong adjoint')
fixed('P11', '004fe95', 'implicit integrators started Newton from a non-finite guess left by a failed call, so that every later call failed as well')
fixed('P11', 'b7455c0', 'option sim_method_jac_reuse of AcadosSim was ignored')
fixed('P06', '4108919', 'multi-phase problems: default parameters were not set at the terminal stage and leaked from one phase into the next')
fixed('P06', '924b052', 'set_params_sparse read wrong memory for strided values; stored p_global values aliased the array of the caller and were stale after reset')

fixed('P10', 'f0987e8', 'generated free function leaked the arrays of sensitivity functions of nonlinear constraints')

fixed('P06', '22ee42b', 'get_cost after setting W used the factorization of the previous W')
fixed('P13', 'd42ca1f', 'computation times and the time limit (P03) used the adjustable system time instead of a monotonic clock in C99 builds')
fixed('P03', 'c188c44', 'AVERAGE timeout heuristic: the first measured iteration was averaged with zero, so the solve overran the limit')
fixed('P13', '4fa1efc', 'SQP_RTI: time_sim, time_sim_ad, time_sim_la and time_qpscaling accumulated over calls')
fixed('P13', '0c5a0df', 'IRK: evaluations of parameter Jacobians and cost functions were missing in time_ad')
fixed('P12', '79fc38e', 'solvers were created from the library of another formulation after failed or interrupted code generations and builds (hash stored before the code was complete, exit code of make ignored, outdated libraries left in place)')
fixed('P12', 'f2368a7', 'outdated objects of model functions were linked when the clock went back between two code generations')
fixed('P12', '0e7c66c', 'GNSF detection: random self check failed spuriously, code generation stopped in a breakpoint')
fixed('P01', '4359784', 'stage-parallel loops of the QP solution arithmetic (Anderson acceleration) shared temporaries between threads')
fixed('P08', '4a45217', 'CONVEXIFY: the feedback phase corrected the multipliers with the gradient of the preparation phase')
fixed('P05', '84c11ab', 'generated reset did not reset the QP solver and the RTI first-call state with FULL_CONDENSING_HPIPM')
fixed('P04', 'b385b5e', 'IRK: integrated nonlinear least-squares cost was wrong for non-diagonal W')
fixed('P06', 'f4f3ae7', 'get_cost of an integrated cost used the factorization of the previous W')

fixed('P08', 'e27d9d8', 'SQP_RTI: the preparation phase returned the status of a previous call')
fixed('P08', '8e8c237', 'AS-RTI level A: failure of the QP in the preparation phase was ignored')
fixed('P09', 'f110a6c', 'solver and batch calls left the OpenMP thread count of the calling thread at 1 (or at num_threads after a failed AS-RTI preparation)')
fixed('P18', '16a3d1f', 'setting the time step of a stage (option Ts, set_new_time_steps with the same N) did not reach the integrators')
fixed('P18', 'bbf1927', 'GNSF integrators ended the process after a change of the step size; the precomputation is now redone')
fixed('P18', '03be1ce', 'reset(reset_numerical_values) with a horizon other than the generated one: heap overflow, wrong time steps')
fixed('P18', '111459a', 'reset(reset_solver_options) after update_qp_solver_cond_N aborted; condensing block sizes overflowed or did not match another horizon; the formulation without condensing crashed with a longer horizon')
fixed('P18', '39f5703', 'per-stage integrator options overflowed or were uninitialised with a horizon other than the generated one')
fixed('P18', 'a07c17d', 'Python bookkeeping of time steps, horizon and condensing horizon stale or aliasing arrays of the caller')
fixed('P11', 'ebd835a', 'GNSF precomputation permuted ZZu instead of ZZx: wrong results for DAEs with pivoting')
fixed('P10', 'c74704d', 'update_qp_solver_cond_N after lowering max_iter allocated too little memory (heap overflow later)')
fixed('P05', '64197ff', 'reset did not discard pending guesses of the algebraic variables')
fixed('P18', 'c05b11c', 'scaling of the terminal cost given in the formulation was lost with new time steps')

fixed('P17', '70d7d2b', 'DDP: external QP residuals (nlp_solver_ext_qp_res) crashed')
fixed('P17', '38f314f', 'step norms of earlier solver calls were reported for iterations whose QP failed')
fixed('P15', 'a0be925', 'lifted IRK continued from non-finite values of a previous failed call, so that every later call failed as well')
fixed('P15', '16c1513', 'SQP_RTI warm started the QP from the result of a failed QP, so that every later call failed as well')
fixed('P15', '1b1d5a8', 'AS-RTI levels A, B, C reused the linearization of an iteration whose QP failed')
fixed('P15', '1227bd5', 'SQP, DDP, SQP_WITH_FEASIBLE_QP warm started the first QP from the result of a failed QP, so that every later call failed as well')
fixed('P07', '03083cd', 'dump_last_qp_to_json wrote values with lost digits, other keys than the Python backend, and crashed on unwritable files')
fixed('P07', '4032aee', 'store_iterate and dump_last_qp_to_json could overwrite existing files with overwrite=False')
fixed('P07', '24028b5', 'AcadosOcpQp could not load QPs with stages without controls')
fixed('P20', '4e20b8d', 'the option globalization_funnel_initial_penalty_parameter had no effect')
fixed('P20', '45e3cf6', 'sufficient descent condition: derivative of the merit function used wrong signs for lower bounds and wrong Jacobian entries for general constraints')
fixed('P20', '78d1630', 'penalty mode of the funnel globalization was kept from the previous call, also across a reset')
fixed('P20', '03ffc14', 'globalization_eps_sufficient_descent and globalization_funnel_fraction_switching_condition of the description were ignored with the funnel globalization')
fixed('P20', '6323423', 'trial points with NaN constraint or cost values could be accepted by the line searches')
fixed('P16', 'b1c48b3', 'generated code with parametric adjoint sensitivities and a terminal constraint did not compile')
fixed('P16', 'd4ee5f8', 'value gradient, value Hessian and slack sensitivities used twice the number of slacks')
fixed('P16', 'a6b4849', 'forward sensitivities: wrong sign of the mixed second derivative of nonlinear constraints')
fixed('P16', 'b6a3a9e', 'value gradient with respect to p_global ignored the terminal constraints')
fixed('P16', '574ad60', 'eval_solution_sensitivity returned wrong or no u and pi entries if the terminal stage is not the last requested one')
fixed('P05', '60deda7', 'reset kept the previous QP solution, the initial guess of the first QP with warm_start_first_qp')
fixed('P14', 'a7da27f', 'warm_start_first_qp of the description was ignored for multi-phase problems; reset of options (P05) did not restore warm start options and tau_min')
fixed('P05', 'd9cbf42', 'setting tau_min back to zero (also by a reset of options) had no effect on the QPs')


def main():
    with open(os.path.join(V, 'known_findings.json'), 'w') as f:
        json.dump({'findings': F}, f, indent=1)
        f.write('\n')


main()
