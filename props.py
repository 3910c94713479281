QPREAL = ['src/solvers/qp_base.hpp', 'src/solvers/admm.hpp', 'src/solvers/box_admm.hpp', 'Eigen (system)']
QPSTUB = ['linear-solver template parameter: thin wrapper around the real Eigen factorisation that counts calls and injects the seeded fault (8 of 16 configurations; the other run the default solver untouched)']
GROUPS = {
 'qp': {'src': ['checks/qp_cfg.cpp:-DPART=0', 'checks/qp_cfg.cpp:-DPART=1', 'checks/qp_cfg.cpp:-DPART=2', 'checks/qp_cfg.cpp:-DPART=3', 'checks/qp_common.cpp', 'checks/qp_scen.cpp', 'checks/ls_globals.cpp']},
 'ocp': {'src': ['checks/ocp_cfg.cpp:-DPART=%d' % k for k in range(9)] + ['checks/ocp_common.cpp', 'checks/ocp_scen.cpp', 'checks/ocp_path.cpp', 'checks/ls_globals.cpp']},
 'mpc': {'src': ['checks/mpc_cfg.cpp:-DPART=%d' % k for k in range(8)] + ['checks/mpc_common.cpp', 'checks/mpc_scen.cpp', 'checks/ls_globals.cpp']},
 's': {'src': ['checks/%s_cfg.cpp:-DPART=%d,-fsanitize-coverage=trace-pc' % (k, i) for k, v in (('mpc', (0, 1, 2, 6, 7)), ('nlp', (0, 1, 3, 5)), ('qp', (0, 1, 2, 3))) for i in v] + ['checks/' + k for k in ('qp_common.cpp', 'nlp_common.cpp', 'mpc_common.cpp', 's_qp.cpp', 's_nlp.cpp', 's_mpc.cpp', 's_sched.cpp', 's_scen.cpp', 'ls_globals.cpp')],
       'flags': ['-DSIM_THREADS'], 'ld': ['-Wl,--wrap=' + f for f in ('__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', 'pthread_mutex_lock', 'pthread_once', 'malloc', 'calloc', 'realloc', 'aligned_alloc', 'posix_memalign')]},
 'be': {'src': ['checks/be_ip.cpp', 'checks/be_qp.cpp', 'checks/ocp_common.cpp', 'checks/ls_globals.cpp'], 'flags': ['-I' + __import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), 'stubs')]},
 'nlp': {'src': ['checks/nlp_cfg.cpp:-DPART=%d' % k for k in range(6)] + ['checks/nlp_common.cpp', 'checks/nlp_scen.cpp', 'checks/nlp_parts.cpp', 'checks/ls_globals.cpp']},
}
def qp(scn, rule, n=40000, must=()):
    return {'group': 'qp', 'scn': [scn], 'rule': rule, 'quick': (n, 20), 'thorough': (n * 40, 600), 'unit': 'linear-solver back-substitutions (one ADMM iteration each)', 'real': QPREAL, 'stub': QPSTUB, 'must': list(must)}
NLPREAL = ['src/solvers/sqp_base.hpp', 'src/solvers/nlproblem.hpp', 'src/solvers/bfgs.hpp', 'src/solvers/sr1.hpp', 'src/solvers/line_search.hpp', 'src/solvers/qp_preconditioners.hpp', 'src/solvers/admm.hpp', 'src/solvers/box_admm.hpp', 'Eigen (system)']
NLPSTUB = ['user problem callbacks (seeded problem families written for the simulation; faults injected at the callback)', 'linear-solver template parameter in the spied configurations (thin wrapper around the real Eigen LDLT)']
def nlp(scn, rule, n, must=(), secs=25, unit='QP (ADMM) iterations'):
    return {'group': 'nlp', 'scn': scn if isinstance(scn, list) else [scn], 'rule': rule, 'quick': (n, secs), 'thorough': (n * 40, 600), 'unit': unit, 'real': NLPREAL, 'stub': NLPSTUB, 'must': list(must)}
OCPREAL = ['src/control/continuous_ocp.hpp', 'src/polynomials/ebyshev.hpp', 'src/polynomials/splines.hpp', 'src/autodiff/AutoDiffScalar.h', 'src/solvers/bfgs.hpp', 'Eigen (system)']
OCPSTUB = ['user problem callbacks (dynamics, running cost, terminal cost, path constraints): a seeded problem family written for the simulation; faults injected at the callback', 'the caller (optimiser) that owns the Jacobian and Hessian matrices']
def ocp(scn, rule, n, must=(), secs=20):
    return {'group': 'ocp', 'scn': [scn], 'rule': rule, 'quick': (n, secs), 'thorough': (n * 40, 600), 'unit': 'problem callback evaluations (collocation points visited)', 'real': OCPREAL, 'stub': OCPSTUB, 'must': list(must)}
MPCREAL = ['src/control/mpc_wrapper.hpp', 'src/control/continuous_ocp.hpp', 'src/polynomials/ebyshev.hpp', 'src/polynomials/splines.hpp', 'src/solvers/sqp_base.hpp', 'src/solvers/box_admm.hpp', 'src/solvers/admm.hpp', 'src/solvers/qp_preconditioners.hpp', 'src/autodiff/AutoDiffScalar.h', 'Eigen (system)']
MPCSTUB = ['plant (integrated in double precision), sensor, actuator, network and supervisor are simulated', 'user problem callbacks: four plant models written for the simulation; faults injected at the callback', 'linear-solver template parameter in six of seven configurations (thin wrapper around the real Eigen factorisation)']
def mpc(scn, rule, n, must=(), secs=25):
    return {'group': 'mpc', 'scn': [scn], 'rule': rule, 'quick': (n, secs), 'thorough': (n * 40, 600), 'unit': 'QP (ADMM) iterations', 'real': MPCREAL, 'stub': MPCSTUB, 'must': list(must)}
SREAL = sorted(set(QPREAL + NLPREAL + MPCREAL))
SSTUB = ['thread scheduler: real threads run one at a time; the seeded scheduler preempts at compiler-inserted basic-block boundaries of library and Eigen code', 'allocator: refuses requests made inside library calls when the plan says so', 'content of fresh heap, object storage and stack', 'linear-solver template parameter and user callbacks as in the QP, NLP and MPC groups']
def sg(scn, rule, n, must=(), secs=30, unit='solves'):
    return {'group': 's', 'scn': [scn], 'rule': rule, 'quick': (n, secs), 'thorough': (n * 40, 600), 'unit': unit, 'real': SREAL, 'stub': SSTUB, 'must': list(must)}
BSTUB_Q = ['OSQP (OsqpEigen) and QPMAD: simulated back ends with the life-cycle rules of the real ones (stubs/); scripted verdicts, answers and failures']
BSTUB_I = ['Ipopt: a simulated optimiser that calls the adapter in seeded orders, rejects problems and returns scripted answers (stubs/)', 'user problem callbacks: a seeded problem family, also expressed in an independent extended-precision oracle']
def be(scn, rule, n, must, secs, unit, real, stub):
    return {'group': 'be', 'scn': [scn], 'rule': rule, 'quick': (n, secs), 'thorough': (n * 40, 600), 'unit': unit, 'real': real, 'stub': stub, 'must': list(must)}
PROPS = {
 'Q01': qp('q01_honest', 'A seeded history of solve/settings/restart operations on one live QP solver, with poisoned data, poisoned warm starts, numerical faults in the back-substitution and cut budgets.', must=['solved']),
 'Q02': qp('q02_history', 'The same histories; each answer of the used object is compared with the answer of a newly constructed one.', must=['compared_after_history']),
 'Q03': qp('q03_reuse', 'Histories of value updates with the pattern-reuse setting toggled; each clean answer is compared with a newly constructed solver.', must=['compared_after_history']),
 'Q04': qp('q04_progress', 'One strictly convex feasible QP is solved in seeded budget slices with numerical faults, restarts and lost checkpoints, then drained without faults.'),
 'Q05': qp('q05_budget', 'The same histories; work counted at the linear-solver seam is compared with the reported effort and the configured budget.'),
 'Q06': qp('q06_refine', 'The same histories; iterates, verdicts, iteration and factorisation counts of each clean solve are compared with a small executable reference model of the splitting method.', 100000, must=['compared_after_history', 'compared_with_step_size_changes']),
 'N01': nlp('n01_honest', 'A seeded history of settings/solve/restart operations on one live SQP solver with faults in the callbacks, the linear solver, the guesses and the budgets; every SOLVED verdict is checked by an independent KKT oracle.', 16000, must=['solved', 'solved_after_fault', 'stationarity_checked']),
 'N02': nlp('n02_history', 'The same histories; every re-seeded clean solve of the used solver is compared with a newly constructed one.', 16000, must=['compared_after_history']),
 'N03': nlp('n03_progress', 'One convex problem solved in budget slices with faults, restarts and lost checkpoints, then drained without faults.', 60000, must=['drained']),
 'N04': nlp('n04_cycles', 'A seeded history of equilibration cycles over regular, degenerate and poisoned data.', 300000, unit='equilibration cycles'),
 'N05': nlp(['n05_live', 'n05_updates'], 'Seeded step histories through the quasi-Newton updates, directly and inside faulted SQP solves.', 24000, must=['secant_checked', 'hessian_updates'], unit='quasi-Newton updates'),
 'N06': nlp('n06_filter', 'A seeded history of trial points, queries and clears; compared with the recorded history.', 300000, must=['filter_full', 'near_entry'], unit='filter operations'),
 'O01': ocp('o01_replicas', 'One seeded history of evaluations, horizon changes, data changes, callback faults, forgotten matrices and copies applied to a dense and a sparse transcription object of the same problem; every clean evaluation is compared.', 100000, must=['compared_after_history']),
 'O02': ocp('o02_exact', 'The same histories on one object; every clean evaluation is compared with an independent extended-precision collocation oracle for the current data.', 12000, must=['compared_after_history'], secs=25),
 'O03': ocp('o03_clock', 'The same histories with a recorded clock at the callback seam; the horizon is moved and rescaled and a reference object runs on a clock starting at zero.', 80000, must=['callback_times_checked', 'unit_integrand']),
 'O04': ocp('o04_update', 'Quasi-Newton updates with seeded steps (zero step, exact model, negative curvature, zero gradient change) on Hessians whose pattern comes from a seeded evaluation history.', 40000, must=['damped']),
 'O05': dict(ocp('o05_path', 'A seeded path-following session: the parameter moves, jumps, sits exactly on knots, leaves the path at both ends or breaks (NaN/Inf); the path is replanned under way, the object is copied and the original destroyed; every value and its first and second derivatives are compared with an extended-precision oracle.', 3000000, must=['exactly_on_a_knot', 'exactly_at_the_end', 'second_derivatives']), real=['src/polynomials/splines.hpp', 'src/autodiff/AutoDiffScalar.h', 'Eigen (system)'], unit='path evaluations'),
 'M01': mpc('m01_setters', 'A seeded history of all setters, settings, solves, faulted solves, snapshots and restarts on one live controller; after every operation everything the wrapper shows is compared with a reference model of the setters, and every answer is checked against the modelled problem.', 30000, must=['set_after_solve', 'solved']),
 'M02': mpc('m02_reading', 'Seeded histories of setters, horizon changes and solves; after every operation the accessors are compared with an independent interpolation at seeded times.', 40000, must=['read_shifted_horizon', 'read_horizon_at_zero', 'default_horizon']),
 'M03': mpc('m03_loop', 'A seeded sampled control loop with faulty measurements, messages, timing, budgets, clock and numerics; every answer is checked by an independent oracle.', 16000, must=['prediction_checked', 'solved_after_fault']),
 'M04': mpc('m04_recover', 'A seeded faulty loop followed by 40 clean sampling periods; a newly started twin runs beside it.', 5000, must=['drained', 'solved_at_first_clean_call']),
 'M05': mpc('m05_clock', 'One seeded faulty loop executed twice with different clock offsets and compared step by step.', 8000, must=['compared_across_clocks', 'callback_times_checked']),
 'M06': mpc('m06_predict', 'A seeded faulty loop; after each SOLVED call the model is integrated under the reported control and compared with the reported states.', 12000, must=['prediction_error_below_1e-3']),
 'M07': mpc('m07_history', 'Seeded histories on one live controller; every clean solve from newly set guesses is compared with a newly constructed controller.', 16000, must=['compared_after_history']),
 'S01': sg('s01_isolation', 'Two to four objects of any kind run seeded histories, in preempted threads or interleaved on one thread, in a process that never ran library code before; every output is compared bit for bit with the same history run alone in a cold process.', 6000, must=['switches'], unit='scheduling points (basic blocks)'),
 'S02': sg('s02_memory', 'The same histories executed twice in cold processes whose fresh heap, object storage and stack hold different patterns; every output, also before the first operation, is compared bit for bit.', 8000),
 'S03': sg('s03_heap', 'Histories on dense fixed-size objects while the allocator refuses every request made inside library calls from a seeded operation on.', 16000),
 'S04': sg('s04_copies', 'An object is copied at a seeded point of its history; original and copies continue with histories of their own (interleaved, in preempted threads, or after the original is destroyed) and every output is compared bit for bit with an object of which no copy was taken.', 5000),
 'B01': be('b01_qp_back_ends', 'A seeded history of settings, cold and warm solves, pattern reuse and restarts on one interface object; the simulated back end records what it is given, answers by script, refuses data, and fails.', 400000, ['warm', 'first_solve_warm', 'pattern_reused', 'settings_compared'], 20, 'back-end calls', ['src/solvers/osqp_interface.hpp', 'src/solvers/qpmad_interface.hpp', 'src/solvers/qp_base.hpp', 'Eigen (system)'], BSTUB_Q),
 'B02': be('b02_ipopt', 'A seeded history of solves, setters and problem changes; the simulated optimiser evaluates the adapter at seeded points in seeded order (with and without new_x, with NaN points and aborted solves) and every value is compared with an independent oracle.', 20000, ['hessian', 'hessian_scaled', 'jacobian', 'gradient', 'constraints'], 25, 'optimiser calls', ['src/solvers/ipopt_interface.hpp', 'src/solvers/nlproblem.hpp', 'src/control/continuous_ocp.hpp', 'src/polynomials/ebyshev.hpp', 'src/polynomials/splines.hpp', 'src/autodiff/AutoDiffScalar.h', 'Eigen (system)'], BSTUB_I),
}
