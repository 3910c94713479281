"""The properties (see gen.py)."""
H, F, I, S, C, K = 'histories', 'fault_sequences', 'inputs', 'schedules', 'crash_points', 'configurations'
def P(id, title, statement, over, text, why, files, mech, note, observe=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe or [], na=na)
QP = ['src/solvers/admm.hpp', 'src/solvers/box_admm.hpp', 'src/solvers/qp_base.hpp']
SQ = ['src/solvers/sqp_base.hpp', 'src/solvers/nlproblem.hpp']
MP = ['src/control/mpc_wrapper.hpp']
TABLE = [
P('Q01', 'A QP reported SOLVED is solved',
  'Whenever a built-in QP solver (ADMM or boxADMM, dense or sparse) reports SOLVED, the returned primal and dual vectors are finite and satisfy primal feasibility, stationarity and complementarity of the given problem within the configured absolute and relative tolerances. It never reports SOLVED for data containing NaN or Inf or after an undetected numerical fault, and it returns its status, iteration count and residuals consistently.',
  [H, F, I, K], 'all histories of solves on one live object, all back ends and settings, NaN/Inf in any datum or warm start, linear-solver faults at any iteration, budget cuts at any point', 'Tests solve a few fixed problems on fresh objects with clean data; whether the verdict stays honest after poisoned data, faulted factorisations, setting changes and reuse depends on histories no test samples.',
  QP, [('termination test and residuals', 'admm.hpp/box_admm.hpp residuals_update, solve_impl'), ('status', 'qp_base.hpp status_t')], 'Seeded search; independent KKT oracle in double/extended arithmetic with tolerances derived from the settings. Trusts the oracle and Eigen.'),
P('Q02', 'A QP answer does not depend on what was solved before',
  'For the same data, settings and guess, a used QP solver object gives the same status and the same solution (up to rounding) as a newly constructed one, whatever was solved, interrupted, poisoned or copied on it before.',
  [H, F, C, K], 'all operation histories incl. faulted and infeasible solves, snapshot/restore and crash/restart between any two operations', 'Tests construct a new solver per case, so leftovers of an earlier solve (scaled step size, duals, constraint classification, factorisation) are never observed.',
  QP, [('re-initialisation per solve', 'admm.hpp/box_admm.hpp solve_impl: rho, z, y, constraint types reset')], 'Differential against a fresh object of the same build; cases in which rounding alone decides the answer (checked by perturbation) are skipped and counted.'),
P('Q03', 'Pattern reuse changes speed, never the answer',
  'With sparse back ends, re-solving with the pattern-reuse setting on after any change of the numerical values inside the same sparsity pattern gives the same answer as a newly constructed solver without reuse.',
  [H, F, I, K], 'all histories that toggle reuse and change values, bounds and constraint types within one pattern, across faults', 'Tests reuse a pattern at most once with one value set; the in-place update has to be right for every pattern and entry position.',
  QP, [('in-place KKT update', 'admm.hpp/box_admm.hpp update_kkt_matrix, sparse')], 'Differential as Q02; patterns are random.'),
P('Q04', 'Interrupted QP solves recover and make progress',
  'For a strictly convex feasible QP, solving in slices with small iteration limits, with faulted solves, restarts and lost or stale warm starts in between, ends in SOLVED at the unique solution within a bounded number of iterations once faults stop, for every admissible relaxation and step-size setting.',
  [H, F, C, K], 'all slice sizes, fault placements, restart points and settings (relaxation 0.6..1.8, adaptive and fixed step size)', 'Tests never interrupt a solve and use one relaxation value; convergence from arbitrary leftovers is a liveness claim over histories.',
  QP, [('warm start and relaxation', 'admm.hpp/box_admm.hpp solve_impl')], 'Liveness as a bounded number of simulated iterations after the last fault, calibrated with margin; reference solution from an independent active-set computation.'),
P('Q05', 'QP effort is bounded by the budget and reported truthfully',
  'A QP solve performs no more iterations than its limit (plus the final check), the reported iteration count equals the number of linear solves performed, and refactorisation happens only when the settings ask for it.',
  [H, F, K], 'all histories, iteration limits 1..4000, check and adaptation intervals', 'Tests compare one or two iteration counts; the budget is a real-time guarantee over every setting and fault.',
  QP, [('iteration loop', 'admm.hpp/box_admm.hpp solve_impl')], 'Work is counted at the linear-solver seam, independently of the solver\'s own counters.'),
P('Q06', 'The QP iterates are those of the documented splitting method',
  'For a strictly convex QP, after any history on the object, a built-in solver returns exactly (up to rounding) the status, iteration count, primal and dual iterate, and number of factorisations that the over-relaxed operator-splitting method with the configured sigma, rho, alpha, termination and adaptation settings yields from the given guess, including when the budget cuts it off.',
  [H, F, C, K], 'all operation histories, snapshots and restarts, warm starts, iteration limits and settings of relaxation, regularisation and adaptation, dense and sparse back ends', 'A wrong iteration usually still converges on the handful of tested problems, only slower or to a point inside the loose tolerance; comparing the whole iteration with a model after histories shows it.',
  QP, [('iteration', 'admm.hpp/box_admm.hpp solve_impl'), ('step-size rule', 'rho_vec_update, estimate_rho'), ('KKT assembly', 'construct_kkt_matrix, update_kkt_matrix')], 'Refinement check against a small dense executable reference model written from the published method; runs in which the adaptation acts on rounding-level residuals, more than 6 times, or the iterate blows up are not compared and counted.'),
P('N01', 'An NLP reported SOLVED is feasible, stationary and finite',
  'Whenever the SQP solver reports SOLVED with an accepted step from a solved subproblem, the returned primal and dual vectors are finite, the constraint violation evaluated independently is within the tolerance, and the Lagrangian gradient and complementarity gap are of the order of the tolerance. NaN or Inf from the user callbacks, the QP or the guess never ends in SOLVED with a wrong point, iteration counts stay within the limits, and there is always a verdict.',
  [H, F, I, K], 'all histories of solves on one live solver with faults in cost/constraint callbacks at any evaluation, in the QP\'s linear solver, in guesses and budgets; BFGS, exact, SR1, filter and preconditioned variants', 'Tests check the solution of a handful of problems with clean callbacks; max-norms silently drop NaN and a failed line search shortens the step, which only faults expose.',
  SQ + ['src/solvers/bfgs.hpp', 'src/solvers/sr1.hpp'], [('termination criteria', 'sqp_base.hpp termination_criteria_impl'), ('line search', 'sqp_base.hpp step_size_selection_impl')], 'Independent extended-precision derivatives and KKT oracle. Two recorded weaknesses (exhausted line search, unsolved subproblem) are known findings.'),
P('N02', 'A re-seeded NLP solver answers like a new one',
  'For the same problem data, settings and primal-dual guess, a used SQP solver returns the same status, iteration count and solution as a newly constructed one, whatever was solved, interrupted or poisoned on it before.',
  [H, F, C, K], 'all histories incl. NaN callbacks, faulted QPs, exhausted budgets, copies and restarts', 'Tests build a solver, solve once and stop; stale Hessians, duals, scalings or flags only show in histories.',
  SQ + ['src/solvers/qp_preconditioners.hpp'], [('initialisation in solve', 'sqp_base.hpp solve')], 'Differential against a fresh object of the same build, rounding-sensitive cases skipped and counted (none on the current tree).'),
P('N03', 'Interrupted NLP solves recover and finish',
  'On convex problems, solving in slices of a few SQP iterations with callback faults, linear-solver faults, restarts and lost checkpoints in between, ends in SOLVED at a feasible stationary point within a bounded number of iterations once faults stop, with at most a bounded number of re-seedings.',
  [H, F, C, K], 'all slice lengths, fault placements, restart and checkpoint points, line-search and tolerance settings', 'Tests never stop a solve half-way; real-time use does so on every call.',
  SQ, [('retained iterate', 'sqp_base.hpp m_x, m_lam'), ('line search', 'sqp_base.hpp step_size_selection_impl')], 'Liveness as bounded iterations after the last fault; the watchdog of the simulation may re-seed at most 8 times.'),
P('N04', 'Preconditioning is transparent and reversible',
  'After any sequence of equilibration cycles (dense or sparse), scaling and unscaling restores the problem data and maps solutions so that stationarity, constraint and bound residuals of the scaled and original problem agree up to positive factors; finite data with empty rows or columns, absent variables or zero gradients never becomes non-finite, and an earlier poisoned cycle leaves no trace.',
  [H, F, I, K], 'all cycle histories with degenerate and poisoned data over dense/sparse and float/double', 'One test equilibrates one well-posed problem once.',
  ['src/solvers/qp_preconditioners.hpp'], [('equilibration', 'qp_preconditioners.hpp RuizEquilibration compute/scale/unscale')], 'Algebraic identities evaluated independently per cycle.'),
P('N05', 'Quasi-Newton updates keep the Hessian usable',
  'Every damped BFGS update of a symmetric positive definite matrix leaves it symmetric and positive definite with the damped secant curvature along the step, and every SR1 update leaves it finite and symmetric and satisfies the secant condition or changes nothing, for all histories of steps and gradient changes including zero, tiny, huge and negative-curvature ones.',
  [H, F, I], 'all step histories, direct and inside a faulted SQP solve', 'Tests apply no direct update sequences; breakdown needs special pairs (zero step, exact model, negative curvature) late in a history.',
  ['src/solvers/bfgs.hpp', 'src/solvers/sr1.hpp', 'src/solvers/sqp_base.hpp'], [('damping and safeguards', 'bfgs.hpp BFGS_update, sr1.hpp SR1_update')], 'Eigenvalues computed independently with tolerances relative to the scale.'),
P('N06', 'The line-search filter never re-accepts a dominated point',
  'For every history of trial points the filter rejects any point that is no better in both cost and violation than one of its last max_depth accepted points, accepts a point that improves on every stored point, never stores more than max_depth points, and forgets everything on clear.',
  [H, I, F], 'all trial/query/clear histories incl. ties, duplicates, full filter and NaN queries, depths 1..12', 'Tests use the filter only through one solve in which it never fills.',
  ['src/solvers/line_search.hpp'], [('LSFilter', 'line_search.hpp is_acceptable/add')], 'Reference model over the recorded history.'),
P('O01', 'Dense and sparse transcription are the same problem',
  'For the same optimal control problem, the dense and the sparse transcription give the same constraint values, costs, gradients, Jacobians, Hessians and Lagrangian derivatives (up to rounding) for every evaluation function, first call or repeated call, after every history of evaluations, horizon changes, faulted evaluations, copies of the problem object and new or reused result matrices.',
  [H, F, C, K], 'all evaluation histories over problem shapes (states, controls, parameters, path constraints), segment counts and polynomial orders, with NaN/Inf callbacks in some evaluations and fresh or reused matrices', 'Tests compare one dense and one sparse evaluation of one problem without parameters; the sparse code has separate first-build and in-place-update paths that only a history separates.',
  ['src/control/continuous_ocp.hpp'], [('sparse build/update', 'continuous_ocp.hpp _equalities_linearised_sparse(_update), _cost_grad_hess_sparse(_update)'), ('dense', 'continuous_ocp.hpp cost_gradient_hessian, equalities_linearised')], 'Differential over one seeded history; nine problem shapes.'),
P('O02', 'Transcription values and derivatives are exact and current',
  'Every evaluation of the transcribed problem returns the collocation defects, path constraints, quadrature cost plus terminal cost, and their exact first and second derivatives and Lagrangian combinations, for the variables, static data, multipliers, horizon and cost scaling of that very call, whatever was evaluated, faulted, copied or changed before.',
  [H, F, I, K], 'all points, multipliers, static data, horizons and evaluation histories, with callback faults and object copies in between', 'Tests check single evaluations of one problem against recorded numbers; stale caches, terminal-cost blocks, parameter blocks and segment gluing need particular shapes and histories.',
  ['src/control/continuous_ocp.hpp', 'src/polynomials/splines.hpp', 'src/polynomials/ebyshev.hpp'], [('collocation', 'continuous_ocp.hpp equalities*, inequalities*, cost*, lagrangian*'), ('spline collocation', 'splines.hpp Spline')], 'Oracle: collocation scheme and 2-jets derived independently in extended precision.'),
P('O03', 'The horizon and the clock are respected',
  'After every call of set_time_limits the time nodes are the mapped collocation nodes of the new horizon in descending order, every callback is evaluated exactly at the times of those nodes (the terminal cost at the final time), a constant running cost of one integrates to the horizon length, and a time-invariant problem gives the same values and derivatives for every start time of the same horizon length.',
  [H, F, I], 'all horizons and horizon-change histories incl. large clock offsets and faulted evaluations in between', 'Tests keep the default horizon or set it once before the first evaluation and never look at the time argument.',
  ['src/control/continuous_ocp.hpp'], [('time nodes', 'continuous_ocp.hpp set_time_limits, constructor')], 'The callback seam records the simulated clock.'),
P('O04', 'The sparse quasi-Newton update is the dense one inside the pattern',
  'The sparse Hessian update equals the damped BFGS update restricted to the stored block pattern, keeps the matrix symmetric and finite and its pattern unchanged, and changes nothing for a zero step, for every history of evaluations and steps including negative curvature and exact-model steps.',
  [H, F, I], 'all step histories on all problem shapes, with zero, tiny, negative-curvature and exact-model steps', 'No test calls the sparse update with parameters, with a zero step or with negative curvature and compares the entries.',
  ['src/control/continuous_ocp.hpp', 'src/solvers/bfgs.hpp'], [('block update', 'continuous_ocp.hpp hessian_update_impl')], 'Independent masked rank-two formula.'),
P('O05', 'A path is read on its segment at every parameter',
  'Evaluating an equidistant cubic path spline gives, for every finite parameter (within the range of segment numbers an int can hold), the value of the cubic of the segment the parameter lies in, with the first cubic before the start and the last one from the end on, also after the path was replaced, copied or the original destroyed; first and second automatic derivatives of the evaluation are those of that same cubic; a parameter that is not finite never yields a finite position.',
  [H, F, I], 'all histories of path changes, copies, destructions and readings; parameters anywhere including exactly on a knot, exactly at and past both ends, jumps and NaN/Inf; plain, first- and second-derivative readings in double and float', 'The only test plots one path inside its range; the end of the path, the knots and derivatives seen through nested automatic differentiation are where a path-following controller meets it.',
  ['src/polynomials/splines.hpp'], [('segment lookup and Horner evaluation', 'splines.hpp EquidistantCubicSpline::eval, floor_'), ('path data', 'EquidistantCubicSpline constructor, coefficients(), segment_length()')], 'Independent evaluation in extended precision; at a knot either neighbouring segment is accepted within the rounding of the division.'),
P('M01', 'MPC setters change exactly what they name',
  'Every MPC setter (initial condition, state, final-state, control and parameter bounds as vectors or trajectories, path-constraint bounds, static parameters, guesses, horizon) changes exactly the entries it names, in the solver\'s ordering (final node first), and nothing else; solves change only the iterate; and after any history of setters, solves and restarts the problem that is solved is the one that was set.',
  [H, F, I, C, K], 'all histories of setter calls, solves, faulted solves, restarts and snapshots over seven controllers (dense/sparse, double/float, ADMM/boxADMM, with and without preconditioning)', 'Tests call a few setters once before the first solve; overlaps between setters (final state, trajectory, initial condition), orderings and leftovers of a solve only show in histories.',
  MP, [('setters', 'mpc_wrapper.hpp initial_conditions, x_lower_bound, state_trajectory_bounds, control_bounds, ...'), ('bounds storage', 'sqp_base.hpp lower_bound_x, upper_bound_x, lower_bound_g, upper_bound_g')], 'Reference model of the setters compared entry by entry after every operation; every answer is also checked against the modelled problem.'),
P('M02', 'The prediction can be read at every time of the horizon',
  'At any moment (before the first solve, after solves that were solved, interrupted or faulted, after horizon changes) the solution accessors return the nodal values of the current iterate in time order, and reading state or control at a time between the start and the end of the current horizon returns the value of the piecewise polynomial through those nodes, whatever the start time of the horizon is.',
  [H, F, I, C], 'all histories of setter calls, horizon changes, solves and restarts; all read times incl. nodes, segment borders and both ends; start times 0..1000', 'Tests read a prediction once on the default horizon starting at zero.',
  MP + ['src/polynomials/splines.hpp'], [('time interpolation', 'mpc_wrapper.hpp solution_x_at, solution_u_at'), ('basis', 'splines.hpp LagrangeSpline compute_lagrange_basis, eval')], 'Independent barycentric interpolation in extended precision.'),
P('M03', 'A controller in a faulty loop never claims a wrong plan',
  'In a sampled control loop with lost, delayed, duplicated, outlying or non-finite measurements, lost commands, stalls, restarts, clock jumps, cut budgets and numerical faults, every plan that the controller reports as SOLVED is finite, starts at the measurement it was given, respects all state, control, parameter and path constraints and the collocated dynamics within the tolerance; the reported constraint violation is the true one; the iteration counts respect the configured limits; and there is a verdict for every call.',
  [H, F, S, C, K], 'all loop histories, message schedules, fault placements, horizons (fixed and moving) and budgets over seven controllers', 'Tests solve one OCP from one initial state; a warm-started loop with faults visits iterates no test reaches.',
  MP + SQ, [('solve', 'sqp_base.hpp solve'), ('initial condition', 'mpc_wrapper.hpp initial_conditions')], 'Plant, sensor, actuator and network are simulated; the controller is the real code.'),
P('M04', 'The control loop recovers when faults stop',
  'After any history of measurement, message, timing, budget and numerical faults (the plant being within the region of operation), the warm-started controller reports SOLVED again within a bounded number of clean sampling periods, keeps doing so, and brings the plant to the same place as a newly started controller does; the supervisor re-seeds non-finite iterates and, after two failed calls in a row, the guesses.',
  [H, F, S, C, K], 'all fault histories up to 10 (20) sampling periods followed by 40 clean ones, over seven controllers', 'No test exercises a loop after a failed solve.',
  MP + SQ, [('retained state', 'sqp_base.hpp m_x, m_lam, m_H; box_admm.hpp iterates')], 'Liveness as progress within 9 clean periods; convergence compared with a fresh twin within 0.05.'),
P('M05', 'A controller does not depend on what the clock shows',
  'For a time-invariant problem, running the same loop with the clock (the start of the horizon) shifted by any offset gives the same statuses, the same solutions and the same interpolated predictions up to rounding, and no callback is ever evaluated at a time outside the current horizon.',
  [H, F, S, I], 'all loop histories with faults, clock offsets -20..1000, moving horizons', 'Tests never run a controller at two clock readings.',
  MP + ['src/control/continuous_ocp.hpp'], [('horizon', 'mpc_wrapper.hpp set_time_limits, continuous_ocp.hpp set_time_limits')], 'Metamorphic: two executions of one loop history with different clocks; rounding-sensitive cases (detected by perturbing state and horizon) are skipped and counted.'),
P('M06', 'The plan is what the plant does',
  'For every plan reported SOLVED, integrating the model from the predicted initial state under the interpolated control reproduces the interpolated predicted states at all times of the horizon, within the constraint tolerance and the discretisation error of the configured collocation scheme.',
  [H, F, S, K], 'all loop histories; fixed and moving horizons of length 1..3', 'Tests compare nodal values with recorded numbers; none integrates the plant under the reported input.',
  MP + ['src/control/continuous_ocp.hpp', 'src/polynomials/splines.hpp'], [('prediction', 'mpc_wrapper.hpp solution_x_at, solution_u_at'), ('dynamics', 'continuous_ocp.hpp equalities')], 'Fourth-order integration of the plant; tolerance 0.003 for single-segment and 0.15 (relative) for multi-segment schemes plus the solver tolerance (calibrated: observed maxima 0.0008 and 0.09).'),
P('M07', 'A used controller answers like a new one',
  'For the same problem, settings and guesses, a controller with any history of setters, solves, faulted or interrupted solves, snapshots and restarts gives the same status, iteration count and solution as a newly constructed controller.',
  [H, F, C, K], 'all histories over seven controllers incl. sparse SQP with pattern reuse, preconditioning and float', 'Tests construct a controller per case.',
  MP + SQ, [('state carried between solves', 'mpc_wrapper.hpp m_solver; sqp_base.hpp; box_admm.hpp')], 'Differential against a fresh object of the same build; diverging or rounding-sensitive cases are skipped and counted (below 1 %).'),
P('S01', 'Objects do not influence each other',
  'Any number of solvers, problems and controllers of the same or different types can be used in one process, in different threads at the same time or interleaved in one thread: each gives, for its own sequence of calls, bit for bit the answers it gives when it is alone, whatever the interleaving of the threads, including the first use of a type by several threads at once.',
  [S, H, F, K], 'all interleavings at basic-block granularity of 2-4 objects (QP, SQP, MPC) with seeded histories and faults, first use included', 'Tests use one object at a time in one thread.',
  QP + SQ + MP + ['src/control/continuous_ocp.hpp', 'src/polynomials/ebyshev.hpp', 'src/polynomials/splines.hpp', 'src/solvers/bfgs.hpp', 'src/solvers/qp_preconditioners.hpp'], [('shared constants', 'ebyshev.hpp static tables; continuous_ocp.hpp static members'), ('scratch data', 'members of sqp_base.hpp, admm.hpp, box_admm.hpp, splines.hpp')], 'Seeded preemptive schedules of real threads run one at a time (sequentially consistent: weak-memory effects are not simulated). Bit-for-bit differential against the same history alone.'),
P('S02', 'Answers do not depend on what was in memory',
  'What an object shows, from its construction on (status, iteration counts, norms, iterates, predictions), is a function of the calls made on it: it never depends on the content of the memory it was built in, of heap blocks it was given or of the stack.',
  [H, F, I, K], 'all histories and all memory contents for QP, SQP and MPC objects', 'A test process has one memory content; an uninitialised member that happens to be zero passes every test.',
  QP + SQ + MP + ['src/control/continuous_ocp.hpp', 'src/polynomials/splines.hpp', 'src/solvers/bfgs.hpp', 'src/solvers/qp_preconditioners.hpp', 'src/solvers/line_search.hpp'], [('initial values', 'sqp_base.hpp members and sqp_info_t; qp_base.hpp qp_sqp_info_t; admm.hpp, box_admm.hpp constructors')], 'Two executions of one history with different seeded memory contents, compared bit for bit.'),
P('S03', 'Dense fixed-size objects work without a heap',
  'With dense, compile-time-sized problems all memory is static: once constructed, QP solvers, SQP solvers and MPC controllers never request memory in any operation, so they keep working when the heap is exhausted.',
  [H, F, K], 'all histories of operations on dense QP, SQP and MPC objects, heap exhausted from any operation on', 'Tests run with a working allocator and would not notice a heap temporary on a rare path.',
  QP + SQ + MP + ['src/control/continuous_ocp.hpp', 'src/polynomials/splines.hpp', 'src/solvers/bfgs.hpp'], [('static allocation', 'fixed-size Eigen members and temporaries; docs/source/overview.rst: fully static memory allocation')], 'The allocator refuses every request made inside library calls (requests of user callbacks and of Eigen sparse types are outside).'),
P('S04', 'Copies are complete and independent',
  'A copy of a solver, problem or controller taken at any point of its history continues exactly as the original would have, and nothing done to one of them (including its destruction) is visible through another.',
  [H, F, S, C, K], 'all histories before and after the copy, up to three copies, interleaved or in threads, original destroyed', 'Tests never copy a used object.',
  QP + SQ + MP + ['src/control/continuous_ocp.hpp', 'src/solvers/qp_preconditioners.hpp', 'src/solvers/line_search.hpp'], [('copy semantics', 'implicit copy constructors of all classes; continuous_ocp.hpp sparse copy; Eigen decompositions')], 'Bit-for-bit differential. Types that cannot be copied are skipped and counted (not_copyable).'),
P('B01', 'Back-end QP solvers get the caller\'s problem and their verdict is passed on',
  'At every solve through the OSQP or QPMAD interface, cold, warm-started, with pattern reuse or after any failure, the back end is given exactly the problem, guess and settings of this call under its own life-cycle rules, and the caller gets exactly the answer, statistics and verdict of this call: SOLVED only if the back end solved it.',
  [H, F, I, K], 'all histories of solves, settings, warm starts, reuse and restarts; all back-end verdicts, refused data, failing initialisation and NaN answers', 'The back ends are optional and no test runs them here; their interfaces keep state (workspace, sparsity, warm start) across calls.',
  ['src/solvers/osqp_interface.hpp', 'src/solvers/qpmad_interface.hpp', 'src/solvers/qp_base.hpp'], [('problem hand-over', 'osqp_interface.hpp, qpmad_interface.hpp solve_impl'), ('verdict', 'status mapping in solve_impl')], 'The back ends are simulated (their real code is not installed): the check decides the interfaces, not OSQP or QPMAD.'),
P('B02', 'The Ipopt adapter shows the caller\'s NLP in any call order and returns the optimiser\'s answer',
  'Whatever the order in which the optimiser asks for cost, gradient, constraints, Jacobian and Hessian of the Lagrangian, at new or repeated points, with any multipliers and objective factor, dense or sparse, each value is that of the caller\'s problem with the current parameters and bounds; and the solution, multipliers, cost and status shown afterwards are those the optimiser returned in this solve.',
  [H, F, S, I, K], 'all call orders and points incl. repeated, NaN and aborted solves, rejected problems, changes of bounds, parameters and horizon between solves', 'Ipopt is optional and no test runs it here; a solver run samples one call order.',
  ['src/solvers/ipopt_interface.hpp', 'src/control/continuous_ocp.hpp', 'src/solvers/nlproblem.hpp'], [('evaluation callbacks', 'ipopt_interface.hpp eval_f, eval_grad_f, eval_g, eval_jac_g, eval_h'), ('structure', 'ipopt_interface.hpp get_nlp_info, get_data'), ('answer', 'ipopt_interface.hpp finalize_solution, solve')], 'The optimiser is simulated (real Ipopt is not installed). Values are compared with an independent extended-precision oracle.'),
P('A01', 'Quadrature, nodes and differentiation are exact up to the degree of the scheme',
  'For every order, the Chebyshev and Legendre classes return nodes in [-1, 1], weights that integrate every polynomial up to the degree of the rule exactly, and differentiation matrices that are exact for polynomials up to the order.',
  [I, K], 'all orders and polynomials', 'Tests sample a few orders and functions.',
  ['src/polynomials/ebyshev.hpp', 'src/polynomials/legendre.hpp'], [('nodes and weights', 'ebyshev.hpp, legendre.hpp')], '',
  na='Compile-time constant tables and pure functions: no history, time, schedule, fault or environment can change the answer, so simulation has nothing to vary. (Their use inside the transcription is covered by O02, M02 and M06.)'),
P('A02', 'The LQR gain solves the Riccati equation',
  'For every stabilisable pair and positive definite weights the linear-quadratic regulator returns a stabilising gain whose cost-to-go matrix satisfies the algebraic Riccati equation.',
  [I], 'all stabilisable pairs', 'Tests compare two systems with recorded numbers.',
  ['src/control/lqr.hpp'], [('Riccati solver', 'lqr.hpp')], '',
  na='Stateless numerical function of its arguments: nothing for a simulator to schedule, delay or fail; deciding it is input generation or proof.'),
P('A03', 'Second-order automatic differentiation of scalar expressions is exact',
  'Every operator and elementary function of the automatic-differentiation scalar propagates first and second derivatives exactly.',
  [I], 'all expressions', 'Tests cover a few expressions.',
  ['src/autodiff/AutoDiffScalar.h'], [('operators', 'AutoDiffScalar.h')], '',
  na='Pure expression templates without state, time or environment. (The derivatives of whole problems across evaluation histories and faults are O02 and N01.)'),
P('A04', 'The CasADi based tools (integrators, nmpf, pseudospectral arc-length continuation) compute what their C++ counterparts do',
  'The integrators reproduce the flow of the given dynamics within their tolerance and the path-following controllers track their path.',
  [H, I], 'all models', 'Not part of the build.',
  ['src/integration/integrator.hpp', 'src/nmpf.hpp', 'src/experimental/psarc.hpp'], [('CasADi classes', 'integrator.h, nmpf.hpp, psarc.hpp')], '',
  na='Needs CasADi (and IPOPT), which is not installed and cannot be obtained offline, so the real code cannot be executed under the simulator.'),
]
