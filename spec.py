"""The properties: one entry each.  gen.py writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from it."""
S = {}


def P(pid, title, statement, over, q, why, files, mech, note, bounds, outside, na=None, state=None, observe=None):
    S[pid] = dict(title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=note,
                  bounds=bounds, outside=outside, na=na, state=state, observe=observe)


API, AUX, UTIL = 'src/osqp_api.c', 'src/auxil.c', 'src/util.c'

P('P01', 'Setup accepts exactly the valid problems and settings',
  'Setting up a solver succeeds for every valid problem and settings combination and fails with the data-validation or settings-validation error code for every invalid one (missing data, non-positive variable count, negative constraint count, wrong shapes, a quadratic term that is not stored as an upper triangle, a lower bound above its upper bound, or any setting outside its documented range). A rejected setup leaves the caller without a usable solver and without touching the caller\'s data.',
  ['inputs', 'configurations'], 'all values of every setting (including infinities), all bounds, all shape fields and small sparsity patterns',
  'tests reject a handful of hand-picked bad values; each setting has a whole interval of legal and illegal values and the interactions between them are never sampled',
  [API, 'src/auxil.c'], [('validate_data', 'src/auxil.c'), ('validate_settings', 'src/auxil.c'), ('osqp_setup', API)],
  'every path of the two validators is explored with all settings symbolic at once; the oracle is the documented table of ranges', 'n,m <= 2; one setting or one bound free over all reals and infinities at a time, others valid; every setting covered', 'matrices larger than 2x2')

P('P02', 'Settings updates are validated, atomic, and change only what is documented',
  'Updating settings succeeds exactly when the new settings are valid, in which case every updatable setting takes the new value and every setting fixed at setup keeps its old one. An invalid update changes nothing.',
  ['inputs', 'configurations', 'histories'], 'all values of every setting, before and after solving',
  'the tests change two or three settings to one value each', [API, 'src/auxil.c'], [('osqp_update_settings', API), ('validate_settings', 'src/auxil.c')],
  'all settings symbolic; oracle is the documented list of updatable settings', 'one update on a 1x1 problem; all settings symbolic', 'sequences of more than two updates')

P('P03', 'A solved status means the returned point meets the tolerances',
  'Whenever the solver reports solved (or solved inaccurate), the returned primal and dual point together with a point inside the bounds satisfies the documented primal and dual residual conditions, and the duality-gap condition when enabled, in the units of the user\'s own data with the requested (ten times the requested) absolute and relative tolerances. This holds whatever the scaling, warm start, relaxation and constraint types.',
  ['inputs', 'configurations'], 'all cost vectors, bounds, starting points and tolerances, for each listed matrix and settings profile',
  'tests compare a few solved problems with stored solutions; they never check the termination condition itself, and the loop that decides it runs on values no test picks',
  [AUX, API, 'src/scaling.c'], [('check_termination', AUX), ('update_info/compute_prim_res/compute_dual_res', AUX), ('unscale_solution', 'src/scaling.c')],
  'symbolic execution of setup+solve with vectors symbolic; residuals recomputed from user data in the harness; real arithmetic', 'n<=2, m<=2, one ADMM iteration (two in the thorough tier) from an arbitrary warm start; matrices concrete (symbolic 1x1 in the thorough tier)', 'rounding error; larger dimensions; more iterations')

P('P04', 'A primal-infeasible status comes with a valid certificate',
  'Whenever the problem is reported primal infeasible, the returned certificate has unit norm, respects the sign restrictions imposed by infinite bounds, is annihilated by the transposed constraint matrix up to the requested tolerance and has a negative support value, all in user units; the solution vectors and the other certificate are NaN and the objective is plus infinity.',
  ['inputs', 'configurations'], 'all cost vectors, bounds, starting points and infeasibility tolerances',
  'one small infeasible problem with fixed data is tested; scaling and one-sided bounds with certificates are not', [AUX], [('is_primal_infeasible', AUX), ('check_termination', AUX), ('store_solution', AUX)],
  'as P03', 'n<=2, m<=3, one ADMM iteration from an arbitrary warm start, scaling off/on, constraint types two-sided, one-sided, equality, free', 'rounding; completeness (that infeasible problems are eventually detected)')

P('P05', 'A dual-infeasible status comes with a valid certificate',
  'Whenever the problem is reported dual infeasible, the returned direction has unit norm, decreases the linear cost, is annihilated by the quadratic cost and keeps the constraints satisfiable up to the requested tolerance, all in user units; the solution vectors and the other certificate are NaN and the objective is minus infinity.',
  ['inputs', 'configurations'], 'all cost vectors, bounds, starting points and infeasibility tolerances',
  'one unbounded problem with fixed data is tested', [AUX], [('is_dual_infeasible', AUX), ('check_termination', AUX), ('store_solution', AUX)],
  'as P03', 'n<=2, m<=2, one ADMM iteration from an arbitrary warm start, scaling off/on', 'rounding; completeness')

P('P06', 'Limits and inaccurate statuses are reported only when earned',
  'A point that passes the termination test is reported solved, the inaccurate statuses appear only when an iteration or time limit stopped the run and the tenfold tolerances hold, and the maximum-iterations status appears only at the iteration limit with no tenfold test passing.',
  ['inputs', 'configurations'], 'all cost vectors, bounds and starting points', 'the tests never reach an inaccurate status', [API, AUX], [('osqp_solve', API), ('check_termination', AUX)],
  'as P03, in the converse direction', 'n<=2, m<=2, one iteration from an arbitrary warm start', 'rounding; more iterations')

P('P07', 'Reported residuals, objectives and gap match the returned point',
  'The objective value, dual objective value, duality gap, primal and dual residuals and KKT error in the result information equal their definitions evaluated at the returned point with the user\'s data.',
  ['inputs', 'configurations'], 'all cost vectors, bounds (including infinite ones) and starting points', 'tests compare objective values of a few solved problems with stored numbers; the dual objective and the gap with infinite bounds are not checked',
  [AUX, API], [('update_info', AUX), ('compute_obj_val_dual_gap', AUX), ('compute_prim_res', AUX), ('compute_dual_res', AUX)],
  'as P03', 'n<=2, m<=2, one iteration, arbitrary warm start, scaling off/on', 'rounding')

P('P08', 'Iteration and time limits and the reported times are honoured',
  'A solve never runs more than the requested number of iterations, reports the number it ran, stops at the first iteration at which the elapsed time reaches the time limit with the time-limit status unless a termination test passes, and its result information describes the point it stopped at. The reported total time is the sum of the applicable setup or update, solve and polish times.',
  ['inputs', 'schedules', 'histories'], 'all clock readings (every non-decreasing sequence), limits and check intervals', 'tests only use one tiny time limit and the real clock',
  [API], [('osqp_solve time-limit test', API), ('update_info', AUX)], 'the clock is a symbolic non-decreasing sequence', '<=3 iterations, n=m=1', 'the real clock source')

P('P09', 'Each iteration is the documented ADMM step',
  'Every iteration solves the regularised equality-constrained subproblem exactly, projects the relaxed point on the bounds and updates the multipliers as documented, with the documented per-constraint step size. As a result the iterate always lies within the bounds and its multipliers lie in the normal cone at it, and a point satisfying the optimality conditions is left unchanged.',
  ['inputs', 'configurations'], 'all states (x, z, y), cost vectors, bounds and relaxation parameters', 'tests only see converged results: a wrong step that still converges on the sampled problems is invisible',
  [AUX, 'algebra/mkl/direct/pardiso_interface.c'], [('update_xz_tilde', AUX), ('update_x/update_z/update_y', AUX), ('pardiso solve', 'algebra/mkl/direct/pardiso_interface.c')],
  'one step from an arbitrary state; the sparse LDL solve is encoded as the exact solution of the assembled KKT system', 'n<=2, m<=2', 'rounding in the factorisation (library)')

P('P10', 'Warm and cold start set exactly the requested starting point',
  'After a warm start the next solve behaves as one started from the given point whatever was solved before, giving only one of the two vectors keeps the other part, and a cold start, a solve with warm starting off and a solve after one that ended without a solution are the same as a first solve.',
  ['inputs', 'histories'], 'all starting points, cost vectors and bounds after an arbitrary solve', 'tests warm start one problem from its solution', [API], [('osqp_warm_start', API), ('osqp_cold_start', API)],
  'two solver instances with different histories are run symbolically and all outputs compared', 'n<=2, m<=2, <=2 solves, <=2 iterations; the indirect backend with at most one CG iteration and concrete data apart from one bound', 'several CG iterations with symbolic data')

P('P11', 'Updating the cost vector or bounds equals a fresh setup',
  'After any combination of cost and bound updates the solver behaves exactly as one set up from the resulting data and started at the same point, including when a constraint changes between inequality, equality and free; until that solve the reported status is "unsolved".',
  ['inputs', 'histories'], 'all old and new vectors', 'tests update to two fixed vectors', [API, AUX], [('osqp_update_data_vec', API), ('update_rho_vec', AUX)],
  'differential symbolic execution against a freshly set-up solver', 'n<=2, m<=2, one final iteration; scaled problems for bound updates only (the cost scaling is documented not to be recomputed)', 'rounding; scaled cost updates')

P('P12', 'Updating matrix values equals a fresh setup',
  'After updating any subset of the entries of the quadratic or constraint matrix, by position list or in full, the solver behaves exactly as one set up from the resulting matrices; until its next solve the reported status is "unsolved".',
  ['inputs', 'histories'], 'all old and new matrix values that keep the problem convex, all index subsets of the pattern', 'tests use one pattern and fixed values', [API, 'algebra/_common/kkt.c', 'algebra/mkl'], [('osqp_update_data_mat', API), ('update_KKT_P/update_KKT_A', 'algebra/_common/kkt.c')],
  'as P11', 'n<=2, m=1, scaling off, one final iteration', 'scaled problems (square roots of symbolic matrices)')

P('P13', 'A rejected update leaves the solver as it was',
  'Every update call that returns an error (crossing bounds, wrong counts or indices, invalid settings, non-positive penalty) reports the documented code and leaves everything a later solve or solution query can show unchanged.',
  ['inputs', 'histories'], 'all rejected arguments and the following behaviour', 'tests check the return code only', [API], [('osqp_update_data_vec', API), ('osqp_update_data_mat', API), ('osqp_update_settings', API), ('osqp_update_rho', API)],
  'differential symbolic execution with and without the rejected call', 'n<=2, m<=2', 'rounding')

P('P14', 'Updating the penalty equals setting up with it',
  'After changing the penalty parameter the solver behaves exactly as one set up with that penalty, and values outside the supported range are clipped to it in both cases.',
  ['inputs', 'histories'], 'all penalties, cost vectors and bounds', 'one penalty pair is tested', [API], [('osqp_update_rho', API), ('set_rho_vec', AUX)],
  'as P11', 'n<=2, m<=2', 'rounding')

P('P15', 'The penalty adapts only when and how it is documented',
  'The penalty is changed during a solve only when adaptation is enabled, only at the documented iterations, only when the estimate differs from the current value by more than the tolerance factor, always to the clipped residual-balancing estimate; the reported number of updates counts the changes and the reported estimate is the formula at the final point.',
  ['inputs', 'configurations'], 'all residuals, tolerances, intervals and fractions', 'tests run one problem with each mode and look at the final result', [AUX, API], [('adapt_rho', AUX), ('compute_rho_estimate', AUX), ('osqp_solve', API)],
  'symbolic solve with the estimate recomputed in the harness', 'n=m=1, <=3 iterations', 'rounding')

P('P16', 'Per-constraint step sizes follow the constraint type',
  'At every moment the step size of an equality constraint, an inequality and an unconstrained row is the documented multiple of the current penalty, and its stored inverse and the factorised system agree with it.',
  ['inputs', 'histories'], 'all bounds and penalties, after setup and after every kind of update', 'never observed by tests', [AUX], [('set_rho_vec', AUX), ('update_rho_vec', AUX)],
  'symbolic execution with the internal vectors read back', 'm<=3', 'none beyond sizes')

P('P17', 'Scaling is an exact change of variables',
  'Scaling multiplies the problem by positive diagonal matrices and a positive cost factor and nothing else: the stored data are the user\'s data under that change of variables, undoing it restores them, the factors stay within their limits, and inverse factors are inverses.',
  ['inputs', 'configurations'], 'all vectors and bounds (including infinite ones) for given matrices', 'tests compare final solutions only', ['src/scaling.c'], [('scale_data', 'src/scaling.c'), ('unscale_data', 'src/scaling.c')],
  'symbolic execution; matrices symbolic in 1x1, concrete otherwise', 'n,m<=2, <=2 scaling iterations', 'rounding')

P('P18', 'Polishing never makes the returned point worse',
  'A successful polish returns a point that satisfies the optimality conditions of the guessed active set up to regularisation, accepted only if both residuals shrink, or one shrinks while the other was already below 1e-10, with bounds and multiplier signs respected and all reported figures being those of that point; an unsuccessful one leaves the point and all reported figures as they were. The reported polish status says which happened.',
  ['inputs', 'configurations'], 'all cost vectors, bounds and starting points', 'tests polish three problems and compare solutions', ['src/polish.c'], [('polish', 'src/polish.c'), ('form_Ared', 'src/polish.c'), ('iterative_refinement', 'src/polish.c')],
  'symbolic execution of solve with polishing', 'n<=2, m<=2', 'rounding')

P('P19', 'Solution queries return the current solution',
  'Querying the solution at any time returns the current point in user units without disturbing later solves, the same as the one stored by the solve, with NaN wherever no solution or certificate exists; querying dimensions returns those of the problem, or -1 without a solver.',
  ['inputs', 'histories'], 'all points, statuses and call orders', 'tests query once after one solve', [API, AUX], [('osqp_get_solution', API), ('store_solution', AUX), ('osqp_get_dimensions', API)],
  'symbolic execution', 'n<=2, m<=2', 'none beyond sizes')

P('P20', 'Status texts, error texts and capabilities are consistent',
  'Every status value reported comes with its documented text, every error code (and any other integer) yields a valid message, the version is a valid string, default settings are valid, and the advertised capabilities equal what the corresponding calls actually do.',
  ['inputs'], 'all status values and all integers as error codes', 'tests check a few messages', [AUX, API, 'src/error.c'], [('update_status', AUX), ('osqp_error_message', API), ('osqp_capabilities', API)],
  'symbolic execution over all integers; the harness holds its own table of the documented texts and exercises each advertised capability', 'none on the integers; capability calls on n=m=1 and constructors up to 3x3', 'the wording of messages other than status texts')

P('P21', 'Caller-owned data is read, never written, kept or aliased',
  'No call modifies the matrices, vectors and settings passed in by the caller, and changing or releasing them after the call returns has no effect on the solver.',
  ['inputs', 'histories'], 'all data and all calls taking caller data', 'not tested', [API], [('OSQPVectorf_new/OSQPMatrix_new_from_csc copy', 'algebra/mkl'), ('copy_settings', AUX)],
  'symbolic execution with before/after comparison and freed inputs', 'n<=2, m<=2', 'none beyond sizes')

P('P22', 'No call sequence causes memory errors or leaks',
  'Any sequence of valid calls from setup to cleanup, including failed ones, reads and writes only live memory inside its objects, does not use uninitialised memory to decide anything, performs no undefined arithmetic, and releases everything it allocated exactly once.',
  ['histories', 'configurations', 'inputs'], 'all call sequences in the bounded grammar and all settings profiles', 'the tests run without sanitizers', [API], [('osqp_setup', API), ('osqp_cleanup', API)],
  'the engine checks every load, store, free and shift on every path and counts live heap blocks', 'n<=2, m<=2, <=4 calls', 'library-internal memory (MKL)')

P('P23', 'Every allocation failure is reported and leaves a cleanable solver',
  'If any single memory allocation fails, the call returns an error code instead of crashing, and cleaning up the partial solver releases everything.',
  ['fault_sequences'], 'every single allocation site as the failing one', 'tests never fail an allocation', [API, 'src/polish.c', 'algebra/mkl', 'algebra/_common/csc_utils.c'], [('allocation checks in osqp_setup', API), ('init_linsys_solver_pardiso', 'algebra/mkl/lin_sys/direct/pardiso_interface.c'), ('init_linsys_mklcg', 'algebra/mkl/lin_sys/indirect/mkl-cg_interface.c'), ('polish', 'src/polish.c')],
  'the index of the failing allocation is a symbolic integer ranging over every allocation of the call (counted by a first run); the failing call must return an error, leave no live block, and the same call must succeed afterwards', 'setup (both linear solvers, with and without scaling, vector and scalar step size, m=0, empty matrices), solve with polishing, updates, constructors and sparse utilities at n,m<=2; one failure', 'failures inside MKL; several failures at once; requests of size zero')

P('P24', 'The assembled KKT matrix is the documented one',
  'For all patterns and values the assembled quasi-definite system holds exactly the quadratic matrix plus regularisation, the constraint matrix and the negative inverse step sizes, in a valid sorted upper-triangular storage, and the recorded positions let value and step-size updates produce the same matrix as a fresh assembly.',
  ['inputs', 'configurations'], 'all values, patterns up to the size bound, both storage orders', 'tests assemble one KKT matrix', ['algebra/_common/kkt.c'], [('form_KKT', 'algebra/_common/kkt.c'), ('update_KKT_P/A/param2', 'algebra/_common/kkt.c')],
  'symbolic values and every sparsity pattern, both storage orders, with and without maps, vector and scalar last block; each entry of the result is compared with the definition, and after value and step-size updates of any subset with a fresh assembly', '(n,m) in {(1,1),(2,1),(1,2),(2,0)} with all update subsets, (2,2) without; (3,1) in the thorough tier', 'larger patterns')

P('P25', 'Sparse and vector kernels compute their mathematical definition',
  'Every vector operation and sparse-matrix product, norm, scaling and extraction used by the solver equals its mathematical definition for every value, length and pattern, including empty ones, without touching any other element.',
  ['inputs'], 'all values, patterns up to the size bound, all scalars', 'one 5x3 example per kernel is tested', ['algebra'], [('vector.c', 'algebra/mkl/vector.c'), ('matrix.c', 'algebra/mkl/matrix.c'), ('csc_math.c', 'algebra/_common/csc_math.c')],
  'symbolic execution of the real kernels; MKL BLAS/sparse entry points replaced by their specification', 'vectors <=3, matrices <=2x3', 'MKL internals')

P('P26', 'Sparse-matrix utilities preserve the matrix they convert',
  'Conversions, copies, transposes, stacking, row selection and diagonal or empty constructors yield structurally valid matrices representing exactly the intended matrix.',
  ['inputs'], 'all values and patterns up to the size bound', 'one example each', ['algebra/_common/csc_utils.c', API], [('csc_utils.c', 'algebra/_common/csc_utils.c'), ('OSQPCscMatrix_*', API)],
  'symbolic execution over every sparsity pattern, row selection, permutation and triplet order with symbolic values; the result must be structurally valid, with the expected entries and nothing leaked', 'matrices <=3x2 (3x3 for permutation and symmetric expansion), stacking up to 3x2', 'larger')

P('P27', 'The indirect solver meets its accuracy target or its iteration cap',
  'Each reduced linear solve of the conjugate-gradient backend returns a vector whose residual meets the tolerance derived from the current residuals or stops at its iteration cap, uses the reduced operator built from the current matrices and step sizes, and produces the constraint part as the product with the constraint matrix.',
  ['inputs', 'configurations'], 'all right-hand sides and states', 'tests compare final solutions', ['algebra/mkl/lin_sys/indirect/mkl-cg_interface.c', 'algebra/_common/reduced_kkt.c'], [('solve_linsys_mklcg', 'algebra/mkl/lin_sys/indirect/mkl-cg_interface.c'), ('cg_compute_tolerance', 'algebra/mkl/lin_sys/indirect/mkl-cg_interface.c'), ('reduced_kkt_mv_times', 'algebra/_common/reduced_kkt.c')],
  'symbolic execution with the RCI CG library replaced by its specification', 'n<=2, m<=2', 'MKL RCI internals')

P('P28', 'Solving is deterministic and independent of unobservable history',
  'Two solvers with the same data, settings and starting point produce the same result in every observable field, regardless of how many solves, updates or queries preceded.',
  ['histories', 'inputs'], 'all data and call histories in the bounded grammar', 'tests solve once per solver', [API], [('osqp_solve', API)],
  'differential symbolic execution', 'n<=2, m<=2, <=3 calls', 'rounding')

P('P29', 'Generated embedded code solves like the library',
  'Code generated for a problem compiles stand-alone and its solver produces the same results as the library on the same data.',
  ['inputs', 'programs'], 'all problems', 'tests compile two generated problems', ['src/codegen.c'], [('osqp_codegen', 'src/codegen.c')], '', '', '',
  na='the generated program is text; deciding it needs the generated source to be produced symbolically, and the default backend (MKL) on which the baseline builds does not support code generation: osqp_codegen returns the not-implemented error here')

P('P30', 'Derivative computations equal the true derivatives',
  'The adjoint derivatives of the solution with respect to the problem data equal those of the KKT system.',
  ['inputs'], 'all problems', 'compared with finite differences on a few problems', ['src/derivative.c'], [('osqp_adjoint_derivative_compute', 'src/derivative.c')], '', '', '',
  na='the MKL backend built at this commit implements no derivative solve (the linear-system hook is absent and the call returns the not-implemented error), and the QDLDL derivative path goes through a symbolic AMD ordering and factorisation of a (n+2m)-sized symbolic matrix that the solver cannot discharge')

P('P31', 'An interrupt stops the solve cleanly',
  'An interrupt delivered during a solve makes it stop at the next iteration with the interrupted status, and the previous signal handler is restored after every solve.',
  ['schedules'], 'the iteration at which the interrupt is delivered', 'not tested', [API], [('osqp_is_interrupted', 'src/interrupt_unix.c')],
  'the real signal handler runs on a model of sigaction; SIGINT is raised at a symbolically chosen linear solve', 'n=m=1, <=3 iterations; also solves that fail inside the linear solver', 'delivery between other pairs of instructions')

P('P32', 'The GPU backend behaves as the CPU backends',
  'All other properties hold on the CUDA backend.', ['configurations'], 'the CUDA configuration', 'cannot run without a GPU', ['algebra/cuda'], [('CUDA algebra', 'algebra/cuda')], '', '', '',
  na='CUDA sources cannot be compiled here (no CUDA headers or compiler), so no encoding of the real code can be produced')

P('P33', 'Solvers do not influence each other',
  'Creating, using and destroying one solver never changes what another one computes.',
  ['histories', 'inputs'], 'all interleavings of calls on two solvers in the bounded grammar', 'tests use one solver at a time', [API], [('osqp_algebra_init_libs/free_libs', 'algebra')],
  'differential symbolic execution', 'n=2,m=1, two to three solvers', 'threads')

P('P34', 'Non-convexity is reported exactly when it shows',
  'Setting up with the direct solver fails with the non-convexity error code and status exactly when the quadratic cost together with the regularisation and the penalty terms of the constraints is not positive definite, so every convex problem is accepted; a solve reports the non-convex status exactly when a residual exceeds 1e30, and then the solution, both certificates and the objective are NaN.',
  ['inputs', 'configurations'], 'all quadratic costs, regularisations and constraint types; all starting points of a solve', 'tests try one non-convex matrix with two regularisations',
  ['algebra/mkl/lin_sys/direct/pardiso_interface.c', API, AUX], [('init_linsys_solver_pardiso', 'algebra/mkl/lin_sys/direct/pardiso_interface.c'), ('osqp_setup', API), ('check_termination', AUX), ('store_solution', AUX)],
  'symbolic execution of setup; the inertia the library reports is encoded exactly (sign changes of the characteristic polynomial) and compared with the leading minors of the reduced matrix', 'n<=2, m<=2 (order of the factorised matrix <=3), one or two iterations from an arbitrary starting point', 'matrices whose minors are within 1e-3 of zero (rounding in the factorisation); the indirect solver; matrix updates (the documentation promises detection at the initial factorisation only)')

P('P35', 'Printing never changes a result',
  'A solver that prints its progress computes the same status, iterations, point, certificates and figures as a silent one with the same data and history, including when a limit stops it, and turning printing on or off later changes nothing else.',
  ['configurations', 'histories', 'inputs'], 'all cost vectors, bounds and starting points; all clock readings for the time limit', 'tests run with a fixed verbosity and never compare the two',
  [API, UTIL], [('osqp_solve', API), ('print_summary/print_footer', UTIL)],
  'differential symbolic execution of a printing and a silent solver; the printing functions are executed with the output discarded', 'n<=2, m<=2, <=3 iterations, both linear solvers, scaling, polishing, adaptation, infeasible problems', 'the printed text; the indirect solver beyond 200 iterations (its accuracy follows the printed residuals)')

P('P36', 'Equivalent problems get equivalent answers',
  'Reordering or negating constraints or variables (with their bounds exchanged accordingly), or storing zero entries of the matrices instead of leaving them out, changes the answer in exactly that way and no other: the same status, iterations, residuals, objectives and gap, and the point, multipliers and certificates reordered and negated alike, also after updates, warm starts, scaling and polishing.',
  ['inputs', 'configurations', 'histories'], 'all cost vectors, bounds and starting points of a problem and of its reordered, negated or zero-filled version', 'tests solve each problem in one form only',
  [API, AUX, 'src/scaling.c', 'src/polish.c'], [('osqp_setup/osqp_solve', API), ('osqp_update_data_vec', API), ('form_KKT', 'algebra/_common/kkt.c'), ('polish', 'src/polish.c'), ('scale_data', 'src/scaling.c')],
  'differential symbolic execution of the solver on a problem and on its transformed version', 'n<=2, m<=2, one iteration (two in thorough), direct solver and one job of the indirect one, all bound types, scaling, polishing, both infeasibilities', 'rounding (order of floating-point summation)')
