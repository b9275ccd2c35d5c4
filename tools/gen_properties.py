#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays diffable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
I = "internal/ceres/"; N = "include/ceres/"; NI = "include/ceres/internal/"

prop("C01", "Parallel loops run every index exactly once on any schedule",
 "A parallel loop over [start, end) calls the body exactly once for every index (or hands out disjoint ranges that exactly cover it), returns only after every call has finished, gives concurrently running calls distinct thread ids in [0, num_threads), and never deadlocks or touches the body after returning. This holds for every thread count, minimum block size, partitioning or per-index cost, pool size (including an empty pool), nesting, and several loops sharing one context. When per-index costs are given, the range is split so that the costliest part is as cheap as that number of parts allows.",
 ["schedules", "inputs", "configurations"], "all thread interleavings and all loop shapes",
 "The tests run each loop a few times under whatever schedule the OS picks; an ordering bug needs one particular preemption, and the tests for this code are not even buildable in every environment.",
 [I+"parallel_for.h", I+"parallel_invoke.h", I+"parallel_invoke.cc", I+"partition_range_for_parallel_for.h", I+"context_impl.cc", I+"thread_pool.cc"],
 [("atomic block and thread counters", I+"parallel_invoke.h"), ("BlockUntilFinished", I+"parallel_invoke.cc"), ("partitioning by cumulative cost", I+"partition_range_for_parallel_for.h")],
 [("shared loop state", "next block, next thread id, finished blocks", I+"parallel_invoke.h")], ["calls of the loop body"])

prop("C02", "Work queue, thread pool and tokens lose, duplicate and strand nothing",
 "The blocking work queue behaves as an atomic FIFO: every pushed element is delivered to exactly one taker in order, a blocked taker is woken by a push or by stopping, and stopping drains what is queued before takers fail. A thread pool with at least one thread runs every submitted task exactly once, its destructor returns only after all submitted tasks finished, and it never has more threads than requested; thread tokens held at the same time are distinct and within range.",
 ["schedules", "histories"], "all interleavings of all short client programs",
 "Tests run one or two hand-written client programs under an arbitrary schedule; lost wake-ups and check-then-act races need a particular interleaving.",
 [I+"concurrent_queue.h", I+"thread_pool.cc", I+"thread_pool.h", I+"thread_token_provider.cc", I+"scoped_thread_token.h"],
 [("mutex + condition variable + wait flag", I+"concurrent_queue.h"), ("stop-then-join", I+"thread_pool.cc")],
 [("queue and wait flag", "pending elements; whether takers block", I+"concurrent_queue.h")], ["values returned to takers", "task executions"])

prop("C03", "Parallel evaluation and linear algebra are race-free, schedule-independent",
 "For every thread count and every thread schedule, evaluating a problem (cost, residuals, gradient, Jacobian), matrix-vector products, column norms and scaling, normal-equation and Schur-complement formation, back-substitution and preconditioner construction and covariance blocks perform no data race and no deadlock. Each gives the same result as one thread does (exactly, when the arithmetic is exact), and reports an evaluation failure whenever any cost function fails.",
 ["schedules", "configurations"], "all interleavings within a preemption bound, all small block structures",
 "Tests compare a few multi-threaded results with single-threaded ones on one schedule; a missing lock or shared scratch buffer shows up only on particular interleavings.",
 [I+"program_evaluator.h", I+"program.cc", I+"schur_eliminator_impl.h", I+"partitioned_matrix_view_impl.h", I+"block_sparse_matrix.cc", I+"block_jacobi_preconditioner.cc", I+"parallel_vector_ops.cc", I+"covariance_impl.cc", I+"block_random_access_sparse_matrix.cc"],
 [("per-thread evaluation scratch", I+"program_evaluator.h"), ("per-cell locks and rhs locks", I+"schur_eliminator_impl.h"), ("column locks", I+"block_jacobi_preconditioner.cc"), ("transposed structure instead of locks", I+"block_sparse_matrix.cc")],
 [], ["numerical outputs", "conflicting unsynchronised memory accesses"])

prop("C04", "Whole solves are race-free and equal to the single-threaded solve",
 "Solving a problem with any thread count, on any schedule, takes the same iterations and returns the same parameters, costs and summary as the single-threaded solve (when the arithmetic is exact), with no data race and no deadlock; callbacks are never invoked concurrently. Independent solves running at the same time, including ones that share one context or share thread-safe cost functions, each behave as if they ran alone.",
 ["schedules", "configurations"], "interleavings within a preemption bound of full solves, for each solver family",
 "Tests never run two solves at once and never compare a solve across schedules.",
 [I+"solver.cc", I+"context_impl.cc", I+"execution_summary.h", I+"coordinate_descent_minimizer.cc", I+"program_evaluator.h", I+"thread_pool.cc"],
 [("shared context and thread pool", I+"context_impl.cc"), ("execution summary lock", I+"execution_summary.h"), ("parallel inner iterations on independent sets", I+"coordinate_descent_minimizer.cc")],
 [], ["Solver::Summary", "user parameter memory"])

prop("C05", "Problem bookkeeping matches a plain model after any mutation history",
 "After any sequence of adding and removing parameter and residual blocks, setting blocks constant or variable, setting manifolds and setting bounds, every query on the problem (counts, sizes, tangent sizes, membership, constancy, manifold, bounds, blocks of a residual, residuals of a block, cost and loss of a residual) returns what a simple set-based model predicts, with fast removal on or off. Removing a parameter block removes exactly the residual blocks that use it, and mis-use (unknown or duplicate block, size mismatch, overlapping memory) is rejected with a fatal error instead of being accepted.",
 ["histories", "configurations"], "all operation sequences up to a depth over a small alphabet of blocks",
 "The tests check a handful of scripted histories; index maintenance bugs need specific add/remove orders.",
 [I+"problem_impl.cc", I+"problem_impl.h", I+"parameter_block.h", I+"residual_block.cc", I+"program.cc", N+"problem.h"],
 [("swap-with-last removal and index invariants", I+"problem_impl.cc"), ("parameter to residual dependency sets", I+"parameter_block.h"), ("aliasing check", I+"problem_impl.cc")],
 [("block vectors and pointer map", "which blocks exist and where", I+"problem_impl.h")], ["Problem query methods"])

prop("C06", "Objects handed to a problem are deleted exactly once, and only when due",
 "A cost function, loss function or manifold given to a problem that takes ownership is deleted exactly once: for cost and loss functions as soon as the last residual block using it is gone, for manifolds (even if used by several blocks, replaced, or set on a removed block) at the problem's destruction. Nothing is deleted earlier, nothing is leaked, and with do-not-take-ownership nothing is ever deleted; the same holds for the objects owned by wrapper cost, loss and manifold objects.",
 ["histories", "configurations"], "all mutation histories up to a depth with shared objects and all ownership settings",
 "Tests exercise a few scripted destruction orders; a double delete or leak depends on the sharing pattern and removal order.",
 [I+"problem_impl.cc", N+"loss_function.h", N+"conditioned_cost_function.h", N+"product_manifold.h", N+"cost_function_to_functor.h", N+"tiny_solver_cost_function_adapter.h"],
 [("reference counts for cost and loss functions", I+"problem_impl.cc"), ("manifold deletion list", I+"problem_impl.cc"), ("Ownership argument of wrappers", N+"loss_function.h")],
 [("reference count maps", "number of residual blocks using an object", I+"problem_impl.h")], ["destructor calls of user objects"])

prop("C07", "Problem evaluation equals the mathematical definition, without side effects",
 "Evaluating a problem (whole, or any chosen subset and order of residual and parameter blocks) returns cost = sum of half rho of the squared residual norms, residuals, gradient and sparse Jacobian exactly as the definition gives for the current user values, with loss functions applied or not, manifold tangent Jacobians applied, and constant blocks contributing zero columns and unlisted ones none. It changes no parameter value and no problem state, works again after later changes of the user values, and returns failure exactly when a cost function fails or yields non-finite or unset values.",
 ["inputs", "configurations", "histories"], "all small problem structures, option combinations, subsets and orders",
 "Tests evaluate one or two fixed problems; the subset/order/constant/manifold combinations multiply far beyond them.",
 [I+"problem_impl.cc", I+"program_evaluator.h", I+"residual_block.cc", I+"compressed_row_jacobian_writer.cc", I+"dynamic_compressed_row_jacobian_writer.cc", I+"block_jacobian_writer.cc", I+"dense_jacobian_writer.h", I+"corrector.cc", I+"scratch_evaluate_preparer.cc", I+"block_evaluate_preparer.cc"],
 [("temporary constancy of unlisted blocks", I+"problem_impl.cc"), ("offset and index assignment", I+"program.cc"), ("Jacobian writers for each storage format", I+"compressed_row_jacobian_writer.cc"), ("user-value validity checks", I+"residual_block_utils.cc")],
 [], ["Problem::Evaluate and EvaluateResidualBlock outputs"])

prop("C08", "A solve never returns a worse point, and failures restore the start",
 "Whatever cost functions, manifolds and callbacks answer during a solve (success, failure, non-finite values, at any call), the solve terminates and: if the result is declared usable the user's parameters have a cost no larger than the initial cost and equal to the reported final cost; otherwise the parameters hold exactly their initial values. The reported initial and final costs, iteration history, step counts and termination type are consistent with each other and with the problem's actual values.",
 ["fault_sequences", "configurations"], "all fault patterns within a bound over the evaluations of a solve, for every minimizer configuration",
 "Tests inject a failure at one or two fixed calls; the outcome depends on which call fails, how, and in what solver configuration.",
 [I+"solver.cc", I+"trust_region_minimizer.cc", I+"line_search_minimizer.cc", I+"coordinate_descent_minimizer.cc", I+"solver_utils.cc", I+"residual_block.cc", I+"callbacks.cc", I+"gradient_problem_solver.cc"],
 [("best-point tracking and restore on failure", I+"solver.cc"), ("candidate acceptance", I+"trust_region_minimizer.cc"), ("final cost summary", I+"solver_utils.cc")],
 [("best point so far", "what is handed back to the user", I+"trust_region_minimizer.cc")], ["user parameter memory after Solve", "Solver::Summary"])

prop("C09", "Solves respect constant blocks, bounds, manifolds and fixed costs",
 "A solve changes only the memory of parameter blocks that are variable and part of the problem: constant blocks, coordinates held constant by a subset manifold, and memory outside the blocks stay bit-identical, also in everything cost functions observe. Every point at which residuals are evaluated and every returned point satisfies the declared bounds (a variable block that starts outside them is projected first) and stays on the manifold. Non-finite starting values, a constant block outside its bounds, an empty bound interval, or bounds given to the line search minimizer are reported as failure without evaluating or changing anything. Reported costs include residuals that depend only on constant blocks, and the reduced problem size counts exactly what is left after removing them.",
 ["configurations", "inputs"], "all assignments of constant/variable/bounded/manifold status over small problems and all solver families",
 "Tests fix one block constant in one problem; the interactions of constancy, bounds, manifolds and solver type are not enumerated.",
 [I+"program.cc", I+"parameter_block.h", I+"preprocessor.cc", I+"trust_region_preprocessor.cc", I+"line_search_preprocessor.cc", I+"reorder_program.cc", I+"trust_region_minimizer.cc"],
 [("removal of fixed blocks with fixed cost", I+"program.cc"), ("projection of Plus onto bounds", I+"parameter_block.h"), ("feasibility checks", I+"program.cc")],
 [], ["parameter pointers seen by cost functions", "user memory after Solve"])

prop("C10", "Iteration and evaluation callbacks follow their contract",
 "Iteration callbacks run in order after every iteration, including the initial one, with consecutive iteration numbers and a summary matching the recorded history; abort and terminate requests stop the solve at that iteration with user-failure or user-success, and with per-iteration state update on, the user's parameters hold the best point so far whenever a callback runs. An evaluation callback is always invoked before the cost functions of an evaluation, with the user's parameters already holding the point evaluated, flagged as a new point whenever that point differs from the previous one, and with Jacobians announced whenever any will be requested.",
 ["histories", "configurations"], "all callback return patterns at all iterations, for every minimizer configuration",
 "Tests script one return value at one iteration for the trust region minimizer.",
 [I+"callbacks.cc", I+"minimizer.cc", I+"trust_region_minimizer.cc", I+"line_search_minimizer.cc", I+"program_evaluator.h", I+"problem_impl.cc", I+"solver.cc", N+"evaluation_callback.h", N+"iteration_callback.h", I+"gradient_problem_evaluator.h"],
 [("callback dispatch", I+"minimizer.cc"), ("state updating callback", I+"callbacks.cc"), ("new-evaluation-point tracking", I+"program_evaluator.h")],
 [], ["callback arguments and order"])

prop("C11", "The trust region loop accepts, rejects and terminates only as specified",
 "For every sequence of answers of evaluator and step strategy, the trust region loop accepts a step exactly when its quality against the configured (monotonic or windowed non-monotonic) reference exceeds the threshold, moves only on acceptance, records each iteration truthfully, keeps the best point, stops at the configured iteration, time, tolerance, radius or invalid-step limits with the matching termination type, and notifies the strategy of exactly one verdict per step. The Levenberg-Marquardt and dogleg strategies update radius and damping according to their published rules, keep them within the configured limits, produce steps within the region, and recover from linear solver failure.",
 ["histories", "fault_sequences"], "all answer sequences up to a depth over small alphabets of costs, qualities and solver results",
 "Tests follow single trajectories; the acceptance automaton has many paths (invalid, non-monotonic, failing, tie) that need particular answer sequences.",
 [I+"trust_region_minimizer.cc", I+"trust_region_step_evaluator.cc", I+"levenberg_marquardt_strategy.cc", I+"dogleg_strategy.cc"],
 [("step evaluator for non-monotonic steps", I+"trust_region_step_evaluator.cc"), ("radius updates", I+"levenberg_marquardt_strategy.cc"), ("diagonal scaling and mu retries", I+"dogleg_strategy.cc")],
 [("radius, decrease factor, diagonal, reference costs", "state of the acceptance automaton", I+"levenberg_marquardt_strategy.cc")], ["iteration summaries, strategy notifications"])

prop("C12", "Line searches return only points that satisfy their stated conditions",
 "For every sequence of function answers (values, slopes, invalid evaluations), a line search that reports success returns an evaluated point that satisfies the sufficient decrease condition and, for Wolfe, also the strong curvature condition (or, when its evaluation limit or minimum bracket width cuts it short, the best evaluated point with sufficient decrease, the start included), within the configured step limits; otherwise it reports failure with a reason. Both happen within the configured number of evaluations. Polynomial interpolation and minimisation used for choosing steps reproduce the samples and return a minimiser over the given interval, and the search directions derived from gradient history are descent directions or trigger a restart.",
 ["fault_sequences", "histories", "inputs"], "all answer sequences up to the evaluation limit over a small value alphabet",
 "Tests do not drive the line searches directly; they only see them through a few smooth test functions.",
 [I+"line_search.cc", I+"line_search_minimizer.cc", I+"line_search_direction.cc", I+"low_rank_inverse_hessian.cc", I+"polynomial.cc", I+"function_sample.cc"],
 [("Armijo and Wolfe bracketing and zoom", I+"line_search.cc"), ("L-BFGS and BFGS updates", I+"line_search_direction.cc"), ("interpolating polynomial minimisation", I+"polynomial.cc")],
 [], ["LineSearch summary, evaluated steps"])

prop("C13", "Option combinations are either rejected with a reason or solved correctly",
 "For every combination of minimizer, strategy, linear solver, preconditioner, library, ordering and numeric option values, validation accepts exactly the documented-valid combinations with an empty effect on the solve and otherwise gives a non-empty reason and a failed solve that leaves everything untouched. Every accepted combination that the build supports runs without crashing and reaches the minimum of a well-posed small problem, and every public enum value converts to a name and back unchanged while unknown names are refused.",
 ["configurations"], "the full product of enum options and boundary numeric values",
 "Tests validate a few hand-picked combinations; the product space is thousands of combinations.",
 [I+"solver.cc", I+"types.cc", I+"trust_region_preprocessor.cc", I+"line_search_preprocessor.cc", I+"linear_solver.cc", I+"gradient_problem_solver.cc", N+"solver.h", N+"types.h"],
 [("option validity predicates", I+"solver.cc"), ("alternate linear solver and preconditioner when ordering is empty", I+"trust_region_preprocessor.cc"), ("enum name tables", I+"types.cc")],
 [], ["Solver::Options::IsValid, Solver::Summary"])

prop("C14", "All linear solvers compute the same regularised least squares step",
 "Every linear solver configuration (dense QR, dense and sparse normal Cholesky, dense, sparse and iterative Schur, CGNR; with every preconditioner, fill-reducing ordering, mixed precision, dynamic sparsity, explicit or implicit Schur complement) applied to the same full-rank regularised system returns success and the same solution up to its stated accuracy, repeatedly on the same solver object with changed values. An iterative solver stopped early returns the same step with the explicit and the implicit Schur complement. A rank-deficient system makes a factorization fail, and a non-finite system never makes a trust region step count as computed when it is not finite.",
 ["inputs", "configurations"], "all small block structures with all solver configurations",
 "Tests use a couple of fixed matrices per solver.",
 [I+"linear_solver.cc", I+"dense_qr_solver.cc", I+"dense_normal_cholesky_solver.cc", I+"sparse_normal_cholesky_solver.cc", I+"dynamic_sparse_normal_cholesky_solver.cc", I+"schur_complement_solver.cc", I+"iterative_schur_complement_solver.cc", I+"cgnr_solver.cc", I+"eigensparse.cc", I+"sparse_cholesky.cc", I+"dense_cholesky.cc", I+"dense_qr.cc", I+"iterative_refiner.cc", I+"subset_preconditioner.cc", I+"visibility_based_preconditioner.cc"],
 [("solver factory", I+"linear_solver.cc"), ("reuse of symbolic factorisation", I+"sparse_cholesky.cc")],
 [], ["LinearSolver::Solve result"])

prop("C15", "Sparse matrix operations equal their dense definitions",
 "For every block structure, all operations of the block-sparse, compressed-row, triplet, dense and dynamic matrices and partitioned views (products with and without transpose, column norms, scaling, row append and delete, transposition, conversion, diagonal blocks, inner products, file-independent dumps) give exactly what the equivalent dense matrix gives, and leave everything else unchanged. Structure detection reports exactly the common block sizes.",
 ["inputs", "histories"], "all block structures up to a bound and all operation sequences up to a depth",
 "Tests use one or two fixed structures; off-by-one errors hide in empty rows, rows with several cells of mixed sizes, zero-size partitions and repeated append/delete.",
 [I+"block_sparse_matrix.cc", I+"compressed_row_sparse_matrix.cc", I+"triplet_sparse_matrix.cc", I+"dense_sparse_matrix.cc", I+"dynamic_compressed_row_sparse_matrix.cc", I+"partitioned_matrix_view_impl.h", I+"inner_product_computer.cc", I+"block_structure.cc", I+"detect_structure.cc", I+"compressed_col_sparse_matrix_utils.cc"],
 [("cell position arithmetic", I+"block_sparse_matrix.cc"), ("program-of-offsets inner product", I+"inner_product_computer.cc")],
 [], ["matrix outputs"])

prop("C16", "Small dense kernels are exact for every shape and stay in bounds",
 "The small matrix-matrix and matrix-vector kernels compute C op A*B (and the transposed and block-inside-larger-matrix variants) for every size, compile-time or run-time dimensioned, every accumulate/subtract/assign mode and every placement inside a larger matrix, and write nothing outside the target block. The symmetric inverse of small positive (semi)definite matrices and the triangular index enumeration behind parallel loops satisfy their definitions for every size.",
 ["inputs"], "all shapes and offsets up to a bound, both static and dynamic dimensions",
 "Tests try a couple of shapes; unrolled and remainder paths depend on sizes modulo four and on static-versus-dynamic dimensions.",
 [I+"small_blas.h", I+"small_blas_generic.h", I+"invert_psd_matrix.h", I+"parallel_utils.cc", I+"eigen_vector_ops.h"],
 [("unrolled kernels with remainders", I+"small_blas_generic.h"), ("static/dynamic dispatch", I+"small_blas.h")],
 [], ["output buffers including guard bands"])

prop("C17", "Schur elimination and back-substitution match dense elimination",
 "For every block structure with any number of eliminated blocks, the reduced matrix and right-hand side produced by elimination equal the dense Schur complement of the regularised normal equations, back-substitution yields the full least squares solution, and the implicit operator multiplies like that complement and its diagonal-based preconditioners invert what they claim to. This holds for the specialised and generic block sizes, with and without diagonal regularisation, dense, sparse or diagonal storage, and repeated use on new values.",
 ["inputs", "configurations"], "all small bipartite structures and all specialised sizes",
 "Tests use two fixed problems and do not run most of the generated specialisations.",
 [I+"schur_eliminator_impl.h", I+"schur_eliminator.cc", I+"schur_templates.cc", I+"implicit_schur_complement.cc", I+"block_random_access_dense_matrix.cc", I+"block_random_access_sparse_matrix.cc", I+"block_random_access_diagonal_matrix.cc", I+"partitioned_matrix_view.cc", I+"power_series_expansion_preconditioner.cc", I+"schur_jacobi_preconditioner.cc", I+"block_jacobi_preconditioner.cc"],
 [("chunked elimination with buffer layout", I+"schur_eliminator_impl.h"), ("specialisation selection", I+"schur_templates.cc")],
 [], ["reduced system, solution vectors"])

prop("C18", "Dual-number arithmetic obeys the chain rule for every composed expression",
 "For every expression built from the supported operators and functions over dual numbers, scalars and mixtures of them, the value equals plain evaluation and the derivative equals the analytic derivative, including at boundary arguments where a derivative exists; comparison, classification, min/max and rounding functions depend on the value part exactly as for scalars. In-place compound operators, aliased operands and nested dual numbers behave like their expanded forms.",
 ["programs", "inputs"], "all expression trees up to a depth over a small argument alphabet",
 "Tests check each function alone at a few random points; compositions, aliasing and edge arguments are not enumerated.",
 [N+"jet.h", N+"jet_fwd.h", NI+"jet_traits.h"],
 [("operator and function overloads", N+"jet.h"), ("promotion traits", NI+"jet_traits.h")],
 [], ["a and v parts of results"])

prop("C19", "Automatic derivatives are exact for every request pattern",
 "For automatically differentiated cost functions, first-order functions, manifolds, and the dynamic, wrapped (functor) and tiny-solver variants, any number and size of parameter blocks and residuals, and any subset of requested Jacobian blocks, the residuals equal the functor's and every requested Jacobian block equals the exact derivative; unrequested blocks are not touched and a failing functor is reported. Results do not depend on the stride, the pass count or which blocks were requested together.",
 ["inputs", "configurations"], "all block shapes up to a bound with all subsets of requested Jacobians",
 "Tests use a few shapes and mostly request all Jacobians.",
 [N+"autodiff_cost_function.h", N+"dynamic_autodiff_cost_function.h", NI+"autodiff.h", N+"autodiff_first_order_function.h", N+"autodiff_manifold.h", N+"cost_function_to_functor.h", N+"dynamic_cost_function_to_functor.h", N+"tiny_solver_autodiff_function.h", N+"tiny_solver_cost_function_adapter.h", N+"conditioned_cost_function.h", N+"normal_prior.h", NI+"variadic_evaluate.h", NI+"parameter_dims.h", NI+"integer_sequence_algorithm.h"],
 [("jet seeding and extraction", NI+"autodiff.h"), ("multi-pass strided evaluation", N+"dynamic_autodiff_cost_function.h")],
 [], ["residual and Jacobian buffers with guards"])

prop("C20", "Numeric differentiation and gradient checking report the truth",
 "Numeric differentiation (forward, central, Ridders; static or dynamic; first-order functions) evaluates only at legal perturbations of the given point, restores the parameters, is exact to rounding on functions its order integrates exactly, honours any subset of requested Jacobians, and fails when the functor fails at any perturbation. The gradient checker and solver-level gradient checking accept a cost function exactly when all of its requested Jacobians agree with numeric ones within tolerance, for every shape, manifold and position of the error.",
 ["inputs", "configurations", "fault_sequences"], "all shapes, methods, request subsets, failing-call positions and single-entry errors",
 "Tests use smooth random functions and one wrong entry.",
 [N+"numeric_diff_cost_function.h", N+"dynamic_numeric_diff_cost_function.h", NI+"numeric_diff.h", N+"numeric_diff_first_order_function.h", I+"gradient_checker.cc", I+"gradient_checking_cost_function.cc", N+"gradient_checker.h"],
 [("perturb, evaluate, restore", NI+"numeric_diff.h"), ("comparison against numeric Jacobian", I+"gradient_checker.cc")],
 [], ["functor arguments, Jacobians, checker verdicts"])

prop("C21", "Loss functions and robust correction have the stated shape and derivatives",
 "Every loss function and every composition, scaling, weighting or swap of loss functions returns a value, first and second derivative that are mutually consistent and equal to the documented formula on both sides of its transition points, with value 0 and slope 1 (times scale) at zero for unscaled losses. Robust correction of residuals and Jacobian gives the exact robustified gradient and the documented Gauss-Newton Hessian, for any residual count, including zero residuals and concave losses, without producing non-finite numbers.",
 ["inputs", "programs"], "a grid of squared norms including transition points, for all loss compositions up to a depth",
 "Tests compare derivatives at a few points of each loss.",
 [I+"loss_function.cc", N+"loss_function.h", I+"corrector.cc", I+"residual_block.cc"],
 [("closed-form rho and derivatives", I+"loss_function.cc"), ("Triggs correction", I+"corrector.cc")],
 [], ["rho values, corrected residuals and Jacobian"])

prop("C22", "Manifolds satisfy their axioms at every point and composition",
 "For every built-in manifold and any product or nesting of them: moving by zero stays put, the difference of a moved point and its origin recovers the move, moving by the difference of two points reaches the second, results stay on the manifold, and the plus and minus Jacobians equal the derivatives of these maps and are mutual inverses on the tangent space. Subset manifolds never change a fixed coordinate, and products act block by block.",
 ["inputs", "configurations"], "a grid of points and tangent vectors including singular directions, all subsets and products up to a bound",
 "Tests use random points; near-zero steps, antipodal points, pole directions and product nesting are not enumerated.",
 [I+"manifold.cc", N+"manifold.h", N+"product_manifold.h", N+"sphere_manifold.h", N+"line_manifold.h", NI+"sphere_manifold_functions.h", NI+"householder_vector.h", N+"autodiff_manifold.h"],
 [("closed-form plus/minus and Jacobians", I+"manifold.cc"), ("block offsets in products", N+"product_manifold.h")],
 [], ["Plus, Minus, Jacobian outputs"])

prop("C23", "Rotation conversions are mutually consistent everywhere",
 "All conversions between angle-axis, quaternion, rotation matrix and Euler angles describe the same rotation, in either storage order and for every axis convention; rotating a point by any representation gives the same result, inputs may alias outputs where allowed, and products of quaternions compose rotations. This holds at and around zero rotation, half turns and gimbal lock, for scalars and for dual numbers with finite, correct derivatives.",
 ["inputs"], "a grid of rotations including all special angles and axes, all conversion pairs",
 "Tests check random rotations and a few special cases per function.",
 [N+"rotation.h", NI+"euler_angles.h"],
 [("branching conversions", N+"rotation.h"), ("axis convention table", NI+"euler_angles.h")],
 [], ["converted rotations"])

prop("C24", "Grid interpolation reproduces its data, clamps outside, has true derivatives",
 "One- and two-dimensional cubic interpolation returns the stored sample exactly at every grid point, reproduces every polynomial of degree two away from the border, clamps to the border outside the grid, and reports derivatives equal to those of the interpolated function, for any data dimension, storage order, interleaving and nonzero origin. It reads no sample outside the grid.",
 ["inputs"], "all small grids, data layouts and query positions on a fine lattice",
 "Tests use a couple of grids and polynomials.",
 [N+"cubic_interpolation.h"],
 [("Catmull-Rom spline", N+"cubic_interpolation.h"), ("index clamping", N+"cubic_interpolation.h")],
 [], ["interpolated values and derivatives, grid reads"])

prop("C25", "Covariance blocks equal the definition for any request and structure",
 "For every full-rank problem, the covariance of any requested list of parameter block pairs (any order, either orientation or both) equals the corresponding block of the inverse of J'J at the current point, in ambient or tangent space, zero for constant blocks, and transposed consistently, with every algorithm. Rank deficiency beyond the allowance and a failing evaluation make the computation fail, within the allowance the dense algorithm gives the pseudo inverse, querying something not computed is refused, and the problem is left unchanged.",
 ["inputs", "configurations", "histories"], "all small problem structures, constancy patterns and request lists",
 "Tests use one fixed problem with a few request lists.",
 [I+"covariance_impl.cc", I+"covariance.cc", N+"covariance.h", I+"compressed_col_sparse_matrix_utils.cc"],
 [("sparse QR and dense SVD paths", I+"covariance_impl.cc"), ("row/column block ordering by address", I+"covariance_impl.cc")],
 [], ["covariance blocks and matrices"])

prop("C26", "Elimination orderings and graph clusterings are valid for every structure",
 "For every graph or problem up to a bound: independent-set orderings cover every vertex once with a truly independent leading set, group and ordering containers behave like a map from element to group under any history, trees and clusterings are maximal-weight forests / threshold clusterings of the input, and reordering a problem for Schur elimination yields a permutation in which eliminated blocks come first and residuals are grouped by eliminated block. User-given orderings are honoured, completed or rejected as documented, and the choice never changes what is being minimised.",
 ["inputs", "histories"], "all graphs up to a vertex bound, all container histories up to a depth",
 "Tests use one or two small graphs.",
 [I+"graph.h", I+"graph_algorithms.h", I+"parameter_block_ordering.cc", I+"reorder_program.cc", N+"ordered_groups.h", I+"single_linkage_clustering.cc", I+"canonical_views_clustering.cc", I+"visibility.cc", I+"coordinate_descent_minimizer.cc"],
 [("greedy independent set", I+"graph_algorithms.h"), ("lexicographic residual ordering", I+"reorder_program.cc"), ("group bookkeeping", N+"ordered_groups.h")],
 [], ["orderings, groups, clusters"])

prop("C27", "The tiny solver converges or reports truthfully and never worsens the point",
 "For every sequence of values (finite or not) that a succeeding user function may return, the header-only small solver terminates within its iteration limit, leaves the argument at a point whose cost is the reported final cost and no larger than the initial cost, reports the initial cost and gradient truthfully, claims a convergence reason only when that criterion holds at the returned point, and can be reused for problems of other sizes. Static and dynamic sizes behave identically.",
 ["fault_sequences", "inputs", "configurations"], "all answer sequences up to a depth and all size configurations up to a bound",
 "Tests solve one or two well-behaved problems per size configuration.",
 [N+"tiny_solver.h", N+"tiny_solver_autodiff_function.h", N+"tiny_solver_cost_function_adapter.h"],
 [("LM loop with scaling and damping", N+"tiny_solver.h")],
 [("x, residuals, Jacobian, u, v", "current linearisation and damping", N+"tiny_solver.h")], ["TinySolver summary and x"])

prop("C28", "General minimisation and the C interface give the same guarantees",
 "Minimising a first-order function (with or without a manifold) under every line search configuration and every pattern of evaluation failures terminates, never returns a point with a larger cost than the start, restores the start on failure, reports costs, gradients and iterations truthfully and obeys callbacks. The C interface builds and solves the same problem as the C++ interface, with the same block order, robust losses and results.",
 ["fault_sequences", "configurations"], "all fault patterns within a bound for every line search configuration; all small C programs",
 "Tests minimise one function with default options and fit one curve through the C interface.",
 [I+"gradient_problem_solver.cc", I+"gradient_problem.cc", I+"gradient_problem_evaluator.h", I+"line_search_minimizer.cc", I+"c_api.cc", N+"c_api.h", N+"gradient_problem.h"],
 [("gradient problem evaluator", I+"gradient_problem_evaluator.h"), ("C wrappers", I+"c_api.cc")],
 [], ["GradientProblemSolver::Summary, parameters"])

prop("C29", "Memory is safe and no operation is undefined, whatever the user code does",
 "No use of the library that its documentation allows reads or writes outside the memory it was given or owns, uses memory after release, reads a value nobody has set in a way that changes a result, or performs an undefined operation (integer overflow, invalid shift, misaligned access, invalid enumeration value). This includes user functions that fail or return non-finite values, empty and degenerate problems, blocks of any size, requests for any subset of outputs, and any order of building, changing, solving and destroying.",
 ["inputs", "fault_sequences", "operation_histories"], "all executions of the small scenarios of every part, with all fault positions and histories within a bound",
 "A wrong access is silent unless it happens to hit something that matters; tests only run it by chance and without instrumentation.",
 [I+"problem_impl.cc", I+"program_evaluator.h", I+"trust_region_minimizer.cc", I+"line_search_minimizer.cc", I+"schur_eliminator_impl.h", I+"visibility_based_preconditioner.cc", I+"covariance_impl.cc", I+"small_blas.h", I+"c_api.cc", NI+"autodiff.h", NI+"numeric_diff.h", N+"cubic_interpolation.h", N+"tiny_solver.h", N+"rotation.h"],
 [("evaluation scratch space", I+"scratch_evaluate_preparer.cc"), ("block kernels", I+"small_blas.h"), ("covariance values", I+"covariance_impl.cc"), ("jet arrays", NI+"autodiff.h")],
 [], ["sanitizer reports", "not-a-number from fresh memory in any result"])

prop("C30", "What a problem does depends on its content, not on its history",
 "Solving, evaluating or computing covariances leaves a problem as it was except for the values of its variable blocks; options, orderings and callbacks can be used again. After any history of solves (successful, aborted, failing or refused), evaluations, covariance computations and changes, every operation gives exactly the results that a problem built afresh with the same content gives, bit for bit on one thread, wherever the memory allocator placed things. Problems that share parameter memory, cost functions, losses, manifolds or a context do not otherwise affect each other.",
 ["operation_histories"], "all histories of solves, evaluations and changes to a length, each step compared with a fresh replica",
 "Tests build a problem, use it once and destroy it; state left behind by an earlier operation only shows in particular sequences.",
 [I+"solver.cc", I+"problem_impl.cc", I+"parameter_block.h", I+"residual_block.cc", I+"program.cc", I+"trust_region_preprocessor.cc", I+"line_search_preprocessor.cc", I+"preprocessor.cc", I+"reorder_program.cc", I+"parameter_block_ordering.cc", I+"coordinate_descent_minimizer.cc", I+"covariance_impl.cc", I+"gradient_checking_cost_function.cc"],
 [("states restored after a solve", I+"solver.cc"), ("reduced program", I+"program.cc"), ("parameter block state and index", I+"parameter_block.h"), ("orderings", I+"parameter_block_ordering.cc")],
 [("block states, indices, constancy", "where values are read and which columns they have", I+"parameter_block.h")], ["Summary, evaluation results, covariances, values, user orderings"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
