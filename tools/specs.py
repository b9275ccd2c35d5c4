"""What each check is made of."""

COMMON_ASSUMPTIONS = [
    "absl/log is replaced by a stand-in (shim/): CHECKs and DCHECKs are evaluated, logging is off",
    "g++ 13 without -ffast-math on x86-64; the explorer (mc/) and the reference models in harness/ are trusted",
    "inputs outside the enumerated alphabet and bounds are not covered",
]


def H(name, source, flavour="plain", lib="none", weight=1, **kw):
    d = dict(name=name, sources=source if isinstance(source, list) else [source], flavour=flavour, lib=lib, weight=weight)
    d.update(kw)
    return d


def M(name, source, scenarios=None, lib="core", weight=1, **kw):
    """A harness of another check under address and undefined behaviour sanitizers;
    fresh heap memory is filled with not-a-number / -1, which the oracles notice."""
    d = H(name + "m", source, "asan", lib, weight, light=True, env={
        "ASAN_OPTIONS": "malloc_fill_byte=255:max_malloc_fill_size=1048576:malloc_context_size=4:quarantine_size_mb=16"}, **kw)
    if scenarios:
        d["scenarios"] = scenarios
    return d


PAR = ["parallel_invoke.cc", "thread_pool.cc", "context_impl.cc", "context.cc", "thread_token_provider.cc", "parallel_vector_ops.cc"]

CHECKS = {
    "C01": dict(
        harnesses=[H("c01", "harness/c01_parallel_for.cc", "tsan", PAR)],
        rule="every loop shape x every thread schedule of the real code up to the preemption bound; executions are distinct "
             "by choice sequence, distinct_nontrivial counts distinct observed outcomes",
        bounds="0-6 items, 1-3 threads, pool 0-2, minimum block 1-3 with 0 preemptions; up to 3 items with 1; two threads with 2 and "
               "a spurious wake-up; nested and concurrent loops with 0-1 (thorough: larger)",
        technique="stateless model checking of the real code under a controlled scheduler (preemption-bounded DFS) with happens-before race detection",
    ),
    "C02": dict(
        harnesses=[H("c02", "harness/c02_queue_pool.cc", "tsan", PAR)],
        rule="every small concurrent program over the queue, pool and token operations x every schedule up to the preemption bound; "
             "call/return histories are checked for linearizability by brute force",
        bounds="2-4 threads with 1-2 operations each, 1-4 preemptions, one spurious wake-up; pools of 1-3 threads, up to 3 tasks and 2 nested ones; "
               "single-threaded sequences of 8 (10) operations",
        technique="stateless model checking of the real code under a controlled scheduler, brute-force linearizability, happens-before race detection",
    ),
    "C03": dict(
        harnesses=[H("c03", "harness/c03_parallel.cc", "tsan", "core")],
        rule="every parallel operation x small block structures x thread counts x every schedule of the real code up to the preemption bound, with happens-before race detection; "
             "results compared with one thread; distinct by result, number of synchronisation operations and switches",
        bounds="14 matrix, 7 Schur, 5 vector operations, 5 evaluators with a failing block anywhere, covariance; structures of 2-5 row blocks; 2-3 threads, pool 1-2; 1 preemption "
               "for all structures and 2 for three of them (evaluation 0 and 1; thorough: one more)",
        technique="stateless model checking of the real code under a controlled scheduler (preemption-bounded DFS) with happens-before race detection",
    ),
    "C04": dict(
        harnesses=[H("c04", "harness/c04_solves.cc", "tsan", "core")],
        rule="every solver family x threads x scheduling policy x every schedule within the deviation bound, with happens-before race detection, and two solves or evaluations at "
             "a time; compared with the single-threaded solve; distinct by result, number of synchronisation operations and switches",
        bounds="18 solver configurations, 2 structures, 2-3 threads, 1-2 (4) iterations; four base policies with 0-1 deviations; two concurrent solves sharing nothing, a context or "
               "cost functions; results compared to 1e-8 (sums are reordered)",
        technique="stateless model checking of the real code under a controlled scheduler (preemption- and delay-bounded DFS) with happens-before race detection",
    ),
    "C26": dict(
        harnesses=[H("c26g", "harness/c26_graphs.cc", lib="full"), H("c26p", "harness/c26_problems.cc", lib="full", weight=2)],
        rule="every history of the containers, every small (weighted) graph, every small problem with every ordering; distinct by graph, problem and result",
        bounds="container histories of 5-6 (6-7) operations with visited-state pruning; graphs of up to 5 (6) vertices with up to 3 weights; problems of 4 blocks",
        technique="exhaustive exploration of the real code over all small graphs, problems and operation histories, against definitions",
    ),
    "C13": dict(
        harnesses=[H("c13", "harness/c13_options.cc", lib="full")],
        rule="the full product of the enum options and switches of the trust region minimizer and of the line search minimizer, every pair of numeric options x boundary values, every name "
             "in every spelling; validation compared with the documented rules, every accepted combination solved; distinct by options",
        bounds="7 linear solvers, 7 preconditioners, 5 sparse and 3 dense libraries (Eigen built), 3 strategies, all switches, 4 orderings; 32 numeric options with 5-13 values, pairwise, in six modes; "
               "one small problem, linear and nonlinear, 1 thread",
        technique="exhaustive exploration of the real code over the full product of configurations within bounds, against the documented rules",
    ),
    "C28": dict(
        harnesses=[H("c28", "harness/c28_gradient.cc", lib="full"), H("c28c", "harness/c28_capi.cc", lib="full")],
        rule="every sequence of answers of a lazily decided function, and of faults of real functions and manifolds, for every line search method; every option value paired with every "
             "other against the line search minimizer of the same least squares problem; every small C program against the same C++ program; distinct by result",
        bounds="30 line search methods; 2-5 (3-10) iterations, 3-6 line search steps; 1-2 (2-3) faults anywhere; 5 manifolds; C programs of up to 4 calls",
        technique="exhaustive exploration of the real code over all answer and fault sequences within bounds, against the definitions and the sibling implementation",
    ),
    "C16": dict(
        harnesses=[H("c16", ["harness/c16_gemm.cc", "harness/c16_gemv.cc", "harness/c16_psd.cc"], "plain", ["parallel_utils.cc"])],
        rule="every kernel x every size, placement, operation and fill pattern up to the bound; an execution is "
             "non-trivial by construction and distinct by the values it produced",
        bounds="kernel sizes up to 7-9 per dimension (11-17 for matrix-vector), placements 0..5, all three store modes; "
               "Gram matrices of all {-1,0,1,2} factors up to 3x3 and bidiagonal factors up to 6x6 (8x8); triangular index n<=180 (700) "
               "and the four sizes near the int range",
        technique="exhaustive bounded exploration of the real kernels against a reference model (explicit enumeration of every input shape)",
    ),
    "C18": dict(
        harnesses=[H("c18", "harness/c18_jets.cc", weight=4), H("c18b", "harness/c18_jets20.cc", cxxflags=["-std=c++20"])],
        rule="every operation x boundary values x derivative patterns x sizes, and every expression tree up to the depth bound at "
             "25 points; distinct by computed value or derivative",
        bounds="45 boundary and extreme values per argument, N in {1,2,3,4,5,8}, trees of depth 3 (4 one-sided in thorough) over 60 operations, "
               "nesting depth 2",
        technique="exhaustive enumeration of bounded expression trees executed on the real dual numbers, against an independent long double model",
    ),
    "C27": dict(
        harnesses=[H("c27", "harness/c27_tiny.cc", lib=["cost_function.cc"])],
        rule="every answer sequence of the user function over a small alphabet of residuals and Jacobians (finite, zero, huge, tiny, NaN, inf); "
             "distinct by status, iteration count and final values",
        bounds="1-3 residuals, 1-2 parameters, up to 4 (5) iterations, 3-9 residual and 3-6 Jacobian answers per point, four option sets; "
               "six real functions x 12 starts x 5 limits; reuse sequences of length 3 (4)",
        technique="exhaustive exploration of the real solver against an adversarial environment (all answer sequences), monitored by an independent judge",
    ),
    "C21": dict(
        harnesses=[H("c21", "harness/c21_loss.cc", lib=["loss_function.cc", "corrector.cc"])],
        rule="every loss, composition, scaling and wrapper history x arguments hugging every transition point; every corrector "
             "shape x rho triple x residual pattern; distinct by computed values",
        bounds="8 losses x 6 scales x 50 arguments, all 64 pairs and all depth-3 arrangements of compositions and scalings, wrapper "
               "histories of length 4 (6), corrector up to 4 residuals x 3 (4) columns",
        technique="exhaustive bounded exploration of the real code (all compositions, histories and shapes) against long double definitions",
    ),
    "C19": dict(
        harnesses=[H("c19", ["harness/c19_static.cc", "harness/c19_dynamic.cc", "harness/c19_others.cc"],
                     lib=["cost_function.cc", "dynamic_cost_function_to_functor.cc", "conditioned_cost_function.cc", "normal_prior.cc", "manifold.cc"])],
        rule="every block structure, stride and subset of requested Jacobians, on integer polynomials whose derivatives are exact; "
             "distinct by shape, request and values",
        bounds="18 compile-time shapes (up to 10 blocks, 60 parameters, 25 residuals), dynamic shapes up to 4 (5) blocks of size <= 4 with 7 strides, all "
               "request masks, all failing calls <= 6, compositions through wrapped cost functions with up to 6 blocks",
        technique="exhaustive bounded exploration of the real code over all shapes and request patterns, compared exactly with hand-written derivatives",
    ),
    "C20": dict(
        harnesses=[H("c20", ["harness/c20_numeric.cc", "harness/c20_checker.cc"],
                     lib=["cost_function.cc", "gradient_checker.cc", "manifold.cc", "is_close.cc", "array_utils.cc"])],
        rule="every shape, method, option set, request subset and failing call; every position and size of a single error for the checker; "
             "every functor call is monitored; distinct by result, calls and shape",
        bounds="7 compile-time shapes and all dynamic shapes up to 3 blocks of size <= 3, 4 magnitudes of the point, 3 option sets, failure at any of "
               "the first 11 calls; checker: up to 2 (3) blocks, 4 manifold choices per block, 5 error magnitudes at every position",
        technique="exhaustive exploration of the real code against a fault-injecting, monitored environment (all shapes, requests, failing calls and error positions)",
    ),
    "C22": dict(
        harnesses=[H("c22", "harness/c22_manifolds.cc", lib=["manifold.cc"])],
        rule="every built-in manifold x lattice and near-pole points x tangent vectors, every pair of lattice points, every subset, every product "
             "of up to four parts and nestings; distinct by values produced",
        bounds="{-1,0,1} lattice directions in 2-5 dimensions at three scales, six offsets from the poles, tangent lengths 1e-170..3.1, subsets of up "
               "to 5 (6) coordinates, all products of 2-4 of nine parts, three nestings; spheres and lines of radius below 0.25 are not covered",
        technique="exhaustive bounded exploration of the real code (all lattice points, compositions and subsets) against the manifold axioms",
    ),
    "C23": dict(
        harnesses=[H("c23", "harness/c23_rotation.cc")],
        rule="every axis direction x angle hugging the special ones, every small integer quaternion, every Euler system x angle triple, all storage "
             "orders and layouts, values and dual numbers; distinct by converted values",
        bounds="28 axes x 25 angles (1e-320 to 100), integer quaternions with entries up to 2 (3), 24 Euler systems x 12^3 (16^3) angle triples, 6 points",
        technique="exhaustive bounded exploration of the real conversions over a lattice of rotations against an independent extended-precision model",
    ),
    "C24": dict(
        harnesses=[H("c24", "harness/c24_cubic.cc")],
        rule="every grid size, origin, data dimension, storage order, interleaving and sample type x every query on a dyadic lattice (exact arithmetic) "
             "inside, on and far outside the border; distinct by values",
        bounds="1-d grids of 1-5 (7) samples, steps of 1/8; 2-d grids up to 3x4 (5x5), steps of 1/4; data dimension 1-3; four sample types; queries up to 1e30",
        technique="exhaustive bounded exploration of the real code over all small grids and query positions, compared exactly with the convolution kernel",
    ),
    "C05": dict(
        harnesses=[H("c05", "harness/c05_problem.cc", lib="core")],
        rule="every sequence of mutations (add/remove/constant/manifold/bounds, with evaluations and solves in between) up to the depth, all "
             "queries compared after each; every misuse in every small state; states are model state plus storage order",
        bounds="3 adjacent parameter blocks, 6 residual templates, up to 5-6 residuals; depth 3 (4) unmerged, 5 (7) with state merging, 3 (4) from populated "
               "problems; fast removal on and off; all start/length pairs of memory regions up to 3 (4) blocks",
        technique="explicit-state exploration of the real Problem: all operation sequences to a depth against a set-based reference model",
    ),
    "C06": dict(
        harnesses=[H("c06", "harness/c06_ownership.cc", lib="core")],
        rule="every history of adding, removing, replacing and destroying with objects that count their destruction, for all 8 ownership "
             "settings, plus a byte-exact allocation balance and double-release detection per execution",
        bounds="3 cost, 2 loss and 2 manifold objects, up to 4 residuals, depth 3 (4) unmerged and 6 (8) merged, all sharing patterns of 3 (4) residuals, "
               "3 ways of destroying; 34 wrapper constructions x 5 holders, all move histories of length 2, wrapper resets of length 4 (6)",
        technique="explicit-state exploration of the real code: all operation histories to a depth against a reference-count model",
    ),
    "C07": dict(
        harnesses=[H("c07", "harness/c07_evaluate.cc", lib="core")],
        rule="every constancy/manifold pattern x every ordered selection of rows and columns x output masks, losses and threads; every short "
             "history; every fault at every position; every evaluator storage over several states; distinct by values",
        bounds="3 blocks of size 1-3, 3 residual blocks of 1-4 rows, 3 structures, 6 block kinds, 4 losses, all 16 ordered sublists, all 16 masks, "
               "1-3 threads (real, one schedule), histories of length 5 (6), 8 fault kinds at every position",
        technique="exhaustive exploration of the real code (all selections, masks, histories and faults of small problems) against a dense reference evaluation",
    ),
    "C08": dict(
        harnesses=[H("c08", "harness/c08_solve.cc", lib="core")],
        rule="every sequence of answers (value, slope, failure) a cost function may give at each new point, and every single or double fault at any "
             "call of real problems, for every minimiser family; distinct by end point, costs and step counts",
        bounds="13 minimiser families; answer alphabets of 4-6 values and 1-3 slopes (plus failures) for 2-5 (3-7) iterations in 1-2 dimensions; 3 problems "
               "of up to 3 blocks x 5 variants with one fault of 8 kinds at any call (6 (8) iterations) and two failures at any calls (3 (5) iterations)",
        technique="exhaustive exploration of the real solver against a nondeterministic environment (every answer sequence, every fault position)",
    ),
    "C09": dict(
        harnesses=[H("c09", "harness/c09_constraints.cc", lib="core")],
        rule="every assignment of 17 statuses to 3 blocks x 3 structures x 19 solver configurations, every evaluation monitored; distinct by end memory and costs",
        bounds="3 blocks (sizes 2, 1, 3) in guarded memory, 2-4 residual blocks, 11 valid and 6 impossible statuses, 14 trust region and 5 line search configurations, 4 iterations",
        technique="exhaustive exploration of the real solver over all small constraint assignments with a monitor on every evaluation and on all memory",
    ),
    "C10": dict(
        harnesses=[H("c10", "harness/c10_callbacks.cc", lib="core")],
        rule="every sequence of cost answers and callback answers of short solves for 16 minimiser configurations with and without evaluation "
             "callback and state updates; every failing call of real problems; every history of direct evaluations; distinct by outcome and call counts",
        bounds="5 cost answers x 2 slopes, 2-3 (4) iterations, 2 callbacks with one stop request anywhere; 3 problems of 2-3 blocks x one failing call; "
               "histories of 3 (4) direct evaluations with all 16 output masks; 1-2 threads (one schedule)",
        technique="exhaustive exploration of the real solver against nondeterministic cost functions and callbacks with a protocol monitor",
    ),
    "C11": dict(
        harnesses=[H("c11", "harness/c11_trust_region.cc", lib="core")],
        rule="every sequence of answers (cost, failures, step validity, radius, callback, clock, inner iteration result) to the real loop, replayed "
             "through a reference automaton; every verdict/solver-answer sequence to the strategies; distinct by decisions",
        bounds="3 ambient / 2 tangent dimensions, 1 residual; 3-5 (4-6) iterations with 3-6 costs, 5 kinds of step, 3 solver outcomes; step evaluator depth 6 (8); "
               "strategies: histories of 3 (4) verdicts, all integer Jacobians (1x1 to 3x3, entries -2..2 (-3..3)) x weights x residuals x 60 radii",
        technique="exhaustive exploration of the real loop and strategies under a scripted environment against a reference automaton (trace conformance)",
    ),
    "C12": dict(
        harnesses=[H("c12", "harness/c12_line_search.cc", lib="core")],
        rule="every sequence of values and slopes (relative to the sufficient decrease line and the curvature bound), failures and non-finite answers handed to the "
             "real line searches; every small polynomial and sample set; every gradient history; every answer sequence to the loop; distinct by evaluated steps",
        bounds="3-5 (4-7) evaluations, 6-8 values x 3-5 slopes, 3 interpolations x 16 option values; quartics with small integer coefficients; polynomials to degree 5 (6); "
               "gradient histories of 4 (5) in 2-D for 11 direction types; loop of 2-4 (3-5) iterations for 6 direction / search / interpolation combinations",
        technique="exhaustive exploration of the real line searches and loop under a scripted function, checked against the published conditions and a reference automaton",
    ),
    "C15": dict(
        harnesses=[H("c15", "harness/c15_sparse.cc", "asan",
                     lib=["block_sparse_matrix.cc", "block_structure.cc", "compressed_row_sparse_matrix.cc", "triplet_sparse_matrix.cc", "dense_sparse_matrix.cc",
                          "dynamic_compressed_row_sparse_matrix.cc", "inner_product_computer.cc", "compressed_col_sparse_matrix_utils.cc", "sparse_matrix.cc",
                          "linear_operator.cc", "parallel_utils.cc"] + PAR, weight=3),
                   H("c15v", "harness/c15_views.cc", lib="full")],
        rule="every small block structure x both value layouts x every operation, every history of appending, deleting, scaling and zeroing, every "
             "range of row blocks of the inner product, every history of triplet and dynamic matrices; all arithmetic exact; distinct by values",
        bounds="up to 3x3 blocks of size 1-2 (3) with every cell subset; histories of 4 (5) to 6 (7) operations; scalar patterns up to 3x3; partitioned views of "
               "2 (3) eliminated and 2 (3) other blocks for all 22 specialisations and the generic code; 1-3 workers (one schedule)",
        technique="exhaustive exploration of the real code over all small structures and operation histories, compared exactly with a dense reference model",
    ),
    "C17": dict(
        harnesses=[H("c17", "harness/c17_schur.cc", lib="full")],
        rule="every small structure of the Schur form, elimination and back substitution twice with new values, every subset of stored cells; "
             "every small visibility structure for the cluster preconditioners; distinct by matrix values",
        bounds="all 22 specialised sizes and the generic code, 2 (3) eliminated and 2 (3) other blocks, 2 rows each, 1-2 rows without eliminated block, "
               "with and without regularisation and rank deficiency; visibility of 3 (4) points by 3 (4) cameras; 1-3 workers (one schedule); relative tolerance 1e-8",
        technique="exhaustive exploration of the real code over all small structures, compared with a dense reference elimination",
    ),
    "C14": dict(
        harnesses=[H("c14", "harness/c14_linear.cc", lib="full")],
        rule="every small structure of the Schur form x every linear solver configuration, three solves each with new values; every small system and option "
             "value for conjugate gradients; every position of a non-finite value through both trust region strategies; distinct by structure / stopping iteration",
        bounds="39 configurations, sizes {1,1,1}, {2,2,2}, {2,3,6} (6 sizes), 2 eliminated and 2 (3) other blocks, 1-2 rows each; integer positive definite matrices up to "
               "3x3 with 3 preconditioners, 4 minima, 3 maxima, 3 reset periods, 16 tolerances; 6 bad values anywhere; tolerance 1e-7 (1e-6 iterative)",
        technique="exhaustive exploration of the real solvers over all small structures and options, compared with a dense reference and a Krylov reference",
    ),
    "C29": dict(
        budget=dict(quick=400, thorough=3000),
        harnesses=[
            M("c05", "harness/c05_problem.cc", ["sequences", "touching", "misuse"]),
            M("c07", "harness/c07_evaluate.cc", ["faults", "nested", "outputs", "single_block", "selections"], weight=4),
            M("c08", "harness/c08_solve.cc", ["lazy_2d", "lazy_deep"]),
            M("c09", "harness/c09_constraints.cc", ["impossible_starts"]),
            M("c10", "harness/c10_callbacks.cc", ["real_problems", "direct_evaluation"], weight=2),
            M("c11", "harness/c11_trust_region.cc", ["Failures", "InnerIterations", "Acceptance", "Termination", "Dogleg1"]),
            M("c12", "harness/c12_line_search.cc", ["LoopFaults", "Roots", "MinimizePolynomial", "SearchOnPolynomials"]),
            M("c13", "harness/c13_options.cc", ["EnumNames"]),
            M("c14", "harness/c14_linear.cc", ["Solvers"], weight=3),
            M("c17", "harness/c17_schur.cc", ["BlockJacobi", "OtherPreconditioners", "SubsetPre", "Eliminate"], weight=3),
            M("c18", "harness/c18_jets.cc", ["aliasing", "extreme", "nested", "pow", "ternary", "unary", "copysign"], lib="none"),
            M("c19", ["harness/c19_static.cc", "harness/c19_dynamic.cc", "harness/c19_others.cc"]),
            M("c20", ["harness/c20_numeric.cc", "harness/c20_checker.cc"]),
            M("c21", "harness/c21_loss.cc", lib=["loss_function.cc", "corrector.cc"]),
            M("c22", "harness/c22_manifolds.cc", ["pairs", "product", "subset", "misuse"], lib=["manifold.cc"]),
            M("c23", "harness/c23_rotation.cc", ["angle_axis", "aliasing", "integer_quaternions", "products"], lib="none"),
            M("c24", "harness/c24_cubic.cc", lib="none"),
            M("c25", "harness/c25_covariance.cc", ["Requests", "RankDeficiency", "Failures", "TriangularIndex"], weight=2),
            M("c26g", "harness/c26_graphs.cc", ["Groups", "Visibility"]),
            M("c26p", "harness/c26_problems.cc", ["SchurOrderings", "SolveWithOrdering"]),
            M("c27", "harness/c27_tiny.cc", lib=["cost_function.cc"]),
            M("c28", "harness/c28_gradient.cc", ["LazyOddAnswers", "RealFunctions", "RealFunctionsTwoFaults"], weight=2),
            M("c28c", "harness/c28_capi.cc"),
        ],
        rule="the small scenarios of 23 other harnesses, every execution under address and undefined behaviour sanitizers and with fresh memory filled with "
             "not-a-number, and their own oracles; distinct by what those scenarios observe",
        bounds="as in the checks the scenarios come from (the scenarios that finish in about a second there; thorough: all of them); generic Schur code only; heap "
               "blocks of up to 1 MB are filled; allocations are quarantined for 16 MB",
        technique="exhaustive exploration of the real code within bounds, with every execution monitored for invalid memory accesses and undefined operations",
    ),
    "C25": dict(
        harnesses=[H("c25", "harness/c25_covariance.cc", lib="full")],
        rule="every request of block pairs in any orientation x every memory order x structures and constraints, every query; every small integer Jacobian of any rank "
             "x every truncation option; every failing residual block; distinct by tangent Jacobian",
        bounds="3 blocks (sizes 1-3), 6 kinds of block, 3 structures, 512 x 2 requests, 6 memory orders, both algorithms (EIGEN_SPARSE), loss none / applied / ignored; integer "
               "Jacobians to 3x3 with 5 null space ranks and 2 condition limits; tolerance 1e-8",
        technique="exhaustive exploration of the real code over all small problems and requests, compared with dense inversion of our own",
    ),
    "C30": dict(
        harnesses=[H("c30", "harness/c30_history.cc", lib="full")],
        rule="every history of solves, evaluations, covariance computations and changes; every result is compared bit by bit with that of a problem built afresh with "
             "the same content; distinct by the sequence of results",
        bounds="28 operations (15 ways to solve, incl. aborted and failing ones) to length 3 with and without fast removal, 7 to length 5, 2 with an evaluation callback; two problems over "
               "the same memory to length 3",
        technique="exhaustive exploration of all operation histories of the real code against a fresh replica after every step",
    ),
}

NOT_APPLICABLE = {}
