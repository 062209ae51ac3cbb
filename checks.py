"""Every property: text (-> properties.jsonl), decision procedure (-> run.py,
MANIFEST.json).  gen.py regenerates the two files from here."""
CHECKS = {}
EXP = "exploration"


def C(pid, **k):
    CHECKS[pid] = k


def part(name, src, *defs, build="asan", **k):
    undef = k.pop("undef", [])
    return dict(name=name, src=[src], defs=[f"-D{d}" for d in defs] + [f"-U{d}" for d in undef], build=build, **k)


SAN = ("clang AddressSanitizer + the UBSan groups listed in run.py, Eigen run-time assertions turned into exceptions, "
       "matrices and heap memory pre-filled with NaN/0xff")
H = "include/proxsuite-nlp/"
DET = "The oracle judges every execution it observes; unexplored inputs stay unexplored. Trusts the harness reference arithmetic (written independently of the library, plain Eigen products / long double) and the sanitizer runtime."

# ---------------------------------------------------------------- the solver
SOLF = [H + "prox-solver.hpp", H + "prox-solver.hxx", H + "pdal.hxx", H + "workspace.hpp", H + "results.hpp"]
C("C01",
  title="A SUCCESS answer really is a stationary, feasible, complementary point",
  statement="Whenever a solve reports success - for any problem (convex or not, infeasible starts, degenerate constraints, nonsmooth penalties, manifolds), any combination of the documented options, any initial guess and any number of repeated solves - the returned point and multipliers satisfy, when the user's own functions are evaluated there, stationarity of the Lagrangian, feasibility and complementarity within the requested tolerance, with inequality multipliers of the right sign. The reported objective, infeasibilities and per-constraint violations are those of the returned point, the returned flag is the stored one, and the iteration budgets are never exceeded.",
  over=["inputs", "configurations", "histories"],
  text="all problems (flat/manifold, convex/nonconvex, degenerate, infeasible, l1), all option combinations, all initial points, repeated solves",
  why="The tests solve two or three small problems with default options and compare with one tolerance; no test recomputes the optimality conditions independently.",
  files=SOLF, mechanism=[dict(name="convergence test and what is returned with it", where=H + "prox-solver.hxx")],
  observe=["returned flag, point, multipliers, residuals, value"],
  parts=[part("solver", "solver.cpp", "VF_PROP=1", mode="lib", scale={"quick": 3, "thorough": 60})],
  require={"success": 2000, "success.l1": 100, "success.manifold": 200, "success.mul1": 300, "success.mul2": 300, "success.kkt1": 500},
  rule="random problem x option combination x initial guess, solved once or twice; optimality conditions recomputed from the user's functions. Non-trivial: a success, distinct by (options, solution).",
  note="certificate oracle; nothing the solver stores is used except the answer and its penalty parameter. Problems unbounded below may end in an overflow error, which is accepted.")

C("C02",
  title="Strongly convex problems are solved, to the problem's own solution",
  statement="On strongly convex problems with affine equality, convex inequality, box or l1 terms and linearly independent active constraints, the solver with exact (or equivalent) second-order information and either linear system reaches success from any starting point within the budget, up to the rare cycling of the classical system (below half a percent), and Newton's method is fast: beyond 100 iterations in fewer than one run in a hundred, beyond 60 in none with equality constraints only. Started at the solution and its multipliers it stops there at once. Every success is close to the unique solution: the distance obeys the strong-convexity bound computed from the returned residuals.",
  over=["inputs", "configurations"],
  text="all strongly convex problems with a known primal-dual solution, all option combinations, all starting points",
  why="The tests solve a few hand-made quadratic programs with default settings.",
  files=SOLF + [H + "linesearch-armijo.hpp", H + "modelling/constraints"],
  mechanism=[dict(name="augmented-Lagrangian loop, Newton steps, linesearch", where=H + "prox-solver.hxx")],
  observe=["returned flag", "distance to the constructed solution"],
  parts=[part("solver", "solver.cpp", "VF_PROP=2", mode="lib", scale={"quick": 3, "thorough": 60})],
  require={"solved": 3000, "solved.l1": 150, "tight": 1000, "at-solution": 100, "runs.equality.newton": 500, "runs.equality.bfgs": 100, "runs.newton.classic": 1000, "runs.newton.primal-dual": 500, "runs.large.newton.classic": 300, "runs.large.newton.primal-dual": 100},
  rates=[("unsolved.newton.classic", "runs.newton.classic", .0025), ("unsolved.newton.primal-dual", "runs.newton.primal-dual", .0002),
         ("slow.newton.classic", "runs.newton.classic", .0042), ("slow.newton.primal-dual", "runs.newton.primal-dual", .0016),
         ("slow.equality.newton", "runs.equality.newton", .00006), ("slow.equality.bfgs", "runs.equality.bfgs", .0002),
         *((f"unsolved.newton.{k}.{o}", f"by-option.newton.{k}.{o}", .009 if o == "l1" and k == "classic" else f) for k, f in (("classic", .0035), ("primal-dual", .0002))
           for o in ("ls0", "ls1", "ls2", "mul0", "mul1", "mul2", "ldlt0", "ldlt1", "ldlt2", "ldlt3", "rho", "norho", "l1", "nol1", "affine", "curved", "warm", "cold")),
         *((f"{w}.large.{k}", f"runs.large.{k}", f) for w, k, f in (("unsolved", "newton.classic", .014), ("unsolved", "newton.primal-dual", .0008), ("slow", "newton.classic", .024), ("slow", "newton.primal-dual", .012),
           ("unsolved", "bfgs.classic", .075), ("unsolved", "bfgs.primal-dual", .055), ("unsolved", "gauss-newton.classic", .15), ("unsolved", "gauss-newton.primal-dual", .125), ("unsolved", "gradient.classic", .23), ("unsolved", "gradient.primal-dual", .19))),
         ("unsolved.bfgs.classic", "runs.bfgs.classic", .034), ("unsolved.bfgs.primal-dual", "runs.bfgs.primal-dual", .028),
         ("unsolved.gauss-newton.classic", "runs.gauss-newton.classic", .115), ("unsolved.gauss-newton.primal-dual", "runs.gauss-newton.primal-dual", .115),
         ("unsolved.gradient.classic", "runs.gradient.classic", .215), ("unsolved.gradient.primal-dual", "runs.gradient.primal-dual", .21)],
  rule="problem built backwards from a random primal-dual solution (active/inactive rows chosen, gradient shifted), random options and start. Non-trivial: solved, distinct by (options, solution).",
  note="construction oracle and a-posteriori error bound; the share of unsolved problems is compared with the rate measured on the repaired tree plus a wide sampling margin.")

C("C03",
  title="Every run follows the documented outer/inner loop, and callbacks see it",
  statement="Every solve is a run of the documented augmented-Lagrangian method: the penalty, proximal parameter and the inner and feasibility tolerances evolve by the documented rules from each outer result, multipliers are replaced only on an accepted outer iteration and by the selected rule, the inner loop and the run stop exactly when their criteria say, and steps move point and multipliers along the reported direction by the reported step length with sufficient decrease of the merit function. Registered callbacks are called once per iteration, in order, plus once at the end, see that iteration's values (which a history recorder stores unchanged), and iteration budgets (zero included) are respected with the matching flag.",
  over=["inputs", "configurations", "histories"],
  text="all runs: all problems, options, tolerances, penalty schedules, budgets incl. zero, repeated solves",
  why="No test observes the inside of a solve; wrong schedules or stale quantities still converge on easy problems.",
  files=SOLF + [H + "bcl-params.hpp", H + "helpers/history-callback.hpp"],
  mechanism=[dict(name="outer loop and tolerance schedule", where=H + "prox-solver.hxx"), dict(name="callback invocation", where=H + "prox-solver.hpp")],
  observe=["every callback's view of the workspace and results", "number of cost evaluations"],
  parts=[part("solver", "solver.cpp", "VF_PROP=3", mode="lib", scale={"quick": 3, "thorough": 60})],
  require={"steps": 20000, "steps.armijo": 8000, "steps.backtracked": 500, "outer.accepted": 3000, "outer.rejected": 1000, "runs.success": 1500, "runs.no-budget": 100, "runs.max-al": 20, "history.records": 20000},
  technique="runtime monitoring: offline checker of recorded solver traces against a replay model, ASan/UBSan",
  rule="random problem x options x budget; the recorded callbacks are replayed by an independent model of the method that predicts each next record. Non-trivial: at least one step, distinct by (options, last point).",
  note="trace-conformance oracle. Decisions within rounding of a threshold end the replay of that run ('ambiguous').")

C("C04",
  title="Faults in user functions are contained: no false success, reusable solver",
  statement="When any user-supplied function throws, or returns NaN or infinite values, at any evaluation during a solve (once or from then on), the exception reaches the caller - except a runtime error in a trial step of the linesearch, which only shortens the step - and a non-finite value ends in an error, a recovery or a non-success flag, never in a success whose last evaluation was not finite nor in a non-finite answer. A success after a fault is still a certified solution, nothing is leaked, and the same solver then solves again exactly as a fresh one would.",
  over=["inputs", "crash points", "histories"],
  text="all problems x options x (operation, evaluation index, kind of fault, transient or persistent)",
  why="No test injects a fault; which evaluation fails, and what state it leaves behind, cannot be sampled by a handful of cases.",
  files=SOLF + [H + "linesearch-armijo.hpp", H + "exceptions.hpp", H + "math.hpp"],
  mechanism=[dict(name="NaN checks and exception paths of the inner loop", where=H + "prox-solver.hxx"), dict(name="backtracking on exceptions", where=H + "linesearch-armijo.hpp")],
  observe=["exception identity", "flag", "iterate", "live heap blocks", "outcome of the next solve"],
  parts=[part("fault", "solver2.cpp", "VF_PROP=4", mode="lib", scale={"quick": 2, "thorough": 50})],
  require={"exceptions": 2000, "nan.recovered": 100, "thrown.absorbed": 50, "thrown.propagated": 1000, "success-after-fault": 100, "reuse.direct": 1000, "leak-probes": 100},
  technique="runtime monitoring: fault injection at every evaluation index, outcome oracle, heap accounting, ASan/UBSan",
  rule="random problem and options; one reference run counts the evaluations, then one (operation, index, kind) fails; afterwards the solver is reused and compared bitwise with the reference. Non-trivial: the fault fired, distinct by (operation, kind, index, options).",
  note="exception identity, certificate and bitwise-reuse oracles. BFGS runs are reused after setup() only (the approximation is documented to persist).")

C("C05",
  title="Solves are repeatable and isolated from each other",
  statement="The outcome of a solve is a function of the problem, the options and the initial guess: the same solver again (after or without a new setup, except for the persistent quasi-Newton matrix), another solver on the same problem, a copy of the problem, no multipliers in place of zero ones, a warm start aliasing the solver's own results, multipliers given block by block, any registered callbacks or verbosity, a nested solve of another problem, a solve of another problem on another thread, and whatever freshly allocated memory contains all leave every returned quantity bitwise the same. A solve changes neither its inputs nor the user's problem, a smaller iteration budget stops on the same path, and solving before setup or with the wrong number of multiplier blocks is refused.",
  over=["inputs", "histories", "schedules"],
  text="all problems x options x reuse histories, thread schedules, heap contents",
  why="Tests solve once per object, on one thread, with fresh memory.",
  files=SOLF + [H + "problem-base.hpp", H + "constraint-set.hpp", H + "helpers/history-callback.hpp"],
  mechanism=[dict(name="state kept in solver, workspace, results and constraint sets", where=H + "prox-solver.hxx")],
  observe=["every field of the results, bitwise", "inputs and problem functions after the solve", "data races"],
  parts=[part("repeat", "solver2.cpp", "VF_PROP=5", mode="lib", scale={"quick": 2, "thorough": 40}),
         part("heap", "solver2.cpp", "VF_PROP=5", "VF_PERTURB=1", build="plain", mode="lib", scale={"quick": 2, "thorough": 40}, undef=["EIGEN_INITIALIZE_MATRICES_BY_NAN"]),
         part("threads", "solver2.cpp", "VF_PROP=5", "VF_THREADS=1", build="tsan", mode="lib", shards=2, scale={"quick": 1, "thorough": 30})],
  require={"comparisons": 4000, "heap-runs": 2000, "thread-solves": 1000, "repeat.same-solver": 200, "repeat.aliased-warm-start": 100, "isolation.nested": 100, "no-setup-refused": 50, "repeat.no-multipliers": 100, "heap-runs-no-multipliers": 300},
  technique="runtime monitoring: bitwise differential oracle over reuse histories, ThreadSanitizer on concurrent solves, heap-fill perturbation, ASan/UBSan",
  rule="random problem and options, one of 11 reuse scenarios; three fills of fresh memory; 24 solves on 6 threads against the sequential ones. Non-trivial: distinct by (options, solution).",
  note="bitwise comparison within one binary on one machine. Concurrent solves share no user object; sharing one problem between threads is not promised by the library.")

C("C06",
  title="Merit function, multiplier estimates and residuals match their definitions",
  statement="For every problem, point, multipliers, reference multipliers and penalty parameter, the solver's entry points compute the defined quantities: shifted constraints, first-order and primal-dual multiplier estimates (with their signs and bounds), their reprojections, the primal-dual augmented-Lagrangian merit value, its gradient in point and multipliers, the projected Jacobian of the selected system, the primal residuals per constraint, and trial steps. The merit gradient is the derivative of the merit value wherever that exists, and evaluating any of them changes neither the iterate nor the penalty parameter.",
  over=["inputs", "configurations"], text="all problems, points, multipliers, references, penalties",
  why="The merit function is only used inside a solve; no test evaluates or differentiates it.",
  files=SOLF + [H + "pdal.hpp", H + "problem-base.hpp"],
  mechanism=[dict(name="multiplier estimates", where=H + "prox-solver.hxx"), dict(name="merit function", where=H + "pdal.hxx")],
  observe=["workspace vectors after each public call"],
  parts=[part("merit", "solver2.cpp", "VF_PROP=6", mode="lib", scale={"quick": 4, "thorough": 400})],
  require={"points": 10000, "derivatives": 5000, "estimates": 20000, "projected-rows": 20000},
  rule="random problem, 1..4 random (point, multipliers, reference, penalty); each public entry point against its definition, plus difference quotients of the merit. Non-trivial: distinct evaluations.",
  note="definitions evaluated from an independent description of the sets; kinks (within 1e-9) are not judged. The default primal-dual weight 1/2 is used.")

C("C29",
  title="Each step solves the (inertia-corrected) semismooth Newton system",
  statement="At every iteration of every solve the linear system is the one the method defines at the current point - the selected Hessian model plus proximal term, constraint Jacobians restricted to the active set, the penalty block, and the matching residual - in both system variants. When that matrix has the right inertia the step solves it to rounding, otherwise the step solves the system with a positive multiple of the identity added to the Hessian block such that the inertia is right, and the reported signature is that of the factorised matrix. Second derivatives are only asked of the user's functions when the selected model (or a constraint set that keeps them) uses them.",
  over=["inputs", "configurations", "histories"],
  text="all iterates of all runs, all Hessian models, both systems, all factorisation back-ends",
  why="No test looks at a linear system or step; a wrong row or stale block merely slows convergence on easy problems.",
  files=SOLF + [H + "ldlt-allocator.hpp", H + "bfgs-strategy.hpp"],
  mechanism=[dict(name="assembly of the system", where=H + "prox-solver.hxx"), dict(name="inertia correction and refinement", where=H + "prox-solver.hxx")],
  observe=["system matrix, right-hand side, step, signature at every callback"],
  parts=[part("solver", "solver.cpp", "VF_PROP=29", mode="lib", scale={"quick": 3, "thorough": 60})],
  require={"kkt.matrices": 15000, "newton.plain": 8000, "newton.regularised": 1000, "bfgs-updates": 1000, "bfgs-skips": 100, "curved-sets": 300, "first-order-blocks": 2000, "inertia-options": 200},
  technique="runtime monitoring: offline checker of recorded solver traces against an independent assembly of the Newton system, ASan/UBSan",
  rule="random problem x options; every recorded system is rebuilt from the user's functions and compared, the step is substituted. Non-trivial: at least one step, distinct by (options, last point).",
  note="substitution oracle, long-double eigenvalues for the inertia. Steps at nearly singular systems, or needing a shift beyond 4e3, or with fewer than 3 refinements on back-ends without full pivoting, are counted and not judged.")

# ---------------------------------------------------------------- linear algebra
C("C07",
  title="Pivoted symmetric-indefinite factorisation solves, or reports failure",
  statement="For every real symmetric or complex Hermitian matrix, of any size and given through either of its triangles, the pivoted symmetric-indefinite (Bunch-Kaufman) factorisation succeeds on regular matrices, whatever their scale, and the factors it stores solve linear systems with one or several right-hand sides with a small backward error (no avoidable element growth). It never reads the other triangle or writes outside its own storage, can be recomputed on other matrices of other sizes, and reports a numerical issue instead of success when the matrix contains NaN or a column it must pivot on is NaN or is exactly zero.",
  over=["inputs", "histories"],
  text="all symmetric/Hermitian matrices (indefinite, rank deficient, badly scaled, saddle point, integer, with NaN/inf), sizes 0..200 across the blocked/unblocked switch, both triangles, all sequences of factorisations on one object",
  why="The test factors a few random matrices of a few sizes and checks one solve; pivot patterns (1x1, 2x2, swaps inside a block, failure in the middle of a block), the Upper variant, hostile values and object reuse are not reached.",
  files=[H + "linalg/bunchkaufman.hpp"],
  mechanism=[dict(name="pivot selection, blocked and unblocked kernels, in-place solve", where=H + "linalg/bunchkaufman.hpp")],
  observe=["factorisation status", "solution residual", "stored pivots", "bytes around the operands"],
  parts=[part("real", "bk.cpp", "VF_REAL=1", scale={"quick": 2}), part("complex", "bk.cpp", "VF_COMPLEX=1", scale={"quick": 2}), part("upper", "bk.cpp", "VF_UPPER=1", scale={"quick": 2})],
  require={"residuals": 2000, "pivots2x2": 5000, "factor.blocked": 200, "cases.hostile-real": 100, "cases.upper": 100},
  rule="random matrix of a kind (spectrum, saddle point, integer, zero or tiny diagonal, permuted 2x2 blocks, graded, mixed magnitudes, growth-provoking pivots, random) and size; factored, solved with several right-hand sides, recomputed. Non-trivial: distinct by (kind, size, pivot pattern).",
  note="residual oracle with backward-error bounds a few times the largest error observed, under ASan/UBSan. Transposed solves of real matrices do not compile in the library and are out of scope.")

C("C08",
  title="Reported inertia is the true inertia, and drives the regularisation choice",
  statement="For every factorisation back-end offered to the solver and every symmetric matrix it factors successfully, the signature counts (positive, negative, zero) equal the true inertia of the matrix, whatever its scale. A singular, NaN-containing or unsuccessfully factored matrix is never reported as having the wanted number of positive and negative eigenvalues, and the inertia test accepts exactly the wanted triple, telling apart 'has zeros' from 'wrong signs'.",
  over=["inputs", "configurations"],
  text="all back-ends (dense, pivoted, block-sparse, Eigen), all matrices with prescribed inertia incl. badly scaled, exactly singular, failed or NaN factorisations",
  why="No test looks at a signature or inertia at all.",
  files=[H + "ldlt-allocator.hpp", H + "linalg/bunchkaufman.hpp", H + "prox-solver.hxx", H + "linalg/ldlt-base.hpp"],
  mechanism=[dict(name="signature computation per back-end", where=H + "ldlt-allocator.hpp"),
             dict(name="inertia decision", where=H + "prox-solver.hxx")],
  observe=["signature vector", "inertia tuple", "inertia decision"],
  parts=[part("inertia", "inertia.cpp", scale={"quick": 2})],
  require={"signature.block": 500, "signature.bunchkaufman": 500, "signature.dense": 500, "signature.eigen": 500, "wrong-inertia": 100, "cases.decision": 500},
  rule="matrices built from a chosen spectrum (or exactly singular/hostile) x back-end; signature compared with the chosen inertia. Non-trivial: distinct by (back-end, sizes, inertia).",
  note="construction oracle: the matrix is built with the inertia, so no eigenvalue code is trusted.")

C("C09",
  title="Dense LDLT factorisation: small residuals, correct sign, reusable",
  statement="For every symmetric positive-definite, negative-definite or quasi-definite matrix (any size, blocked or not) the dense factorisation reproduces the matrix, solves systems in place for one or several right-hand sides with small backward error and reports the right definiteness sign, looking at the lower triangle only. A factorisation object reused on another matrix gives exactly what a fresh object would give.",
  over=["inputs", "histories"], text="all definite / quasi-definite matrices of sizes 0..300, all reuse sequences",
  why="The unit test factors one random matrix per size; sign, upper-triangle reads, reuse and blocked-kernel edges are not checked.",
  files=[H + "linalg/dense.hpp"], mechanism=[dict(name="dense kernels (blocked/unblocked)", where=H + "linalg/dense.hpp")],
  observe=["solution residual", "reconstructed matrix", "definiteness sign"],
  parts=[part("dense", "dense.cpp", scale={"quick": 4})], require={"residuals": 1000, "blocked": 100, "unblocked": 500, "rescaled": 100, "trailing-zero": 100},
  rule="random definite/quasi-definite matrix of a kind, scale (1e-140..1e140) and size, object reused over several matrices; the same matrix times a power of two must give the same sign and solution. Non-trivial: distinct by (kind, size sequence).",
  note="residual oracle with a backward-error bound, sanitizers.")

C("C10",
  title="Block-sparse LDLT: any structure, any permutation, copies, no leaks",
  statement="For every symmetric matrix that follows a declared block pattern and every block permutation (given, natural or chosen by the library), a freshly configured block-sparse factorisation either refuses the pattern or reproduces the matrix, solves with small backward error and reports the matching sign information, never reading the upper triangle of its input. Copies and assignments are independent of the original, and creating, copying and destroying such objects neither leaks nor frees twice.",
  over=["inputs", "configurations", "histories"], text="all block patterns and sizes (1..7 blocks), all permutations, all copy/assign/destroy histories",
  why="The tests use three hand-written patterns and never copy, reassign, or count allocations.",
  files=[H + "linalg/block-ldlt.hpp", H + "linalg/block-ldlt.hxx", H + "ldlt-allocator.hpp", "src/block-ldlt.cpp"],
  mechanism=[dict(name="symbolic analysis, permutation, recursive block elimination", where=H + "linalg/block-ldlt.hxx"),
             dict(name="ownership of the block structures", where=H + "linalg/block-ldlt.hpp")],
  observe=["solution residual", "refusal", "live heap blocks", "copies after destruction of the original"],
  parts=[part("block", "block.cpp", "VF_PROP=10", scale={"quick": 4})],
  require={"factorised.given": 500, "factorised.best": 500, "copied": 300, "leak-probes": 20, "factorised.kkt": 300},
  rule="random block pattern, sizes, permutation and matrix following the pattern; factored, solved, copied, assigned. Non-trivial: distinct by (pattern, sizes, permutation).",
  note="residual oracle + heap-block accounting. Changing the permutation of an already analysed object is out of scope (see DESIGN.md).")

C("C11",
  title="Symbolic block algebra over-approximates the numeric sparsity",
  statement="For all block patterns, the predicted kind (zero, diagonal, triangular, dense) of a sum, product or transpose of blocks contains every matrix that the numeric operation can produce, and the symbolic block Cholesky/LDLT elimination marks every block that the numeric elimination can fill, or refuses the pattern. Deep copies of structures are independent, the printed pattern shows the declared kinds, permutations found by the library are permutations, and sub-structure views address the right blocks.",
  over=["inputs"], text="all kind pairs (exhaustive) and all random patterns up to 7 blocks",
  why="The tests evaluate one symbolic factorisation and never compare a predicted pattern with numbers.",
  files=[H + "linalg/block-kind.hpp", H + "linalg/block-ldlt.hpp", "src/block-kind.cpp"],
  mechanism=[dict(name="kind tables", where=H + "linalg/block-kind.hpp"), dict(name="symbolic elimination", where="src/block-kind.cpp")],
  observe=["predicted kinds vs numeric non-zeros"],
  parts=[part("block", "block.cpp", "VF_PROP=11", scale={"quick": 4})], require={"kind-pairs": 100, "llt.accepted": 1000, "llt.refused": 20, "llt.many-blocks": 50, "containers": 1000, "printed": 500},
  rule="every pair of kinds with random numeric members; random patterns eliminated symbolically and numerically. Non-trivial: distinct patterns.",
  note="containment oracle on numeric non-zeros; soundness only, lost sparsity is not a violation.")

C("C12",
  title="Structured multiply and triangular-solve kernels equal dense arithmetic",
  statement="For every combination of operand structures (zero, diagonal, lower or upper triangular, dense), operands that follow them, shape, scale factor and memory layout, the structured multiply-accumulate (destination plus factor times left times transposed right operand) and the block triangular solves, with one or several right-hand sides, give what plain dense arithmetic gives. The solves never read the other triangle or a unit diagonal, neither writes outside its destination or modifies an operand, and diagonal blocks a solve cannot handle are refused.",
  over=["inputs", "configurations"], text="all 25 kind pairs x sizes 1..7 x scale factors x strides, four triangular forms",
  why="Tests cover a handful of kind pairs with one size and never check the bytes around the destination.",
  files=[H + "linalg/gemmt.hpp", H + "linalg/block-triangular.hpp"],
  mechanism=[dict(name="gemmt dispatch per kind", where=H + "linalg/gemmt.hpp"), dict(name="block triangular solves", where=H + "linalg/block-triangular.hpp")],
  observe=["destination matrix", "bytes around the destination", "operands afterwards", "poisoned other triangle"],
  parts=[part("kernels", "kernels.cpp", scale={"quick": 4})], require={"cases.gemmt": 5000, "cases.trisolve": 2000, "trisolve.refused": 50, "gemmt.Diag.TriL": 50, "gemmt.Diag.TriU": 50},
  rule="random and sparse operands per kind pair, destination embedded in a guard matrix, the unused triangle of triangular solves poisoned with NaN. Non-trivial: distinct (kinds, sizes, form).",
  note="dense reference product + NaN poisoning of the other triangle + guard regions.")

# ---------------------------------------------------------------- manifolds
C("C13",
  title="Manifold axioms: integrate and difference are inverse, points stay valid",
  statement="On every manifold the library can build (vector spaces, tangent bundles, products, nestings of them, and user manifolds inside them) integrating the difference of two points leads from the first to the second, the difference of a point with its integral is the tangent vector inside the injectivity radius, zero tangents move nothing, and the results are normalised points of the right dimension. Interpolation reaches both end points, is consistent with integrating a fraction of the difference, and a point is declared normalised exactly when every one of its components is.",
  over=["inputs", "configurations"], text="all nestings of products and bundles over vector spaces and Lie groups, all points and tangents",
  why="Tests use a few fixed spaces and one random point each.",
  files=[H + "manifold-base.hpp", H + "manifold-base.hxx", H + "modelling/spaces/vector-space.hpp", H + "modelling/spaces/tangent-bundle.hpp", H + "modelling/spaces/tangent-bundle.hxx", H + "modelling/spaces/cartesian-product.hpp", H + "modelling/spaces/cartesian-product.hxx"],
  mechanism=[dict(name="allocating/non-allocating wrappers and checks", where=H + "manifold-base.hxx"), dict(name="componentwise delegation", where=H + "modelling/spaces/cartesian-product.hxx")],
  observe=["points and tangents returned by the public operations"],
  parts=[part("manifold", "manifold.cpp", "VF_PROP=13", scale={"quick": 4})], require={"spaces": 3000, "normalized-decisions": 1000},
  rule="random space tree (depth <= 3) with harness SO(2)/SO(3) leaves, random points and tangents. Non-trivial: distinct (space tree, operation).",
  note="metamorphic laws + reference leaf groups. Spaces that need Pinocchio are not built here (dependency absent); the wrapper is exercised through reference leaf groups instead.")

C("C14",
  title="Manifold Jacobians are the derivatives of integrate and difference",
  statement="On every manifold the library can build, the Jacobians of integration and of the difference with respect to each argument equal the derivatives of the operations they belong to, and transporting a matrix equals multiplying it by the corresponding integration Jacobian. They fill the whole output and nothing else, and an invalid argument index is rejected.",
  over=["inputs", "configurations"], text="all nested spaces, all points/tangents, both arguments",
  why="Tests compare a few Jacobians on fixed spaces at one point.",
  files=[H + "manifold-base.hpp", H + "manifold-base.hxx", H + "modelling/spaces/tangent-bundle.hxx", H + "modelling/spaces/cartesian-product.hxx", H + "modelling/spaces/vector-space.hpp"],
  mechanism=[dict(name="block Jacobians of bundles and products", where=H + "modelling/spaces/tangent-bundle.hxx")],
  observe=["Jacobian matrices", "guard bytes"],
  parts=[part("manifold", "manifold.cpp", "VF_PROP=14", scale={"quick": 4})], require={"jacobians": 8000},
  rule="random space tree, point, tangent; each Jacobian against Richardson-extrapolated central differences of the operation itself. Non-trivial: distinct (space, argument).",
  note="numerical differentiation oracle, tolerance 1e-6 relative.")

C("C15",
  title="Products and tangent bundles act componentwise, in order, by value",
  statement="However a product of manifolds is assembled (constructor, component by component, operators from either side, nested, appended to itself), its components appear in the written order and flattening, dimensions add up, splitting and merging are inverse to each other with views aliasing the right segments, and every operation acts on each component exactly as the component itself would. Tangent bundles do the same for base and tangent parts; copies are independent and size mismatches are rejected.",
  over=["inputs", "histories"], text="all assembly sequences of up to 12 components, all bases",
  why="Tests assemble two-component products once.",
  files=[H + "modelling/spaces/cartesian-product.hpp", H + "modelling/spaces/cartesian-product.hxx", H + "modelling/spaces/tangent-bundle.hpp", H + "modelling/spaces/tangent-bundle.hxx"],
  mechanism=[dict(name="component list and split/merge", where=H + "modelling/spaces/cartesian-product.hxx")],
  observe=["component list, split views, operation results"],
  parts=[part("manifold", "manifold.cpp", "VF_PROP=15", scale={"quick": 4})], require={"products": 2000, "bundles": 1500, "self-add": 200},
  rule="random component list and assembly route; each public operation against the components. Non-trivial: distinct (component list, route).",
  note="componentwise reference model.")

# ---------------------------------------------------------------- functions and costs
C("C16",
  title="Function and cost derivatives are right at the queried point, in any call order",
  statement="For every residual, cost and composition the library provides, the value, Jacobian, gradient, Hessian (Gauss-Newton where documented) and vector-Hessian product returned for a point depend on that point only - not on which points or derivatives were asked for before, nor on other costs sharing the same residual - and equal the mathematical derivatives along the manifold. Inputs are left untouched, only the output is written, and inconsistent dimensions or invalid targets are rejected at construction.",
  over=["inputs", "histories"], text="all functions x all points x all call orders",
  why="Tests call each function once at one point, always value before derivative.",
  files=[H + "function-base.hpp", H + "function-ops.hpp", H + "cost-function.hpp", H + "modelling/residuals", H + "modelling/costs"],
  mechanism=[dict(name="cached residual and Jacobian buffers", where=H + "modelling/costs/quadratic-residual.hxx"), dict(name="composition chain rule", where=H + "function-ops.hpp")],
  observe=["returned values, Jacobians, Hessians"],
  parts=[part("functions", "functions.cpp", "VF_PROP=16", scale={"quick": 4})],
  require={"jacobians": 5000, "hessians": 2000, "gradients": 1000, "subject.quadres-full": 100, "subject.shared-residual": 100, "subject.compose": 100},
  rule="random function object (12 families) and a random sequence of 3..9 queries over 3 points. Non-trivial: distinct (family, query sequence).",
  note="independent formulas + numerical differentiation. Vector-Hessian products of compositions and of manifold differences are documented as zero/Gauss-Newton and not compared.")

C("C17",
  title="Cost algebra: sums and scalings mean what they say and share nothing",
  statement="After any sequence of additions, scalings, negations, in-place updates (also with the sum itself), copies and assignments of costs, every sum object evaluates - value, gradient and Hessian - to the weighted sum of its leaves that the written expression denotes, and no operation changes the value of another object.",
  over=["histories"], text="all expression histories over sums, leaves and weights",
  why="Tests build one two-term sum.",
  files=[H + "cost-sum.hpp", H + "cost-sum.hxx", H + "cost-function.hpp"],
  mechanism=[dict(name="component/weight lists and operators", where=H + "cost-sum.hxx")],
  observe=["value, gradient, Hessian of every live object after every step"],
  parts=[part("functions", "functions.cpp", "VF_PROP=17", scale={"quick": 4})],
  require={"object-checks": 20000, "op.iadd-self": 100, "op.assign": 100, "op.chain": 100},
  rule="random history of 2..12 operations on a growing set of sums; after each step every object is compared with its symbolic model. Non-trivial: distinct histories.",
  note="model-based oracle over all live objects (aliasing shows).")

C("C18",
  title="Finite-difference wrappers approximate the true derivatives to second order",
  statement="Wrapping a function without derivatives gives Jacobians within the second-order truncation plus rounding bound of the true ones for every step size, on vector spaces and on manifolds, and the second-order wrapper does the same for vector-Hessian products while passing values and first derivatives through unchanged. Wrappers can be stacked, keep the dimensions of the wrapped function and never modify the query point.",
  over=["inputs", "configurations"], text="all smooth functions, points, step sizes 1e-7..1e-2, spaces",
  why="The test compares one function at one step size.",
  files=[H + "modelling/autodiff/finite-difference.hpp"],
  mechanism=[dict(name="central differences along the manifold", where=H + "modelling/autodiff/finite-difference.hpp")],
  observe=["wrapped Jacobians and vector-Hessian products"],
  parts=[part("functions", "functions.cpp", "VF_PROP=18", scale={"quick": 4})],
  require={"fd.exact-class": 1000, "fd.smooth-class": 1000, "fd.manifold": 1000, "fd.chain": 100},
  rule="random smooth function with known derivatives, random step; error against an a-priori bound. Non-trivial: distinct (sizes, step).",
  note="a-priori error bound computed from the function's known third/fourth derivatives.")

# ---------------------------------------------------------------- constraint sets
SETF = [H + "constraint-set.hpp", H + "constraint-set.hxx", H + "modelling/constraints"]
C("C19",
  title="Projections and proximal maps satisfy their defining laws",
  statement="For every constraint set and nonsmooth penalty, point and penalty parameter, the projection/proximal map returns the unique minimiser it is defined by (so it is feasible, idempotent for sets, non-expansive and fixes feasible points), the normal-cone projection is exactly the complement, both accept output aliasing their input, and infinite bounds or large values do not produce NaN.",
  over=["inputs"], text="all sets (equality, orthant, box with infinite/equal bounds, l1), points at all scales incl. kinks, all parameters",
  why="Tests project a few fixed vectors.",
  files=SETF, mechanism=[dict(name="projection / normal-cone projection per set", where=H + "modelling/constraints")],
  observe=["projected points"],
  parts=[part("sets", "sets.cpp", "VF_PROP=1", scale={"quick": 4})], require={"cases.projection": 5000, "set.box": 500, "set.l1": 500},
  rule="random set, parameter and points including kinks and infinities; variational inequality against random feasible points. Non-trivial: distinct inputs.", note="variational-inequality and scalar reference oracles.")
C("C20",
  title="Active sets and generalised Jacobians match the projection",
  statement="For every set, point and parameter, applying the projection Jacobian (or its normal-cone complement) to a matrix equals multiplying by the derivative of the projection wherever that exists, and at kinks by an element between the one-sided derivatives; both always add up to the original matrix. The active set reported is exactly the set of rows on which the normal-cone Jacobian acts as identity, and only the given matrix is modified.",
  over=["inputs"], text="all sets, points (smooth and kink), matrices",
  why="Tests never compare a projection Jacobian with a derivative.",
  files=SETF, mechanism=[dict(name="row masking by the active set", where=H + "constraint-set.hxx")],
  observe=["masked matrices, active sets"],
  parts=[part("sets", "sets.cpp", "VF_PROP=2", scale={"quick": 4})], require={"cases.jacobian": 5000, "fd-columns": 10000},
  rule="random set, point, matrix; Jacobian columns against difference quotients of the projection. Non-trivial: distinct inputs.", note="difference-quotient oracle, one-sided at kinks.")
C("C21",
  title="Moreau envelopes: value, bounds and gradient agree with their definition",
  statement="For every set or penalty, point and parameter, the Moreau envelope equals the penalty at the proximal point plus the squared distance over twice the parameter, lies below the penalty, is minimal over all candidate points, and its variation is bracketed by the gradient given by the scaled normal-cone projection; the variant that is handed the projection agrees with the one that computes it. This holds after the parameter is changed, including for sets inside products.",
  over=["inputs", "histories"], text="all sets and nested products, points, parameter sequences",
  why="No test evaluates an envelope.",
  files=SETF, mechanism=[dict(name="envelope evaluation and parameter storage", where=H + "constraint-set.hpp")],
  observe=["envelope values", "stored parameter"],
  parts=[part("sets", "sets.cpp", "VF_PROP=3", scale={"quick": 4})], require={"cases.envelope": 5000, "gradient-sandwich": 5000, "set.product": 500},
  rule="random set/product, parameter sequence and points; definition, minimality and gradient sandwich. Non-trivial: distinct inputs.", note="definition and convexity inequalities as oracles.")
C("C22",
  title="A product of constraint sets behaves as its blocks, side by side",
  statement="For every list of sets and block sizes (nested and empty blocks included), each operation of the product set - projection, normal-cone projection, Jacobians, active set, penalty value, envelope, setting the parameter - equals doing it block by block. Copies are independent of the original, and mismatched numbers of sets and sizes are rejected.",
  over=["inputs", "configurations"], text="all lists of sets and block sizes, nested, all operations",
  why="Tests evaluate one product of two sets.",
  files=[H + "modelling/constraints/constraint-set-product.hpp"], mechanism=[dict(name="blockwise dispatch", where=H + "modelling/constraints/constraint-set-product.hpp")],
  observe=["results per block"],
  parts=[part("sets", "sets.cpp", "VF_PROP=4", scale={"quick": 4})], require={"cases.product": 3000, "blocks": 5000, "mismatch-rejected": 100, "mu-restored": 500},
  rule="random nested list of sets; every operation against the blocks. Non-trivial: distinct block lists.", note="blockwise reference model.")

# ---------------------------------------------------------------- linesearch, quasi-Newton, value wrapper, output, layout, helpers
C("C23",
  title="The linesearch returns an evaluated step with sufficient decrease",
  statement="For every scalar merit function (any shape, slope, NaN/infinite values, steps at which it cannot be evaluated) and all options, the backtracking search tries steps inside [minimum step, 1] starting from 1, contracts each rejected step by a factor within the configured bounds to the minimiser of the interpolant through the collected samples (halving in bisection mode or after an exception), stops exactly at the first step with sufficient decrease, at the minimum step or when trials run out, and returns the last evaluated step with the function's value there. Runtime errors are absorbed as long as some allowed step can be evaluated and otherwise reach the caller, like any other exception; polynomials evaluate and differentiate exactly.",
  over=["inputs", "configurations", "crash points"],
  text="all one-dimensional functions (7 families), slopes, options, exception patterns, non-finite values",
  why="No test calls the linesearch; inside a solve its defects only cost iterations.",
  files=[H + "linesearch-armijo.hpp", H + "linesearch-base.hpp"],
  mechanism=[dict(name="safeguarded interpolation and backtracking", where=H + "linesearch-armijo.hpp")],
  observe=["every trial step and value", "returned step and value", "exceptions"],
  parts=[part("linesearch", "misc.cpp", "VF_PROP=23", scale={"quick": 2, "thorough": 60})],
  require={"accepted": 20000, "backtracked": 20000, "gave-up": 5000, "interp.cubic": 3000, "interp.quadratic": 10000, "exception.recovered": 3000, "exception.unevaluable": 1000, "nonfinite-trial": 3000, "descent": 10000, "polynomials": 10000},
  rule="random function, slope, options and fault pattern; the recorded sequence of trials is judged step by step. Non-trivial: distinct (returned step, value, number of trials).",
  note="trace oracle over the trials; the interpolation minimiser is compared where the interpolant is well conditioned. Long-double reference.")
C("C24",
  title="Quasi-Newton updates satisfy the secant equation and stay definite",
  statement="For every sequence of iterates and gradients, each update of the (inverse) Hessian estimate with positive curvature equals the rank-two update formula, satisfies the secant equation for the last pair, keeps symmetry and positive definiteness, and an update without positive curvature leaves the matrix untouched and says so; the first pair only initialises. With exact searches on a quadratic the true (inverse) Hessian is recovered after as many steps as variables, copies are independent, and an object without dimensions refuses to work.",
  over=["inputs", "histories"], text="all sequences of points/gradients (convex, nonconvex, arbitrary), restarts, both update types, sizes 1..8",
  why="The tests run two minimisations to convergence; wrong updates still converge.",
  files=[H + "bfgs-strategy.hpp"], mechanism=[dict(name="BFGS / DFP update", where=H + "bfgs-strategy.hpp")],
  observe=["matrix before/after each update", "flags", "exceptions"],
  parts=[part("bfgs", "misc.cpp", "VF_PROP=24", scale={"quick": 1.5, "thorough": 60})],
  require={"updates.inverse": 30000, "updates.direct": 30000, "skipped": 20000, "definite": 50000, "full-hessian.inverse": 1000, "full-hessian.direct": 1000, "reinit": 2000, "invalid": 300},
  rule="random history of up to 12 updates; every update against a long-double reference. Non-trivial: a performed update, distinct by value.",
  note="reference model and algebraic laws; tolerances grow with the conditioning of each update.")
C("C25",
  title="The polymorphic value wrapper copies deeply, moves cleanly, never leaks",
  statement="Through any history of constructions (in place, from lists, from lvalues and rvalues), copies, moves, assignments, swaps, self-assignments and mutations of polymorphic values holding any derived type, each object owns exactly one value of the dynamic type and content a value semantics model predicts, moves and swaps copy no movable payload, moved-from objects are empty or stay valid, and every payload and memory block is released exactly once through the allocator it came from. An exception thrown by a payload or by the allocator leaves every object as it was.",
  over=["inputs", "histories", "crash points"], text="all operation histories up to 40 steps, 6 payload types, 8 allocator policies, faults at any step",
  why="The tests copy a handful of manifolds; allocator policies, self-assignment and exceptions are never exercised.",
  files=[H + "third-party/polymorphic_cxx14.hpp"], mechanism=[dict(name="control blocks and special members", where=H + "third-party/polymorphic_cxx14.hpp")],
  observe=["type and content of every object after each step", "live payloads", "allocator blocks"],
  parts=[part("poly", "poly.cpp", scale={"quick": 1.5, "thorough": 60})],
  technique="runtime monitoring: model-based history checker with instrumented payloads/allocators and fault injection, ASan/UBSan",
  require={"object-checks": 1000000, "op.copy-assign": 20000, "op.move-assign": 20000, "op.move-alloc": 20000, "op.swap": 15000, "moves": 20000, "fault.copy": 500, "fault.copy-assign": 300, "oom.copy-assign": 300},
  rule="random history over up to 7 objects, every object compared with its model after each step. Non-trivial: distinct histories.",
  note="model-based oracle. Faults are not injected into moves declared noexcept.")
C("C26",
  title="Printed output matches the run: one row per iteration, true values",
  statement="A verbose solve prints the column header at the start and before every 25th row, exactly one row per iteration whose cells are that iteration's number, step length, inner criterion, residuals, slope, merit value and its change, regularisation and outer index, and every solve closes with the message matching its flag; a quiet solve or an inactive logger prints no rows. The text of results, options, cost sums, matrices and enumerations shows the values they hold.",
  over=["inputs", "configurations"], text="all log records incl. zeros, infinities, NaN; all solves x verbosity levels",
  why="No test looks at any output.",
  files=[H + "logger.hpp", H + "prox-solver.hxx", H + "results.hpp", H + "fmt-hessian-approx.hpp", H + "fmt-eigen.hpp", H + "linesearch-base.hpp", H + "cost-sum.hpp"],
  mechanism=[dict(name="row formatting", where=H + "logger.hpp"), dict(name="record assembly", where=H + "prox-solver.hxx")],
  observe=["captured standard output", "callback records of the same run"],
  parts=[part("output", "layout.cpp", "VF_PROP=26", mode="lib", scale={"quick": 2, "thorough": 40})],
  require={"rows": 10000, "headers": 5000, "inactive": 1000, "solver-rows": 10000, "long-runs": 100, "quiet": 300, "results-printed": 1000, "names": 1000, "dM": 3000, "xreg.positive": 40, "xreg.zero": 500},
  rule="random record or solve with standard output captured, rows parsed back and compared with the callback records of the same run. Non-trivial: distinct records/runs.",
  note="numbers are compared to the printed precision; colour sequences are ignored.")
C("C27",
  title="Problem, workspace and results agree on one constraint layout",
  statement="For every list of constraint blocks (of any sizes, empty ones included, added at construction or later) problem, workspace and results agree on counts, sizes and offsets; every per-constraint view is exactly its segment of the stacked storage, which starts zeroed at the right size, and writing one shows in the other and nowhere else. Evaluating values, first and second derivatives fills each block from its own constraint, copies of a problem are independent, and multipliers given per constraint act as the stacked vector, with a wrong number of them rejected.",
  over=["inputs", "configurations", "histories"], text="all lists of blocks, spaces, points; growth histories",
  why="Tests build problems with one or two blocks; an offset error between equal-sized blocks or after growth stays invisible.",
  files=[H + "problem-base.hpp", H + "workspace.hpp", H + "results.hpp", H + "prox-solver.hxx"],
  mechanism=[dict(name="constraint offsets", where=H + "problem-base.hpp"), dict(name="view creation", where=H + "workspace.hpp")],
  observe=["addresses and sizes of views", "contents after writes and evaluations", "outcome of equivalent solves"],
  parts=[part("layout", "layout.cpp", "VF_PROP=27", mode="lib", scale={"quick": 2, "thorough": 40})],
  require={"views": 100000, "added": 10000, "slots": 20000, "separate": 5000, "rejected": 5000},
  rule="random list of blocks with random growth; every view checked by address and by writes. Non-trivial: distinct (space, block sizes).",
  note="direct comparison with independently accumulated offsets.")
C("C28",
  title="Numeric helpers are exact and bad arguments are rejected with an error",
  statement="The numeric helpers return the exact answer for every input: infinity norms of matrices, expressions and lists (empty ones included), detection of NaN and infinities anywhere, sign and closeness tests. Misuse - incompatible composition, non-scalar costs, wrong sizes for product spaces, targets or constraint products, targets off the space, unknown backends or signatures, solving before setup, quasi-Newton on a curved space - raises a runtime error exactly when the arguments are wrong, leaves the objects usable, and is never raised for valid arguments.",
  over=["inputs", "configurations"], text="all matrices/vectors incl. empty, special values; all size combinations of the checked interfaces",
  why="No test passes an empty matrix, a non-finite value or a wrong argument.",
  files=[H + "math.hpp", H + "exceptions.hpp", H + "function-ops.hpp", H + "cost-function.hpp", H + "ldlt-allocator.hpp", H + "modelling/spaces/cartesian-product.hxx", H + "modelling/residuals"],
  mechanism=[dict(name="helpers", where=H + "math.hpp"), dict(name="argument checks", where=H + "exceptions.hpp")],
  observe=["returned values", "exceptions"],
  parts=[part("helpers", "layout.cpp", "VF_PROP=28", mode="lib", scale={"quick": 3, "thorough": 60})],
  require={"math": 50000, "nonfinite": 30000, "nan-norms": 10000, "rejected": 20000, "accepted": 5000},
  rule="random inputs incl. special values; exact comparison, exception expected iff the arguments are wrong. Non-trivial: distinct inputs.",
  note="exact oracle.")

NOT_APPLICABLE = [
    dict(property="C30", title="Python bindings behave like the C++ interface",
         statement="Every class, function and enumeration exposed to Python gives the same results, raises an exception wherever the C++ call throws, and keeps the objects it refers to alive as long as it needs them.",
         over=["programs", "histories"], text="all Python programs using the bindings",
         why="The Python tests run a few scripts; lifetimes and aliasing of exposed references depend on the whole program.",
         files=["bindings/python/src", "bindings/python/include"], mechanism=[dict(name="boost-python / eigenpy exposure", where="bindings/python/src")],
         observe=["Python results", "interpreter memory errors"],
         reason="The bindings need eigenpy and Boost.Python, which are not installed here; they can be neither compiled nor executed, so there is no execution to monitor."),
    dict(property="C31", title="Multibody and rigid-transform spaces obey the manifold axioms",
         statement="The manifolds built on Pinocchio (SO2/SO3/SE2/SE3, multibody configuration and phase spaces) and the frame-placement functions obey the same axioms and derivative guarantees as the vector-based manifolds.",
         over=["inputs"], text="all points, tangent vectors and robot models",
         why="Their tests are not even compiled without Pinocchio.",
         files=[H + "modelling/spaces/pinocchio-groups.hpp", H + "modelling/spaces/multibody.hpp", H + "modelling/spaces/multibody.hxx"], mechanism=[dict(name="Lie-group operations from Pinocchio", where=H + "modelling/spaces/pinocchio-groups.hpp")],
         observe=["points, tangent vectors, Jacobians"],
         reason="Pinocchio is not installed here: the headers do not compile, so there is no execution to monitor. What the library adds generically (cartesian products, tangent bundles, differences to a point) is checked on vector spaces in C13-C15."),
    dict(property="C32", title="External ProxSuite factorisation back-end and CasADi functions",
         statement="The optional ProxSuite dense factorisation back-end meets the same solve and inertia guarantees as the built-in ones, and CasADi expressions wrapped as functions return the values and derivatives CasADi computes.",
         over=["inputs", "configurations"], text="all KKT matrices and all CasADi expressions",
         why="No test is built for either without the optional dependency.",
         files=[H + "linalg/proxsuite-ldlt-wrap.hpp"], mechanism=[dict(name="wrapper of an external LDLT", where=H + "linalg/proxsuite-ldlt-wrap.hpp")],
         observe=["factorisation results", "function values"],
         reason="ProxSuite and CasADi are not installed here; the wrappers are compiled out and cannot be executed."),
]
