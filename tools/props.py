"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
S, O, C, P, L, A, U = "src/solvers/", "src/control/", "src/control/continuous_ocp.hpp", "src/polynomials/", "src/solvers/sqp_base.hpp", "src/autodiff/AutoDiffScalar.h", "src/utils/helpers.hpp"
NOT_CHECKED = "Exploration by monitored executions: says nothing about inputs, sizes and template instantiations that were not executed. "
PROPS = []


def mechanism(text, files):
    return [{"name": t.strip(), "where": ", ".join(files)} for t in text.replace(";", ",").split(",") if t.strip()]


def p(id, title, statement, over, text, why, files, mech, tech, note, state=None):
    a = {"files": files, "mechanism": mechanism(mech, files)}
    if state:
        a["state"] = state
    PROPS.append({"d": {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
                  "technique": tech, "note": NOT_CHECKED + note})


p("P01", "A QP reported SOLVED satisfies its optimality conditions",
  "Whenever an ADMM or box-ADMM solve reports SOLVED, the returned primal and dual vectors satisfy the constraint bounds, the box bounds, stationarity and complementarity of the problem that was passed in, within the documented absolute and relative tolerances. "
  "A run that does not reach them reports that the iteration limit was exceeded, and the number of iterations respects the limit and the termination-check interval. "
  "This holds for every problem class (strictly convex, semidefinite, linear, infeasible, redundant constraints, one-sided, infinite or equal bounds, bad scaling), cold or warm started, and every documented setting, dense or sparse, in float and double.",
  ["inputs", "configurations", "histories"], "all QP data, bounds, starting points, solver settings, back ends and precisions",
  "The tests solve about a dozen fixed two- and three-variable problems with one setting each; the claim ranges over all data and settings.",
  [S + "qp_base.hpp", S + "admm.hpp", S + "box_admm.hpp"], "residual computation and termination test; the projections and dual updates that make the multipliers sign-correct; bound classification",
  "runtime certificate monitor over generated QPs, under AddressSanitizer and UBSan", "Trusts Eigen and the oracle's re-evaluation of the KKT conditions from the original data.")
p("P02", "Feasible convex QPs are solved to their true optimum under every setting",
  "For every feasible strictly convex QP with a regular optimum the QP solvers terminate SOLVED, and the returned point lies within the error bound implied by the requested tolerance of the unique minimiser. "
  "This holds for every relaxation factor, penalty, penalty adaptation, check interval and starting point the documentation allows, and a start at the optimum ends at once. "
  "For semidefinite and linear programs the optimal value is reached.",
  ["inputs", "configurations"], "all well-posed convex QPs, all documented settings, all starting points",
  "Tests use default settings on a few problems; over-relaxation, adaptation and their combinations with warm starts are not executed.",
  [S + "admm.hpp", S + "box_admm.hpp", S + "qp_base.hpp"], "the ADMM iteration, over-relaxation, adaptive penalty with refactorisation, starting point handling",
  "differential runtime monitor: planted-optimum QPs, rigorous distance bound, under sanitizers", "Termination is judged within 200000 iterations on problems whose active constraints are well conditioned; trusts the planted KKT construction.")
p("P03", "QP answers do not depend on storage, back end or pattern reuse",
  "The dense and the sparse version of a QP solver, given the same data and settings, perform the same iteration: same status and iteration count, and primal and dual iterates equal up to rounding, for every way of storing the sparse matrices (explicit zeros or none, full, partial or no stored diagonal). "
  "Solving again with the sparsity-pattern reuse option gives what a solve without it gives, and direct and iterative linear solvers agree.",
  ["inputs", "configurations", "histories"], "all QP data, all uncompressed sparse layouts, all sequences of solves with an unchanged pattern, all back ends",
  "The tests compare a sparse solve with one fixed answer and reuse a pattern once, with the same values.",
  [S + "admm.hpp", S + "box_admm.hpp"], "assembly of the KKT matrix in its dense, sparse-insert and sparse-update versions, penalty update of the diagonal, factorisation",
  "lock-step differential runtime monitor (dense/sparse/CG/reuse) under sanitizers", "Compares iterates after a fixed number of iterations; iterative solvers on fixed-size matrices are executed without Eigen assertions because Eigen rejects them otherwise.")
p("P04", "A QP solve is a pure function of its arguments and reports truthfully",
  "The result of a solve depends only on the problem, the starting point and the settings: a solver that solved other problems before, a fresh one, and one built in memory with arbitrary content return the same answer, and no guess means a zero guess. "
  "The matrices, vectors and guesses passed in are not modified. "
  "The reported status, iteration count and residuals describe the returned point; with termination checks disabled the solver runs to the iteration limit.",
  ["histories", "inputs", "configurations"], "all sequences of solves on one solver object, all data and settings",
  "Tests construct one solver, solve once and look at the solution; state carried over between solves is not visible to them.",
  [S + "qp_base.hpp", S + "admm.hpp", S + "box_admm.hpp"], "initialisation at the start of a solve, info bookkeeping, reset of penalty and multipliers",
  "history-independence monitor with poisoned object memory, bitwise comparison, recomputed residuals", "Bitwise equality within one binary.")
p("P05", "Preconditioning is an invertible change of variables",
  "Equilibrating a QP with the Ruiz preconditioner multiplies cost, constraints and bounds exactly by the positive finite factors it reports, for dense and sparse data including empty rows, columns and zero cost. "
  "Unscaling restores the original problem, primal and dual points survive a scale/unscale round trip, and solving the scaled problem and unscaling solves the original one. "
  "Sparse data keeps its pattern and stays usable by the solvers; the identity preconditioner changes nothing.",
  ["inputs", "configurations", "histories"], "all QP data in dense and sparse storage, float and double",
  "One test equilibrates one dense and one sparse problem.",
  [S + "qp_preconditioners.hpp"], "accumulation of the scaling factors, cost scaling, scaling of bounds, round trips",
  "metamorphic runtime monitor over generated QPs, under sanitizers", "The factors are read from the preconditioner's public members; re-equilibration (update) does not compile for dense data and is not covered.")

p("P06", "The NLP interface evaluates costs, constraints and derivatives consistently",
  "For every user-defined problem the evaluations of ProblemBase return the user's functions and their exact derivatives: cost, gradient, Hessian, constraints, the stacked constraint vector and Jacobian, the linearised variants, and every overload of the Lagrangian and its gradient and Hessian. "
  "Different overloads agree, the order and number of evaluations on one object does not matter, no memory content leaks into a result, and missing cost or constraint functions and constant functions evaluate to the proper zeros.",
  ["inputs", "configurations", "histories"], "all smooth user functions, all points, parameters and multipliers, all sequences of evaluations on one object",
  "The tests evaluate three hand-written problems at a single point each and never mix evaluations on one object.",
  [S + "nlproblem.hpp", A], "seeding of derivatives, stacking of equality and inequality blocks, persistent AD temporaries, Lagrangian assembly with the box multipliers",
  "runtime differential monitor: random programs evaluated by the NLP interface and by independent jet arithmetic, on poisoned memory under sanitizers",
  "The jets are written independently in long double; sparse ProblemBase is covered by the OCP properties.")
p("P21", "Automatic differentiation computes exact derivatives",
  "Evaluating any composition of the supported operators and functions on AutoDiffScalar, first or second order (nested), fixed or dynamic derivative size, returns the value the plain scalar type returns and the exact gradient and Hessian. "
  "Assigning, reassigning, mixing with constants and in-place operators keep value and derivatives consistent.",
  ["inputs"], "all straight-line programs over the supported operations, all evaluation points in their domain",
  "The tests differentiate a handful of fixed expressions.",
  [A], "derivative rules, expression templates, constant assignment, derivative resizing of dynamic types",
  "runtime differential monitor: random straight-line programs against independent jet arithmetic, under sanitizers",
  "Points near non-differentiable kinks are rejected; pow of nested types does not compile in the library and is written as exp(c log x).")
p("P07", "Quasi-Newton updates follow their formulas and never destroy the Hessian",
  "The damped BFGS update and the safeguarded SR1 update return the matrix of their defining formula for every step and gradient change. "
  "BFGS keeps a positive definite matrix positive definite and symmetric, satisfies the (damped) secant equation and damps negative curvature; a degenerate step leaves the matrix unchanged. "
  "A singular Hessian, a zero step or a perfect prediction never produces a non-finite matrix, and the step vectors are not modified.",
  ["inputs", "histories"], "all positive semidefinite (for SR1: symmetric) matrices, all steps and gradient changes, all sequences of updates",
  "Three tests run two-dimensional examples with one curvature sign each.",
  [S + "bfgs.hpp", S + "sr1.hpp"], "damping threshold, rank-one terms, skip conditions",
  "runtime monitor comparing every update with the formula in long double, under sanitizers", "Sequences stop when accumulated rounding makes the comparison uninformative.")
p("P08", "SQP reports truthfully and converges on well-posed problems",
  "Every SQP solve starts from the given point, linearises at the current iterate, takes steps along the QP solution and respects the iteration limits. "
  "When it reports SOLVED the returned point is feasible to the requested tolerance, the last step is below the requested tolerances and, after a full step from a converged QP, it is a stationary point with the returned multipliers. "
  "It stops exactly when the criteria are met or the limit is reached; the reported norms, cost, violation and iteration counts are those of the returned point, whatever the solver object was used for before; "
  "strictly convex quadratic problems are solved to their minimiser, and planted convex nonlinear problems mostly are.",
  ["inputs", "histories", "configurations"], "all smooth problems, starting points, settings, QP back ends and preconditioners, all sequences of solves on one solver",
  "The tests run four fixed problems from one starting point each and compare the answer with two digits.",
  [L, S + "bfgs.hpp"], "main loop, construction of the QP, step and multiplier update, termination criteria, info bookkeeping",
  "runtime trace monitor over generated and planted nonlinear programs, under sanitizers",
  "The line search gives no convergence guarantee for a single nonlinear problem, so nonlinear convergence is judged on batches with a wide margin; runs that leave the region of finite function values are stopped. Three weaknesses of the solver are recorded as known findings.")
p("P09", "Step sizes satisfy the globalisation rule",
  "The step size chosen by SQP is the first member of the sequence 1, tau, tau^2, ... that satisfies the sufficient decrease condition of the l1 merit function with the QP multipliers as weight, or the last one when the trial limit is reached; the violation measures in it are those of the user's constraints and bounds. "
  "The line-search filter rejects exactly the points dominated (with margin) by its entries, always blocks a point it was given, keeps at most its depth, removes the entries a new point dominates while it has room, and otherwise drops only its oldest entry.",
  ["inputs", "configurations", "histories"], "all problems, points, directions, multipliers and settings; all sequences of filter operations",
  "No test calls the line search or the filter directly.",
  [L, S + "line_search.hpp"], "merit function, backtracking loop, constraint violation norms, filter dominance and eviction",
  "runtime monitor against the definition of the rule (long double) and a reference model of the filter, under sanitizers", "Decisions closer to equality than rounding are not judged.")
p("P10", "Collocation schemes integrate, differentiate and project polynomials exactly",
  "For every order and scalar type, the Chebyshev and Legendre schemes deliver the Gauss-Lobatto nodes in their documented order, the interpolatory (Clenshaw-Curtis or Gauss) weights and the differentiation matrix of those nodes. "
  "So quadrature on any interval, differentiation of nodal values and the orthogonal projection are exact for every polynomial the order admits, basis polynomials evaluate correctly up to and at the interval ends, and the Galerkin products are those of the basis. "
  "Splines of a scheme use the scheme's local quantities; no result depends on memory content.",
  ["inputs", "configurations"], "all polynomial orders, scalar types, polynomials, intervals and evaluation points",
  "The test programs print values for one order and check nothing.",
  [P + "ebyshev.hpp", P + "legendre.hpp", P + "polynomial_math.hpp", P + "projection.hpp", P + "splines.hpp"], "closed formulas for nodes, weights, differentiation matrices and normalisation; basis recurrences",
  "runtime differential monitor against nodes, weights and derivatives constructed independently in long double, under sanitizers", "Chebyshev orders 1 to 21, 24 and 31, Legendre orders 2 to 10; tolerance grows with the order as the construction's own rounding does.")
p("P11", "Splines, Lagrange interpolation and polynomial arithmetic are exact",
  "An equidistant cubic spline evaluates, at every argument including knots, both ends and points outside the table, the polynomial of the segment that contains it or of the nearest segment, and differentiates through first and second order AD. "
  "The Lagrange basis equals one at its own node and zero at the others, and interpolation of vector data reproduces the nodal values and every polynomial of fitting degree, for any nodes. "
  "Products (truncated) and derivatives of coefficient vectors are those of the polynomials, including zero polynomials, and no access leaves the tables.",
  ["inputs"], "all coefficient tables, node sets, data and arguments",
  "The tests evaluate one spline at one interior point.",
  [P + "splines.hpp", P + "polynomial_math.hpp"], "segment lookup and clipping, Horner evaluation, basis normalisation, coefficient convolution",
  "runtime differential monitor against long double evaluation, under sanitizers", "Arguments within rounding of a knot may use either neighbour; node sets whose monomial form is ill-conditioned are skipped.")
p("P12", "The transcription of an optimal control problem is the stated one",
  "For every set of user functions, point, static parameters and time window, ContinuousOCP evaluates cost, defects, path constraints and Lagrangian exactly as the collocation method defines them: "
  "the time grid covers the current window, each segment's nodes are collocated with the segment's differentiation matrix, integrals use the scheme's weights, shared nodes belong to both segments' quadrature, the Mayer term acts on the final node. "
  "Changing the time window, evaluating other points or missing terms never leaves a trace in later results, and inputs are never modified.",
  ["inputs", "configurations", "histories"], "all user functions, dimensions, segment counts, orders, points, windows and sequences of calls",
  "The tests compare one robot model at one point with printed values.",
  ["src/control/continuous_ocp.hpp"], "time grid, defect loop, quadrature loop, argument order of the user functions",
  "runtime differential monitor against an independent transcription in long double, under sanitizers", "Seven combinations of dimensions, order and segments; Chebyshev nodes, the only ones whose order the class supports.")
p("P13", "Dense derivatives of the transcribed problem are exact",
  "Gradient and Hessian of the cost, Jacobians of the constraints, and gradient and Hessian of the Lagrangian (with the requested cost scaling) of a dense ContinuousOCP equal the derivatives of the transcription, in every block including those of parameters, for every problem with or without Lagrange, Mayer or inequality terms. "
  "Results are the same whatever was evaluated before and whatever the output arguments or the object's memory contained.",
  ["inputs", "configurations", "histories"], "all smooth user functions, dimensions, points, multipliers, windows and sequences of calls",
  "The tests look at one model without parameters in the cost and check few entries.",
  ["src/control/continuous_ocp.hpp", A], "seeding of the AD variables, block placement, Mayer contribution, multiplier indexing",
  "runtime differential monitor against second order jet arithmetic in long double, under sanitizers", "Six combinations of dimensions, order and segments.")
p("P14", "Sparse derivatives equal the dense ones and keep their pattern",
  "In sparse format the same quantities are stored in matrices with the announced number of entries, sorted columns and no duplicates; the first evaluation into an empty matrix and every later evaluation into a matrix filled before give the derivatives of the transcription. "
  "The block quasi-Newton update changes exactly the pattern's entries, by the damped BFGS formula, and leaves the matrix unchanged when the step carries no curvature information.",
  ["inputs", "configurations", "histories"], "all smooth user functions, dimensions, points, multipliers, windows, sequences of calls and matrices new or reused",
  "The tests compare one model with its dense form at one point.",
  ["src/control/continuous_ocp.hpp"], "insertion and in-place update paths, gluing of segments, offsets in compressed columns, block BFGS",
  "runtime differential monitor against jet arithmetic plus a storage-structure monitor, under sanitizers", "Six combinations of dimensions, order and segments; the quasi-Newton formula is compared for positive curvature of the old matrix.")
p("P15", "The MPC wrapper means what it says at every time",
  "After any sequence of calls on one MPC object, each bound, guess, initial condition and parameter constrains exactly the quantity it names at exactly the nodes it names, and never anything else. "
  "The state and control accessors by node index, by index pair, by vector and by time return the solution of the last solve; interpolation at a time inside the horizon is that of the collocation polynomial of the segment containing it, for every horizon start and length, and agrees with the nodal values at the nodes. "
  "Changing the time limits moves the time grid, and everything not set by a call keeps its value.",
  ["inputs", "histories", "configurations"], "all dimensions, horizons, bounds, guesses, query times and sequences of wrapper calls",
  "The tests solve one robot problem on a horizon starting at zero and read the solution at few times.",
  ["src/control/mpc_wrapper.hpp", P + "splines.hpp"], "index arithmetic over time-descending nodes, time grid, segment lookup and Lagrange interpolation",
  "runtime model monitor: a controller driven by random calls and compared after every call with a model indexed by time, under sanitizers", "Five combinations of dimensions, order, segments, parameters and precision.")
p("P16", "MPC solves the stated optimal control problem in closed loop",
  "Driving a controller through a sequence of initial conditions, bounds, parameters and time windows, every solve that reports SOLVED returns a feasible point of the discretised problem: dynamics, path constraints, bounds and initial condition within the requested tolerance, with multipliers and stationarity to match. "
  "Linear-quadratic and well-posed convex problems are solved at every step. "
  "A controller that lived through another history and a fresh one, given the same guess and settings, return the same answer.",
  ["histories", "inputs", "configurations"], "all smooth models, horizons, closed-loop histories and settings, both QP back ends",
  "The tests run single open-loop solves or print timings.",
  ["src/control/mpc_wrapper.hpp", "src/control/continuous_ocp.hpp", L], "problem assembly, warm start between solves, bounds and parameters passed to the solver",
  "runtime certificate monitor over closed loops (independent transcription in long double) and twin controllers, under sanitizers", "Certificates are judged with the tolerances the solver was given, with a margin for second order effects of the last step; dense transcription.")
p("P18", "Fixed-size solvers and controllers never use dynamic memory",
  "Once constructed, a solver or controller for dense problems of fixed size performs every operation (solving cold and warm, changing bounds, guesses, parameters, time limits and settings, penalty updates, preconditioning, reading and interpolating solutions) without any call to the memory allocator.",
  ["inputs", "histories", "configurations"], "all problem data, settings and sequences of calls on dense fixed-size QP solvers, SQP solvers and MPC controllers",
  "No test looks at the allocator; the documentation promises static allocation for embedded use.",
  ["src/control/mpc_wrapper.hpp", "src/control/continuous_ocp.hpp", L, S + "qp_base.hpp", S + "admm.hpp", S + "box_admm.hpp", S + "qp_preconditioners.hpp", P + "splines.hpp"], "fixed-size Eigen members and temporaries",
  "allocation monitor: allocator hooks armed around every call, under AddressSanitizer", "Sizes below Eigen's stack allocation limit; the default (non-printing) callbacks; dense classes only.")
p("P20", "LQR design solves its Riccati equation",
  "For every stabilisable plant with admissible weights, including cross weights, semidefinite state weights, unstable and uncontrollable but stable plants, lqr returns the stabilising solution S of the algebraic Riccati equation and the gain K that goes with it: "
  "S is symmetric, the closed loop is stable and its cost is x'Sx; indefinite weights give zero S and K. "
  "The building blocks hold on their own: the pseudo-inverse satisfies the Penrose conditions for every shape, rank and scale, the Lyapunov solver solves A X + X A' = Q for every solvable equation, the Newton step length minimises the residual, the starting guess is stabilising. Arguments are never modified.",
  ["inputs"], "all plants, weights and matrices for which the equations are well posed",
  "The LQR test is disabled in the build and checks nothing.",
  ["src/control/lqr.hpp"], "singular value inversion, Schur back substitution, Newton iteration with line search, assembly of the Riccati equation",
  "runtime monitor of the defining equations in long double and a Hamiltonian reference, under sanitizers", "Plants of up to 8 states whose Riccati equation is well conditioned.")
p("P19", "Distinct objects never influence each other",
  "QP solvers, SQP solvers, problems, splines, quasi-Newton updaters and controllers share nothing: objects used from different threads at the same time, each by one thread, run without any data race, and every object produces bitwise the results it produces when it is the only one in the process. "
  "The same holds when calls on several objects of one class, with different data, settings and life times, are interleaved in one thread, whatever the order.",
  ["schedules", "histories", "inputs"], "all interleavings of threads and calls, numbers of objects, problem data and settings",
  "The tests build one object of a class at a time in one thread.",
  ["src/control/mpc_wrapper.hpp", "src/control/continuous_ocp.hpp", L, S + "qp_base.hpp", S + "admm.hpp", S + "box_admm.hpp", S + "qp_preconditioners.hpp", S + "nlproblem.hpp", S + "bfgs.hpp", P + "splines.hpp"],
  "state kept in members, constant tables initialised once, no mutable statics",
  "ThreadSanitizer over concurrently driven objects with random delays, plus bitwise comparison with solo runs", "Up to eight threads; user callbacks and user problem classes are the harness's own.")
p("P17", "Results never depend on uninitialised or foreign memory",
  "Whatever the solvers, problem classes, controllers, quasi-Newton updaters, preconditioners, autodiff, splines, quadrature and LQR routines are asked to do within their documented interface, no decision, output or stored result depends on memory that was never written, "
  "no access leaves the object or array it belongs to, no freed memory is used, and no arithmetic is undefined. "
  "This holds whatever the memory in which an object is constructed contained before, from the first call on (also before any setup, guess or previous solve) and for every sequence of calls.",
  ["inputs", "histories", "configurations"], "all sequences of documented calls, problem data, settings, dimensions and contents of the memory objects are built in",
  "The tests build objects on a stack that usually contains zeros and run without any sanitizer.",
  ["src/control/mpc_wrapper.hpp", "src/control/continuous_ocp.hpp", L, S + "qp_base.hpp", S + "admm.hpp", S + "box_admm.hpp", S + "qp_preconditioners.hpp", S + "nlproblem.hpp", S + "bfgs.hpp", "src/control/lqr.hpp", P + "splines.hpp", P + "legendre.hpp", A],
  "member initialisation, index arithmetic on fixed-size storage, sparse value-pointer walks, masks of active indices",
  "MemorySanitizer over objects built in poisoned memory, plus gcc AddressSanitizer, UBSan and checked containers, over the workloads of all other checks", "One or two instantiations of every module per compiler; clang's AddressSanitizer and UBSan also guard every other check.")
p("P22", "The collocation functors evaluate the collocated equations exactly",
  "The stand-alone functors ode_collocation, sparse_ode_collocation, cost_collocation and constraint_collocation, constructed with or without given functors, evaluate on the stacked vector of states, controls and parameters exactly the collocated equations for the time window passed in: "
  "defects D x - (tf - t0)/(2 segments) f at every node, the integral of the Lagrange term plus the Mayer term of the final state, and any function at every node. "
  "Their Jacobians, gradients and Hessians with respect to states and controls are exact, the columns of the parameters being zero; the sparse Jacobian is the same whether the matrix was empty or filled before, and stays sorted without duplicates, arguments are never modified and no result depends on earlier calls or memory content.",
  ["inputs", "configurations", "histories"], "all user functions, dimensions, orders, numbers of segments, points, time windows and sequences of calls",
  "No test uses these classes.",
  [O + "ode_collocation.hpp", O + "sparse_ode_collocation.hpp", O + "cost_collocation.hpp", O + "constraints_collocation.hpp"], "block differentiation matrix, quadrature weights at segment borders, block placement of derivatives, in-place update of the sparse Jacobian",
  "runtime differential monitor against an independent transcription in long double, under sanitizers", "Six combinations of dimensions, order and segments, Chebyshev nodes.")
p("P23", "The adapters state the user's problem to OSQP, qpmad and Ipopt and report back",
  "What the adapters hand to OSQP (Hessian, gradient, rows [A; I] with their bounds, guess, settings) and to qpmad (objective, constraints, box, settings) is exactly the problem of the call, first or repeated, with or without warm start, pattern reuse and guess. "
  "Ipopt is given the dimensions, bounds and starting point the user set, and at every point it asks for the user's objective, gradient, constraints, Jacobian and lower triangle of the Lagrangian Hessian (with the objective factor and multipliers it passed), dense or sparse, structure and values in the same order, without touching memory outside its arrays. "
  "The solution, multipliers (those of bounds as upper minus lower), cost, residuals, iteration counts and status an external solver delivers are what the adapter returns, and a failure is never reported as SOLVED.",
  ["inputs", "configurations", "histories"], "all problems, points, multipliers, settings, answers of the external solver and sequences of solves",
  "The tests of the adapters are built only where the external solvers are installed.",
  [S + "osqp_interface.hpp", S + "qpmad_interface.hpp", S + "ipopt_interface.hpp", S + "qp_base.hpp"], "construction of the stacked constraint matrix, triplet order of structure and values, multiplier layout, status mapping",
  "runtime monitor in stand-ins of the three solver interfaces that record what they are given and answer as scripted, under AddressSanitizer",
  "The external solvers themselves are not covered: the stand-ins accept every documented call. qpmad's overload with a guess is not judged.")
NA = [({"id": "P24", "title": "The CasADi-based NMPC, collocation and integration tools solve what is stated",
  "statement": "The CasADi-based parts (generic and multi-segment Chebyshev collocation, NMPC and path-following controllers, integrators, pseudo-arclength continuation) transcribe, integrate and solve the optimal control and continuation problems they are given.",
  "quantifier": {"over": ["inputs", "configurations"], "text": "all models, horizons, orders and initial conditions"},
  "why_tests_cant": "No test covers them.",
  "anchors": {"files": ["src/generic_ocp.hpp", "src/chebyshev.hpp", "src/chebyshev_ms.hpp", "src/chebyshev_soft.hpp", "src/nmpc.hpp", "src/nmpf.hpp", "src/polymath.cpp", "src/integration/integrator.cpp", "src/integration/chebyshev_integrator.hpp", "src/experimental/psarc.hpp"], "mechanism": [{"name": "symbolic transcription with CasADi, solved by Ipopt", "where": "src/generic_ocp.hpp, src/chebyshev.hpp"}]}},
  "CasADi and Ipopt are not installed and cannot be fetched; none of these sources compiles here, so there is no execution to monitor.")]
