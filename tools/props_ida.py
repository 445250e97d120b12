LIB, SOLVE, STOP, CSTEP, RCHK = "src/lib.rs", "src/impl_solve.rs", "src/impl_stop_test.rs", "src/impl_complete_step.rs", "src/impl_r_check.rs"
INLS, ILS, IIO, RMS, TOLC, CONST = "src/ida_nls.rs", "src/ida_ls.rs", "src/ida_io.rs", "src/norm_rms.rs", "src/tol_control.rs", "src/constants.rs"
ROB, CRANK = "src/sample_problems/roberts.rs", "src/sample_problems/slider_crank.rs"
NRAT = "symbolic execution of the compiled Rust code at a symbolic scalar type + SMT (nonlinear real arithmetic)"
STUBT = "symbolic execution of the compiled Rust code with nondeterministic solver/callback stubs + SMT (nonlinear real arithmetic)"
ISH = "src/ is compiled against API shims of ndarray, failure and log and interfaces for the modules it lost (linear, nonlinear). "
prop("C16", "get_solution returns the interpolant and its exact derivative",
  "For a time t in the last step, get_solution sets y to the value at t of the interpolating polynomial of the last kused+1 solutions (Newton form over the stored differences) and y' to the exact derivative of that same polynomial; differences above the order used do not enter. Steps may have any sizes and either direction.",
  ["inputs"], "orders 1..5, every step-size history of one sign, every t from one step before the current time onwards, every difference table (basis vectors, the result is linear in it)",
  "The Roberts regression data sample one step; a wrong index in a product is invisible for equal steps or low order.",
  [LIB, SOLVE], m(("get_solution", LIB + ": Ida::get_solution"),), technique=NRAT, note=REAL + ISH + "Orders 1 to 5, complete." + BND)
prop("C17", "get_dky returns the k-th derivative of the interpolant, k up to the order",
  "get_dky(t, k) returns, for 0 <= k <= kused, the k-th derivative at t of the same polynomial that get_solution evaluates. A k above the order used is refused with BadK and leaves the output vector alone.",
  ["inputs"], "orders 0..5, all k up to 7, every step-size history of one sign, every t from one step before the current time onwards",
  "No test calls get_dky with k > 1; derivatives need triangular recurrences where a wrong bound shows only for some (order, k).",
  [LIB], m(("recurrence for the derivative coefficients", LIB + ": Ida::get_dky"),), technique=NRAT, note=REAL + ISH + "All 21 (order, derivative) pairs." + BND)
prop("C18", "Interpolation is legal exactly for times not before the last step",
  "get_solution and get_dky accept a time t if it does not lie before the start of the last step (in the direction of integration); times before it, beyond a roundoff allowance of the order of 100 unit roundoffs, are refused with BadTimeValue, while the start itself up to some unit roundoffs of the current time is accepted, and a refused call leaves y, y' and the output as they were.",
  ["inputs"], "every current time, last and next step size (both directions) and t",
  "Tests ask inside the last step only; the direction-dependent comparison needs negative steps and refused times.",
  [LIB], m(("legality test on t", LIB + ": Ida::get_solution, Ida::get_dky"),), technique=NRAT, note=REAL + ISH + "Order 1." + BND)
prop("C19", "The prediction extrapolates the last solution; step coefficients fit the points",
  "At the start of a step of size h, the predicted y and y' are the value and derivative at t_n + h of the interpolant of the last step, whatever the step sizes and order changes before. The coefficients are psi_j = distance from t_n + h to the j-th last point, alpha_j = h/psi_j, sigma_j = j! h^j/(psi_1..psi_j), and cj = (1 + 1/2 + ... + 1/k)/h.",
  ["inputs", "histories"], "all (last order, next order, number of equal steps) up to order 5, every step-size history of one sign",
  "The regression test covers a step of one run; the shortcuts for equal steps interact with order and step changes.",
  [LIB], m(("coefficients", LIB + ": Ida::set_coeffs"), ("prediction", LIB + ": Ida::predict")),
  state=[dict(name="phi, psi, beta, gamma", meaning="modified divided differences, their distances and conversion factors", where=LIB + ": Ida")],
  technique=NRAT, note=REAL + ISH + "All order/history cases up to order 5." + BND)
prop("C20", "A failed step attempt is undone completely",
  "After a failed attempt the difference table, the point distances psi and the time are exactly what they were before the attempt, for every order and step history. On a failed first step y stays the initial y and the first difference is h y' for the reduced h.",
  ["inputs", "fault_sequences"], "all (last order, next order, number of equal steps) up to order 5, every step-size history; the first step with any reduction",
  "A step that fails is rare in the tests, and its traces show only later as a loss of accuracy.",
  [LIB], m(("undo", LIB + ": Ida::restore"), ("first step", LIB + ": Ida::reset")), technique=NRAT, note=REAL + ISH + "Orders up to 5; exact arithmetic, so undoing is up to rounding in floats." + BND)
prop("C21", "The interpolant after a step passes through the last k+1 solutions",
  "After an accepted step of order k, the stored polynomial takes the new solution at the new time and the previous k solutions at theirs; get_solution at the start and at the end of the step returns exactly these. The difference that a raised order builds on next is the new solution's distance from the extrapolation of the last ones. Order and size of the step become get_last_order and get_last_step and the step count goes up by one.",
  ["inputs", "histories"], "all (last order, next order, number of equal steps) up to order 5, every step-size history, any correction",
  "Continuity across steps of changing order and size is a statement about all histories; tests compare a few numbers of one run.",
  [CSTEP, LIB], m(("update of the differences", CSTEP + ": Ida::complete_step"),), technique=NRAT, note=REAL + ISH + "Orders up to 5." + BND)
prop("C22", "The next order and step size follow the error estimates, within limits",
  "After an accepted step the order changes by at most one and stays between 1 and the maximum; the next step keeps its direction, is at most doubled, at least halved and never above hmax. In the start-up phase order and step are raised (from the second step on) until the order was lowered or is at the maximum, and start-up never returns. Afterwards the order is raised only after more than k+1 equal steps of it and only if the weighted error estimate decreases, lowered only if it does not increase, and the step is doubled, kept, or reduced to h*(2 err + 0.0001)^(-1/(k+1)) clipped to [1/2, 9/10] of it, as the estimated error asks.",
  ["inputs", "histories"], "every error estimate, weight and hmax; orders up to 5, counts and last orders around the switching points (all of them in the thorough tier)",
  "The decision has some forty combinations of order, phase, history and estimates; a run takes a handful.",
  [CSTEP], m(("order and step selection", CSTEP + ": Ida::complete_step"),), technique=NRAT, note=REAL + ISH + "Powers (2 err + 0.0001)^(-1/(k+1)) are algebraic variables." + BND)
prop("C23", "A step either succeeds or gives up with its reason after bounded failures",
  "An attempt that fails recoverably or fails the error test is retried with a smaller step of the same direction; error test failures and convergence failures are counted, and when maxnef or maxncf of them have occurred in one step the step ends with the error naming the cause (ConvergenceFail, RepeatedResidualError, ConstraintFail, an error test failure). A quarter of the step is taken after a convergence failure and after repeated error test failures, a reduction by the error estimate within [1/4, 9/10] after the first; the order never rises, and falls to 1 from the third. When the step gives up, time and history are those before it.",
  ["fault_sequences", "inputs"], "every failure kind, count and error estimate, orders 1..5; whole steps with every sequence of outcomes for maxnef = maxncf = 2 and orders 1, 2 (3 thorough)",
  "The sample problems barely fail; loops over repeated failures and the mix of both kinds never run.",
  [LIB, INLS, ILS], m(("failure handling", LIB + ": Ida::handle_n_flag"), ("the attempt loop", LIB + ": Ida::step")),
  state=[dict(name="ncfn, netf", meaning="total convergence and error test failures", where=LIB + ": Ida::counters")],
  technique=STUBT, note=REAL + ISH + "The nonlinear solver is a stub whose outcome is free." + BND)
prop("C24", "A step is accepted exactly when its estimated local error is within tolerance",
  "A step is accepted if and only if ck times the weighted RMS norm of the correction is at most 1, where ck is the larger of alpha_{k+1} and |alpha_{k+1} + alpha_s - alpha^0| of the variable-step coefficients. With algebraic variables suppressed only differential components count. The order suggested is one lower exactly when the estimate there is no larger (at most half, for order 2). The estimate of an accepted step is kept as its local error.",
  ["inputs", "histories"], "every correction, weight, difference table and mask (1 component, 2 with masks), orders 1..5; ck for every step history up to order 5",
  "One run accepts nearly all steps; an error test that is too lax shows only in accuracy.",
  [LIB, RMS], m(("error test", LIB + ": Ida::test_error"), ("error coefficient", LIB + ": Ida::set_coeffs")), technique=NRAT, note=REAL + ISH + BND.strip())
prop("C25", "The stop time is never passed, is returned once, and is reached exactly",
  "With a stop time set, no residual is evaluated and no step ends beyond it; a step that would pass it is shortened to end there. When it has been reached, solve returns TStop with that time, once, after which it is no longer set; a stop time already passed is refused with BadStopTime.",
  ["inputs", "histories"], "every time, step, stop time and tout in both directions and both modes; first and later steps, with a retry after a failure",
  "The tests set no stop time; reaching it needs a step that would pass it, in either direction.",
  [STOP, LIB, SOLVE], m(("stop tests", STOP + ": stop_test1, stop_test2"), ("end of the step", LIB + ": Ida::step")), technique=NRAT, note=REAL + ISH + "Order 1; roundoff of t enters as an arbitrary state." + BND)
prop("C26", "solve returns what its mode promises, with the solution at the time returned",
  "In normal mode solve returns Success with tret = tout as soon as tout is reached or passed, in one-step mode after every step with the time reached, and y, y' are the solution and derivative at tret. Time only moves forward; after mxstep steps in a call it returns an error with the solution at the point reached, and the next call carries on. If a step fails the error comes back with the time and solution of the last good step.",
  ["histories", "inputs"], "up to two calls (three thorough) in any mode sequence with any tout, up to 2 steps each, with and without a stop time; failures in steps 1 to 3; any correction in the first step",
  "Sequences of modes and touts around step ends are not sampled by the single example.",
  [SOLVE, STOP], m(("driver", SOLVE + ": Ida::solve"), ("stop tests", STOP + ": stop_test1, stop_test2")), technique=STUBT, note=REAL + ISH + "The solution is a straight line for the multi-step histories." + BND)
prop("C27", "The first step starts towards tout with a size safe for the tolerances",
  "Without a user's initial step the first step points towards tout, is at most a thousandth of the way, moves y by at most half a tolerance in the weighted norm, and is the largest such step; hmax and the stop time bound it further, a user's step too. tout at t0, a user's step pointing away from tout, and a stop time behind t0 are refused as illegal input before any step.",
  ["inputs"], "every initial state, weight, tout, hmax, user's step and stop time (1 component; 2 with masks)",
  "The examples use one start; a wrong factor goes unnoticed as the error test corrects it.",
  [SOLVE], m(("first call", SOLVE + ": Ida::solve"),), technique=NRAT, note=REAL + ISH + BND.strip())
prop("C28", "The root search finds the earliest sign change of a step, to its tolerance",
  "After each step, if an active root function changed sign or became zero (in the direction asked for) between the last point searched and the new one, solve reports a root in that interval, located within 100 unit roundoffs of (|t|+|h|) or at an exact zero, with no sign change at any evaluated point before it. get_root_info gives 1 for a function rising there, -1 for a falling one, 0 for the others; y and y' are the solution at the root. If nothing changed sign no root is reported and the next search starts at the new point. Each probe lies strictly inside the current bracket and is the Illinois point unless that is too close to an end.",
  ["inputs", "histories"], "every sequence of values of the root functions: 1 function up to 3 evaluations, 2 up to 2, 3 up to 1 (more thorough), any activity and direction flags, both modes; up to 3 bracketing probes",
  "One example has two roots; ties, zeros at the ends, several functions and repeated brackets on one side are never seen.",
  [RCHK], m(("search in a step", RCHK + ": r_check3"), ("Illinois algorithm", RCHK + ": root_find")),
  technique=STUBT, note=REAL + ISH + "The values of the root functions are free variables." + BND)
prop("C29", "Nonlinear systems and Jacobians are posed at the current time, iterate and cj",
  "For a correction e the system handed to the nonlinear solver is F(t_n, y_pred + e, y'_pred + cj e). Its setup evaluates the user's Jacobian once at the current t_n, cj, y, y' and residual into a zeroed matrix and hands that to the linear solver; a solve uses that matrix, and its solution is scaled by 2/(1+cjratio) for matrix-based solvers. Failures of the linear solver's setup and solve are recoverable failures, never panics or success. All evaluations are counted.",
  ["inputs", "fault_sequences"], "1 to 3 unknowns, any state, two setups/system calls in a row; direct, matrix-iterative and iterative solver kinds; failing and succeeding",
  "The tests use an autonomous problem, so a wrong time is invisible, and a solver that never fails.",
  [INLS, ILS], m(("system, setup, solve", INLS + ": IdaNLProblem"), ("linear interface", ILS + ": IdaLProblem")), technique=STUBT, note=REAL + ISH + BND.strip())
prop("C30", "Corrections pass a rate-based convergence test; old matrices are renewed",
  "The iteration counts as converged exactly when the weighted norm of the first correction is negligible (at most 1e-4 toldel), or the norm times rate/(1-rate) is at most the tolerance, where the rate is the m-th root of the ratio of the m-th to the first norm (at the first correction: the estimate from before); a rate above 0.9 is a recoverable divergence. A step asks for a new iteration matrix exactly when it is the first step, or cj has changed to a ratio outside [0.6, 1/0.6] since the last.",
  ["inputs"], "every correction, weight and tolerance for iterations 0..3 (1 component; 2 for the first two); every cj history",
  "The decision is about ratios at thresholds; tests do not come near them.",
  [INLS, LIB], m(("convergence test", INLS + ": ctest"), ("decision to set up", LIB + ": Ida::nonlinear_solve")), technique=NRAT, note=REAL + ISH + "Rates are algebraic variables." + BND)
prop("C31", "Error weights are 1/(rtol |y| + atol), and no step runs with illegal ones",
  "The weight of each component is the reciprocal of rtol |y_i| + atol_i. No step, first or later, is tried unless every weight is positive and finite, nor when the tolerances are below the roundoff of y: then TooMuchAccuracy is returned with a factor that would make them attainable. This holds for every double.",
  ["inputs"], "every real rtol >= 0, atol > 0, y up to 3 components; every finite double for the legality test; any two weights at the first and at a later step",
  "Zero, negative, infinite and NaN weights need inputs no test has.",
  [SOLVE, TOLC], m(("weights", TOLC + ": TolControlSS, TolControlSV"), ("tests before each step", SOLVE + ": Ida::solve")), technique=NRAT + "; tolerance legality in QF_FP", note=REAL + ISH + BND.strip())
prop("C32", "The sample problems are the problems they document",
  "Roberts: the residual is the documented kinetics, the Jacobian routine returns dF/dy + cj dF/dy' exactly, and the root functions are y1 - 1e-4 and y3 - 0.01. Slider-crank: the constraint residuals, the velocity constraints as their time derivative, the multiplier terms G^T mu, G^T lambda, and the spring-damper force as the derivative of the documented potential are consistent.",
  ["inputs"], "every y, y', cj and parameter value",
  "No test compares the Jacobian with the residual, or evaluates the slider-crank residual at all.",
  [ROB, CRANK], m(("Roberts", ROB), ("slider-crank", CRANK)), technique=NRAT, note=REAL + ISH + "The sample problems are written in f64: the check compiles a copy whose f64 is the symbolic scalar; sine and cosine are free variables with s^2+c^2=1." + BND)
prop("C33", "The integrator's norm is the weighted RMS norm over the selected components",
  "The norm of a vector is the square root of the mean over all n components of (x_i w_i)^2, where with a mask only the components it selects contribute (and n stays the full length). The integrator applies the mask exactly when it suppresses algebraic variables.",
  ["inputs"], "every vector, weight and mask up to length 5",
  "The norm is tested for one vector; masks are not.",
  [RMS, LIB], m(("norms", RMS), ("mask", LIB + ": Ida::wrms_norm")), technique=NRAT, note=REAL + ISH + BND.strip())
prop("C34", "At constant step size the corrector is the BDF of the order in use",
  "With equal steps, the y and y' that a step of order k solves F(t, y, y') = 0 for satisfy h y' = sum over m = 1..k of (1/m) times the m-th backward difference of y: the backward differentiation formula of order k. The error coefficient is 1/(k+1).",
  ["inputs"], "orders 1..5, any history and correction, both directions, equal steps before, an order/step reset, or k+1 to k+3 equal steps after steps of any other sizes",
  "A wrong leading coefficient still converges and only lowers the accuracy.",
  [LIB, INLS], m(("corrector", LIB + ": Ida::nonlinear_solve"), ("coefficients", LIB + ": Ida::set_coeffs")), technique=NRAT, note=REAL + ISH + "Orders 1 to 5." + BND)
prop("C35", "Along the way every root is reported exactly once, in order",
  "Successive solve calls report every crossing of the root functions up to the time reached, each once and in order, before Success is returned; a root at tout or just returned is not reported again. Functions that are zero at the start are watched as soon as they leave zero, all others from the start. A function still zero just behind its root is an error (CloseRoots), another one that is zero there is a root at that point.",
  ["histories", "inputs"], "1 or 2 linear root functions anywhere along a straight line, both modes and directions; restarts and the start with up to 3 functions of any values",
  "The example has two well separated roots; roots at the ends of steps, at tout, or at the start are where repeats and losses occur.",
  [RCHK, SOLVE], m(("start", RCHK + ": r_check1"), ("after a root", RCHK + ": r_check2"), ("driver", SOLVE + ": Ida::solve")),
  state=[dict(name="tlo, glo, gactive, irfnd", meaning="where the search stands and which functions are watched", where=LIB + ": Ida")],
  technique=STUBT, note=REAL + ISH + BND.strip())
prop("C36", "A step with the repository's Newton and LU solvers solves F(t, y, y') = 0",
  "With the repository's own Newton iteration and LU solver behind the integrator, an accepted step on a linear DAE A y' + B y = q satisfies the discretised equation exactly when its iteration matrix is current (in exact arithmetic), for the first step and for later ones; a singular iteration matrix leads to a retry with a smaller step and then to an error, not to a panic or a wrong result. The statistics (residual and Jacobian evaluations, failures, steps) are the true counts.",
  ["inputs", "fault_sequences"], "one unknown (up to 2 Jacobians; 3 thorough), linear pairs (one Jacobian), later steps of order 1..4 with any step history",
  "Components are tested apart, if at all; their composition (signs, scaling by cj, failure paths) is not.",
  [LIB, INLS, ILS, NEWT, DENSE], m(("composition", LIB + ": Ida::step"), ("Newton", NEWT), ("LU", DENSE)), technique=NRAT, note=REAL + ISH + "An adapter connects ndarray-style views with the nalgebra-based crates." + BND)
prop("C37", "Integrating backwards is integrating the mirrored problem forwards",
  "Running a problem from t0 with times, steps and y' negated (t -> -t) gives the mirrored run: the same outcome of every call, mirrored returned time, the same y, reversed y', the same orders, failures and counts, k-th derivatives with sign (-1)^k, root functions evaluated at mirrored times and the same roots found. Neither direction of integration is special, with given or automatic first steps, stop times, maximum steps, failing attempts and root functions.",
  ["inputs", "fault_sequences", "histories"], "1 unknown, 1 or 2 calls of solve, 2 attempts (thorough: up to 3 calls, 3 attempts), any t0, y, y', step, tout, corrections, nonlinear solver outcomes and root function values",
  "No test integrates backwards; a comparison that is right for h > 0 only is invisible.",
  [LIB, SOLVE, RCHK, CSTEP], m(("driver", SOLVE + ": Ida::solve"), ("steps", LIB + ": Ida::step"), ("roots", RCHK)), technique=STUBT, note=REAL + ISH + "Two runs of the real driver in one symbolic execution, answered by the same script." + BND)
prop("C38", "Where output is asked for does not influence the steps taken",
  "The internal steps (times, step sizes, orders, failures, and the interpolant with all its derivatives) of a run in Normal mode with any outputs, with interpolation calls between them and with root functions, are those of a run that takes single steps towards a far output and never looks: asking for output, interpolating and root finding are observations only.",
  ["inputs", "histories", "fault_sequences"], "1 unknown, 2 calls of solve, 2 attempts (thorough: 3 calls, 4 attempts), both directions, with and without one root function of any sign history",
  "The tests integrate to one fixed list of outputs; state overwritten by an output routine shows only in the next step.",
  [LIB, SOLVE, RCHK], m(("driver", SOLVE + ": Ida::solve"), ("interpolation", LIB + ": Ida::get_solution, get_dky"), ("roots", RCHK)), technique=STUBT, note=REAL + ISH + "First step size given: the automatic one depends on tout by design. " + BND)
prop("C39", "Renumbering the unknowns renumbers the solution and changes nothing else",
  "If the unknowns, their weights and the algebraic mask are renumbered, y and y' and all derivatives are renumbered the same way, and times, step sizes, orders, failures and counts are unchanged.",
  ["inputs", "fault_sequences"], "2 unknowns, 2 steps, any state, weights, mask and corrections; 3 unknowns, 1 step (thorough: 3 steps; 3 unknowns, 2 steps with a mask)",
  "An index slip that treats one component differently passes when the components behave alike.",
  [LIB, CSTEP, RMS, INLS], m(("steps", LIB + ": Ida::step"), ("error test", LIB + ": Ida::test_error"), ("norm", RMS)), technique=STUBT, note=REAL + ISH + BND.strip())
prop("C40", "The statistics count what happened",
  "After any sequence of calls, the numbers of steps, error test failures, convergence failures, residual, Jacobian and root function evaluations, linear set-ups, linear iterations, and nonlinear iterations the integrator reports equal the number of times the user's functions and the solvers were actually called, and of attempts that ended that way, whatever failed on the way.",
  ["fault_sequences", "histories"], "1 call with 3 attempts; 2 calls with 2 attempts and a root function (thorough: up to 3 calls, 4 attempts, 2 root functions); attempts succeed, fail the error test, do not converge or fail to set up; direct and iterative linear solvers",
  "The example prints the counts of one run without failures.",
  [LIB, INLS, ILS, RCHK, IIO], m(("counters", IIO), ("failures", "src/lib.rs: Ida::handle_n_flag")), technique=STUBT, note=REAL + ISH + BND.strip())
