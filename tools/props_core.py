BND = " Bounds and assumptions per harness are in the evidence file; outside them nothing is claimed."
prop("C01", "A factored linear system is solved exactly",
  "For every square matrix A and right-hand side b, when the dense solver accepts A in its setup step, the following solve step succeeds and the x it produces satisfies A x = b (in exact arithmetic; rounding is covered by C05/C06). This holds whatever rows have to be interchanged on the way.",
  ["inputs"], "every real matrix up to 3x3 and every b (quick); 4x4 tridiagonal/arrow/triangular shapes, all 4x4 and 5x5 shapes (thorough)",
  "The tests factor and solve three fixed matrices of size 3 to 4; a wrong index shows only for particular pivot orders and zero patterns.",
  [DENSE, LTR], m(("LU factorisation with partial pivoting", DENSE + ": dense_get_rf"), ("forward/backward substitution", DENSE + ": dense_get_rs")),
  technique="symbolic execution of the compiled Rust code at a symbolic scalar type + SMT (nonlinear real arithmetic)",
  note=REAL + "n <= 3 complete, n = 4 for structured zero patterns." + BND)
prop("C02", "Singular matrices are reported, and only those",
  "The dense solver's setup step fails exactly for singular matrices. The failure names, counted from 1, the first column that is linearly dependent on the columns before it.",
  ["inputs"], "every real matrix up to 3x3",
  "One test feeds a singular matrix at most; the claim is an equivalence over all matrices, including those singular only after elimination.",
  [DENSE, "crates/linear/src/lib.rs"], m(("zero-pivot test", DENSE + ": dense_get_rf"), ("error conversion", DENSE + ": Dense::setup")),
  technique="symbolic execution of the compiled Rust code at a symbolic scalar type + SMT (nonlinear real arithmetic)",
  note=REAL + "n <= 3, oracle: vanishing of all k x k minors of the leading columns." + BND)
prop("C03", "Setup overwrites A with bounded LU factors of the row-permuted A",
  "When setup succeeds, the matrix passed in holds the factors of the row-permuted input: a unit lower triangle below the diagonal and an upper triangle with non-zero diagonal, whose product is the input with its rows interchanged. No lower-triangle entry exceeds 1 in magnitude (partial pivoting).",
  ["inputs"], "every real matrix up to 3x3 (4x4 thorough)",
  "Tests compare the factors of two fixed matrices; pivot choice matters only when magnitudes tie or a later column reorders.",
  [DENSE], m(("pivot search", DENSE + ": dense_get_rf"), ("row interchange over full rows", DENSE + ": dense_get_rf")),
  technique="symbolic execution of the compiled Rust code at a symbolic scalar type + SMT (nonlinear real arithmetic)",
  note=REAL + "n <= 3." + BND)
prop("C04", "Dense solves are pure, and a solver object can be reused",
  "A solve changes neither the factored matrix nor the right-hand side, and depends neither on the incoming x, nor on the tolerance, nor on solves before it. A solver object behaves like a new one for the next matrix whatever it factored (or failed to factor) before, and with strided views as storage it gives the same result and writes nothing outside them.",
  ["histories", "inputs"], "up to two earlier factorisations with any pivot state or failure, then any 2x2 / 3x3 matrix; 2x2 views inside 4x4 storage; three solves per factorisation",
  "Every test uses a new solver once, on owned matrices; leftovers in the pivot array show only over a history.",
  [DENSE], m(("pivot array rewritten by each setup", DENSE + ": dense_get_rf"), ("b copied into x before substitution", DENSE + ": Dense::solve")),
  state=[dict(name="pivots", meaning="row interchanges of the last factorisation", where=DENSE + ": Dense")],
  technique="symbolic execution of the compiled Rust code at a symbolic scalar type + SMT (nonlinear real arithmetic)",
  note=REAL + "n <= 3, histories of length <= 2." + BND)
prop("C05", "Float results are those of SUNDIALS denseGETRF/denseGETRS, bit for bit",
  "In double precision the factors, the outcome and the solution are bit-identical (NaN payloads aside) to those of SUNDIALS' denseGETRF and denseGETRS: the same pivots (the first of equally large candidates), reciprocal multipliers and the same order of additions for every entry.",
  ["inputs"], "every double (NaN, infinities, subnormals, signed zeros included) up to 3x3; 4x4 thorough",
  "The tests compare a few well-scaled cases within 1e-6; rounding, ties and special values are not observed.",
  [DENSE], m(("elimination order", DENSE + ": dense_get_rf"), ("substitution order", DENSE + ": dense_get_rs")),
  technique="symbolic execution at a symbolic IEEE-754 scalar + SMT (QF_FP), equivalence with the reference algorithm",
  note=FPA + "n <= 3 (4 thorough); the reference is a transcription of the C routines inside the harness." + BND)
prop("C06", "Every float input is answered without panic; a NaN is never hidden",
  "For all doubles whatsoever, the dense setup and solve return (a success, or a failure naming a column in range) and never panic. If any entry of A or b is NaN and both steps succeed, at least one entry of x is NaN.",
  ["inputs"], "every double up to 3x3, a NaN at each position of A and b",
  "No test has a NaN or an overflow; a NaN that loses a comparison silently changes the pivot choice.",
  [DENSE], m(("pivot comparisons", DENSE + ": dense_get_rf"), ("substitution without skipping", DENSE + ": dense_get_rs")),
  technique="symbolic execution at a symbolic IEEE-754 scalar + SMT (QF_FP)",
  note=FPA + "n <= 3." + BND)
NM = m(("Newton iteration with one retry", NEWT + ": Newton::solve"))
prop("C07", "The Newton solve ends after bounded work, whatever the callbacks answer",
  "A nonlinear solve always returns: it makes at most two attempts, each with one initial residual evaluation, at most one linear setup and at most max(maxiters, 1) iterations. This holds even when the residual, setup, linear solve or convergence test fails recoverably every time.",
  ["fault_sequences", "histories"], "every sequence of answers (success, recoverable failure; converged or not; Jacobian current or not) for maxiters 0..3, one solve, and two solves in a row for maxiters 2",
  "The only test converges at once; a loop that never ends needs a persistent failure at the right point.",
  [NEWT, NTR], NM, state=[dict(name="jcur", meaning="whether Jacobian data is current", where=NEWT + ": Newton")],
  technique="symbolic execution of the compiled Rust code with nondeterministic callback stubs + SMT closure query",
  note=CTL + "maxiters <= 3 (6 thorough), <= 2 solves per history (3 thorough)." + BND)
prop("C08", "Newton success means the test accepted exactly the returned iterate",
  "A nonlinear solve reports success if and only if the last callback made was a convergence test that accepted, and then the vector it leaves behind is exactly the iterate that test saw. Each tested iterate is the initial guess plus all corrections of the current attempt, tested together with the latest correction and the caller's tolerance and weights.",
  ["fault_sequences", "inputs"], "every sequence of answers and all vector contents; n = 1..3, maxiters 1..4, up to two solves in a row",
  "The test looks at one converging run; a stale iterate after a retry is invisible there.",
  [NEWT], NM, technique="symbolic execution of the compiled Rust code with nondeterministic callback stubs + SMT closure query",
  note=CTL + "n <= 3, maxiters <= 4." + BND)
prop("C09", "Each linear solve gets minus the residual at the current iterate",
  "Every linear system solved during a nonlinear solve has as its right-hand side minus the residual that was evaluated at the current iterate, evaluated anew for each iteration, and the linear setup sees the initial guess with its residual. This holds in the retry as well.",
  ["fault_sequences", "inputs"], "every sequence of answers and all vector contents (failing callbacks may leave garbage); n = 1..3, maxiters 1..4, up to two solves in a row",
  "A wrong sign or stale residual can still converge on the one tested problem.",
  [NEWT], NM, technique="symbolic execution of the compiled Rust code with nondeterministic callback stubs + SMT closure query",
  note=CTL + "n <= 3, maxiters <= 4." + BND)
prop("C10", "Jacobian refresh and retry policy",
  "A nonlinear solve runs the linear setup exactly when the caller asks for it or on a retry; only the retry declares the Jacobian bad. A recoverable failure of the first attempt leads to exactly one retry from the initial guess when the Jacobian data was not reported current by the latest setup since the last success, and is returned at once otherwise.",
  ["fault_sequences", "histories"], "every sequence of answers; n = 1..3, maxiters 1..4, up to two solves in a row",
  "No test makes a solve fail, let alone two in a row.",
  [NEWT], NM, state=[dict(name="jcur", meaning="whether Jacobian data is current", where=NEWT + ": Newton")],
  technique="symbolic execution of the compiled Rust code with nondeterministic callback stubs + SMT closure query",
  note=CTL + "n <= 3, maxiters <= 4." + BND)
prop("C11", "Unrecoverable errors stop the Newton solve and come back unchanged",
  "An unrecoverable error from any callback ends the nonlinear solve at once: no further callback is made and the caller receives that same error, with its content. Recoverable failures are never turned into unrecoverable ones or into success.",
  ["fault_sequences"], "every sequence of answers including two unrecoverable errors at every callback; n = 1..3, maxiters 1..4",
  "No test makes a callback fail.",
  [NEWT, "crates/nonlinear/src/lib.rs"], NM, technique="symbolic execution of the compiled Rust code with nondeterministic callback stubs + SMT closure query",
  note=CTL + "n <= 3, maxiters <= 4." + BND)
prop("C12", "Newton counters are exact over any history of solves",
  "Over any sequence of nonlinear solves on one solver, the total iteration count equals the number of iterations started (one linear solve each), the current-iteration count seen by the convergence test is the number of completed iterations of the current attempt, and the failure count equals the number of failed attempts.",
  ["histories", "fault_sequences"], "every sequence of answers; n = 1..2, maxiters 1..3, up to two solves in a row (three thorough)",
  "No test reads a counter.",
  [NEWT, NTR], NM, state=[dict(name="niters, nconvfails, curiter", meaning="statistics the step-size control uses", where=NEWT + ": Newton")],
  technique="symbolic execution of the compiled Rust code with nondeterministic callback stubs + SMT closure query",
  note=CTL + "maxiters <= 3, <= 2 solves (3 thorough)." + BND)
prop("C13", "Newton with the dense solver is exact on affine systems",
  "On every affine system with a regular matrix, the nonlinear solver combined with the dense linear solver and the weighted-RMS test converges within two iterations to an exact solution for every initial guess, weights and tolerance >= 0 when two iterations are allowed. A singular matrix is reported with its column, and whatever iterate is accepted solves the system.",
  ["inputs"], "every 1x1 and 2x2 affine system (3x3 thorough), maxiters 1..3",
  "The test solves one nonlinear system from one start.",
  [NEWT, DENSE, NORM], m(("Newton correction", NEWT + ": Newton::solve"), ("dense solve", DENSE)),
  technique="symbolic execution of the compiled Rust code at a symbolic scalar type + SMT (nonlinear real arithmetic)",
  note=REAL + "n <= 2 (3 thorough)." + BND)
prop("C14", "The weighted RMS norm is the documented formula",
  "The weighted root-mean-square norm of x with weights w is the square root of the mean of (x_i w_i)^2, for every length and every kind of vector storage (owned, heap, strided view). It is never negative, zero only if every product is zero, scales with |c|, ignores the sign of weights, and obeys the triangle inequality.",
  ["inputs"], "lengths 1..8 (32 thorough), all real values; stack, heap and strided storage",
  "One test with constant vectors, for which most wrong formulas agree.",
  [NORM], m(("norm", NORM + ": norm_wrms")),
  technique="symbolic execution of the compiled Rust code at a symbolic scalar type + SMT (nonlinear real arithmetic)",
  note=REAL + "lengths <= 8 (32 thorough)." + BND)
prop("C15", "The norm never hides a NaN and never invents one",
  "In double precision, a NaN in any component or weight makes the weighted RMS norm NaN, so no tolerance test accepts it; finite arguments always give a non-negative number (possibly infinite), never NaN. The bits are those of summing the squared products from the first to the last, dividing by the length and taking the root.",
  ["inputs"], "all doubles, lengths 1..6 (16 thorough)",
  "No test has a NaN or overflow.",
  [NORM], m(("norm", NORM + ": norm_wrms")),
  technique="symbolic execution at a symbolic IEEE-754 scalar + SMT (QF_FP)",
  note=FPA + "lengths <= 6 (16 thorough)." + BND)
