D = "crates/linear/src/dense.rs"
N = "crates/nonlinear/src/newton.rs"
W = "crates/nonlinear/src/norm_wrms.rs"
SUBST_OLD = "        let bk = b[k];\n        for i in (k + 1)..n {\n"
SUBST_NEW = "        let bk = b[k];\n        if bk == T::zero() {\n            break;\n        }\n        for i in (k + 1)..n {\n"
LIN = """use linear::{Dense, LSolver};
use nalgebra::{SMatrix, SVector, Const};
#[allow(dead_code)]
fn solve<const N: usize>(ls: &mut Dense<Const<N>>, a: SMatrix<f64, N, N>, b: SVector<f64, N>) -> Result<SVector<f64, N>, String> {
    let mut lu = a;
    ls.setup(&mut lu).map_err(|e| format!("{e:?}"))?;
    let mut x = SVector::<f64, N>::zeros();
    ls.solve(&lu, &mut x, &b, 0.0).map_err(|e| format!("{e:?}"))?;
    Ok(x)
}
"""
# a scripted problem: every callback answers from a list and is logged
SCRIPT = """use nalgebra::{Const, Matrix, SVector, Storage, StorageMut, U1};
use nonlinear::{Error, NLProblem, NLSolver, Newton};
type D = Const<1>;
#[derive(Clone, Debug, PartialEq)]
enum A { Ok, No, Rec, Ill }
#[derive(Clone, Debug)]
#[allow(dead_code)]
struct Ev { what: &'static str, y: f64, v: f64, a: A, cur: usize, jbad: bool }
struct P { script: Vec<(&'static str, A, f64)>, k: usize, log: Vec<Ev> }
impl P {
    fn new(script: Vec<(&'static str, A, f64)>) -> P { P { script, k: 0, log: vec![] } }
    fn next(&mut self, what: &'static str) -> (A, f64) {
        if self.k >= 10_000 { eprintln!("does not end"); std::process::exit(1); }
        let last = self.script.len() - 1;
        let s = self.script[self.k.min(last)].clone();
        if self.k <= last && s.0 != what { eprintln!("call {}: {} expected, {} made; log {:?}", self.k, s.0, what, self.log); std::process::exit(1); }
        self.k += 1;
        (s.1, s.2)
    }
}
fn res(a: &A) -> Result<bool, Error> {
    match a { A::Ok => Ok(true), A::No => Ok(false), A::Rec => Err(Error::ConvergenceRecover {}), A::Ill => Err(Error::IllegalInput {}) }
}
impl NLProblem<f64, D> for P {
    fn sys<X, Y>(&mut self, y: &Matrix<f64, D, U1, X>, f: &mut Matrix<f64, D, U1, Y>) -> Result<(), Error>
    where X: Storage<f64, D, U1>, Y: StorageMut<f64, D, U1> {
        let (a, v) = self.next("sys"); f[0] = v;
        self.log.push(Ev { what: "sys", y: y[0], v, a: a.clone(), cur: 0, jbad: false });
        res(&a).map(|_| ())
    }
    fn setup<X, Y>(&mut self, y: &Matrix<f64, D, U1, X>, f: &Matrix<f64, D, U1, Y>, jbad: bool) -> Result<bool, Error>
    where X: Storage<f64, D, U1>, Y: Storage<f64, D, U1> {
        let (a, _) = self.next("setup");
        self.log.push(Ev { what: "setup", y: y[0], v: f[0], a: a.clone(), cur: 0, jbad });
        res(&a)
    }
    fn solve<X, Y>(&mut self, y: &Matrix<f64, D, U1, X>, b: &mut Matrix<f64, D, U1, Y>) -> Result<(), Error>
    where X: Storage<f64, D, U1>, Y: StorageMut<f64, D, U1> {
        let (a, v) = self.next("solve");
        self.log.push(Ev { what: "solve", y: y[0], v: b[0], a: a.clone(), cur: 0, jbad: false });
        b[0] = v;
        res(&a).map(|_| ())
    }
    fn ctest<NLS, X, Y, Z>(&mut self, s: &NLS, y: &Matrix<f64, D, U1, X>, del: &Matrix<f64, D, U1, Y>, _t: f64, _w: &Matrix<f64, D, U1, Z>) -> Result<bool, Error>
    where NLS: NLSolver<f64, D>, X: Storage<f64, D, U1>, Y: Storage<f64, D, U1>, Z: Storage<f64, D, U1> {
        let (a, _) = self.next("ctest");
        self.log.push(Ev { what: "ctest", y: y[0], v: del[0], a: a.clone(), cur: s.get_cur_iter(), jbad: false });
        res(&a)
    }
}
fn run(nw: &mut Newton<f64, D>, p: &mut P, y0: f64, lsetup: bool) -> (Result<(), Error>, f64) {
    let mut y = SVector::<f64, 1>::zeros();
    let r = nw.solve(p, &SVector::<f64, 1>::new(y0), &mut y, &SVector::<f64, 1>::new(1.0), 1e-3, lsetup);
    (r, y[0])
}
"""
BUGS = [
 dict(id="b01-threshold-pivoting", property="C03", edits=[(D, "        pivot[k] = l;\n", "        // keep the diagonal while it is of comparable size: saves the interchange\n        if col_k[k].abs() * T::from_f64(1.5).unwrap() >= col_k[l].abs() {\n            l = k;\n        }\n        pivot[k] = l;\n")],
  needs="a pivot candidate that is at most 1.5 times the diagonal entry", breaks="multipliers exceed 1: no partial pivoting any more",
  demo=LIN + """fn main() {
    let mut a = SMatrix::<f64, 2, 2>::new(4.0, 1.0, 5.0, 3.0);
    let mut ls = <Dense<Const<2>> as LSolver<f64, Const<2>>>::new();
    ls.setup(&mut a).unwrap();
    assert!(a[(1, 0)].abs() <= 1.0, "{a}");
}"""),
 dict(id="b02-stale-pivot", property="C04", edits=[(D, "        pivot[k] = l;\n", "        pivot[k] = l.max(pivot[k]);\n")],
  needs="one solver object used for two matrices, the first of which interchanges rows where the second does not", breaks="the pivots of the earlier factorisation are applied to the right-hand side of the later one",
  demo=LIN + """fn main() {
    let mut ls = <Dense<Const<2>> as LSolver<f64, Const<2>>>::new();
    let b = SVector::<f64, 2>::new(1.0, 2.0);
    let _ = solve(&mut ls, SMatrix::<f64, 2, 2>::new(0.0, 1.0, 1.0, 0.0), b).unwrap();
    let a = SMatrix::<f64, 2, 2>::new(4.0, 1.0, 1.0, 3.0);
    let x = solve(&mut ls, a, b).unwrap();
    assert!((a * x - b).amax() < 1e-9, "{x}");
}"""),
 dict(id="b03-nan-skips-update", property="C05", edits=[(D, "            if a_kj != T::zero() {", "            if a_kj.abs() > T::zero() {")],
  needs="a NaN in the pivot row to the right of the pivot", breaks="the column update is skipped for a NaN, which then leaves the rest of the column finite: depending on the position, a NaN in A no longer reaches the solution",
  demo=LIN + """fn main() {
    let n = f64::NAN;
    // row 0 is the pivot row; the NaN sits to the right of the pivot
    let a = SMatrix::<f64, 2, 2>::new(4.0, n, 1.0, 3.0);
    let b = SVector::<f64, 2>::new(0.0, 2.0);
    match solve(&mut <Dense<Const<2>> as LSolver<f64, Const<2>>>::new(), a, b) {
        Ok(x) => assert!(x.iter().all(|v| v.is_nan()), "{x}"),
        Err(e) => println!("{e}"),
    }
}"""),
 dict(id="b18-skip-zero-rhs", property="C06", edits=[(D, SUBST_OLD, "        let bk = b[k];\n        if bk == T::zero() {\n            continue;\n        }\n        for i in (k + 1)..n {\n")],
  needs="a NaN in the matrix that ends up as a multiplier, with a zero in that place of the right-hand side", breaks="the product of the zero with the NaN is not formed, so the solution has no trace of the NaN",
  demo=LIN + """fn main() {
    let n = f64::NAN;
    let a = SMatrix::<f64, 2, 2>::new(1.0, 0.0, n, 1.0);
    let b = SVector::<f64, 2>::new(0.0, 1.0);
    match solve(&mut <Dense<Const<2>> as LSolver<f64, Const<2>>>::new(), a, b) {
        Ok(x) => assert!(x.iter().any(|v| v.is_nan()), "{x}"),
        Err(e) => println!("{e}"),
    }
}"""),
 dict(id="b04-iteration-count", property="C12", edits=[(N, "                        // increment nonlinear solver iteration counter\n                        self.niters += 1;\n\n", ""), (N, "                            // update the Newton iterate\n", "                            // count the iteration and update the Newton iterate\n                            self.niters += 1;\n")],
  needs="a linear solve that fails during a nonlinear solve", breaks="iterations whose linear solve failed are missing from the statistics",
  demo=SCRIPT + """fn main() {
    let mut nw: Newton<f64, D> = Newton::new(4);
    let mut p = P::new(vec![("sys", A::Ok, 1.0), ("setup", A::Ok, 0.0), ("solve", A::Ill, 0.0)]);
    let _ = run(&mut nw, &mut p, 1.0, true);
    assert_eq!(nw.get_num_iters(), 1);
}"""),
 dict(id="b05-jacobian-stays-current", property="C10", edits=[(N, "                                        // if successful update Jacobian status and return\n                                        self.jcur = false;\n                                        Ok(true)", "                                        // if successful keep the Jacobian status and return\n                                        Ok(true)")],
  needs="a solve that sets up the Jacobian and succeeds, followed by one that does not and fails recoverably", breaks="the failed second solve is not retried with a fresh Jacobian",
  demo=SCRIPT + """fn main() {
    let mut nw: Newton<f64, D> = Newton::new(2);
    let mut p = P::new(vec![("sys", A::Ok, 1.0), ("setup", A::Ok, 0.0), ("solve", A::Ok, 0.5), ("ctest", A::Ok, 0.0)]);
    assert!(run(&mut nw, &mut p, 1.0, true).0.is_ok());
    let mut p = P::new(vec![("sys", A::Ok, 1.0), ("solve", A::Rec, 0.5), ("sys", A::Ok, 1.0), ("setup", A::Ok, 0.0), ("solve", A::Ok, 0.5), ("ctest", A::Ok, 0.0)]);
    assert!(run(&mut nw, &mut p, 1.0, false).0.is_ok(), "not retried");
}"""),
 dict(id="b06-retry-keeps-iterate", property="C08", edits=[(N, "                    // load prediction into y\n                    y.copy_from(&y0);\n\n", ""), (N, "        // looping point for attempts at solution", "        // load prediction into y\n        y.copy_from(&y0);\n\n        // looping point for attempts at solution")],
  needs="a first attempt that fails recoverably after at least one correction, then a retry", breaks="the retry starts from the diverged iterate while its residual and Jacobian belong to the initial guess",
  demo=SCRIPT + """fn main() {
    let mut nw: Newton<f64, D> = Newton::new(1);
    let mut p = P::new(vec![("sys", A::Ok, 1.0), ("solve", A::Ok, 5.0), ("ctest", A::No, 0.0), ("sys", A::Ok, 1.0), ("setup", A::Ok, 0.0), ("solve", A::Ok, 0.5), ("ctest", A::Ok, 0.0)]);
    let (r, y) = run(&mut nw, &mut p, 1.0, false);
    assert!(r.is_ok());
    assert_eq!(y, 1.5);
}"""),
 dict(id="b07-residual-error-dropped", property="C11", edits=[(N, "problem.sys(y, &mut self.delta).and(Ok(false))", "problem.sys(y, &mut self.delta).map_or_else(\n                                                |_| Err(Error::ConvergenceRecover {}),\n                                                |_| Ok(false),\n                                            )")],
  needs="an unrecoverable error of the residual function in a second or later iteration", breaks="the error is turned into a recoverable convergence failure and the solve is retried",
  demo=SCRIPT + """fn main() {
    let mut nw: Newton<f64, D> = Newton::new(4);
    let mut p = P::new(vec![("sys", A::Ok, 1.0), ("solve", A::Ok, 5.0), ("ctest", A::No, 0.0), ("sys", A::Ill, 1.0), ("sys", A::Ok, 1.0), ("setup", A::Ok, 0.0), ("solve", A::Ok, 0.5), ("ctest", A::Ok, 0.0)]);
    let (r, _) = run(&mut nw, &mut p, 1.0, false);
    assert!(matches!(r, Err(Error::IllegalInput {})), "{r:?}");
}"""),
 dict(id="b08-scaled-norm", property="C15", edits=[(W, "        (self.component_mul(&w).iter().map(|x| x.powi(2)).sum::<T>() / len).sqrt()", "        // scale by the largest product, so that large components do not overflow\n        let prod = self.component_mul(&w);\n        let mut scale = T::zero();\n        for p in prod.iter() {\n            if p.abs() > scale {\n                scale = p.abs();\n            }\n        }\n        if scale == T::zero() {\n            return scale;\n        }\n        scale * (prod.iter().map(|x| (*x / scale).powi(2)).sum::<T>() / len).sqrt()")],
  needs="a NaN component while every other product is zero", breaks="the norm of a vector containing NaN is 0, so any convergence test accepts it",
  demo="""use nalgebra::DVector;
use nonlinear::norm_wrms::NormWRMS;
fn main() {
    let x = DVector::from_vec(vec![0.0, f64::NAN, 0.0]);
    let w = DVector::from_vec(vec![1.0, 1.0, 1.0]);
    let n: f64 = x.norm_wrms(&w);
    assert!(n.is_nan(), "{n}");
}"""),
 dict(id="b09-singularity-threshold", property="C02", edits=[(D, "        if col_k[l] == T::zero() {", "        if col_k[l].abs() <= T::default_epsilon() {")],
  needs="a regular matrix whose pivot column is tiny", breaks="regular matrices with small entries are rejected as singular",
  demo=LIN + """fn main() {
    let a = SMatrix::<f64, 2, 2>::new(1e-20, 0.0, 0.0, 1.0);
    let b = SVector::<f64, 2>::new(1e-20, 2.0);
    let x = solve(&mut <Dense<Const<2>> as LSolver<f64, Const<2>>>::new(), a, b).unwrap();
    assert_eq!((x[0], x[1]), (1.0, 2.0));
}"""),
 dict(id="b10-mean-over-weighted", property="C14", edits=[(W, "        let len = T::from(self.nrows() as u32);\n", "        // components that carry no weight take no part in the mean\n        let len = T::from(w.iter().filter(|w| !w.is_zero()).count().max(1) as u32);\n")],
  needs="a zero weight among the weights", breaks="the mean is taken over fewer components than the vector has",
  demo="""use nalgebra::DVector;
use nonlinear::norm_wrms::NormWRMS;
fn main() {
    let x = DVector::from_vec(vec![4.0, 1.0, 1.0, 1.0]);
    let w = DVector::from_vec(vec![1.0, 0.0, 0.0, 0.0]);
    let n: f64 = x.norm_wrms(&w);
    assert_eq!(n, 2.0);
}"""),
 dict(id="b11-pivot-not-largest", property="C03", edits=[(D, "            if col_k[i].abs() > col_k[l].abs() {", "            if col_k[i].abs() > col_k[k].abs() {")],
  needs="two entries below the diagonal that both exceed it, the larger one first", breaks="the last entry larger than the diagonal becomes the pivot, not the largest, so multipliers exceed 1",
  demo=LIN + """fn main() {
    let mut a = SMatrix::<f64, 3, 3>::new(1.0, 1.0, 0.0, 9.0, 1.0, 3.0, 2.0, 5.0, 1.0);
    let mut ls = <Dense<Const<3>> as LSolver<f64, Const<3>>>::new();
    ls.setup(&mut a).unwrap();
    assert!(a[(1, 0)].abs() <= 1.0 && a[(2, 0)].abs() <= 1.0, "{a}");
}"""),
 dict(id="b12-pivot-tie", property="C05", edits=[(D, "            if col_k[i].abs() > col_k[l].abs() {", "            if col_k[i].abs() >= col_k[l].abs() {")],
  needs="two candidates of equal magnitude in a pivot column", breaks="the last of equally large candidates is chosen, so factors and rounding differ from the reference",
  demo=LIN + """fn main() {
    let mut a = SMatrix::<f64, 2, 2>::new(2.0, 1.0, -2.0, 3.0);
    let mut ls = <Dense<Const<2>> as LSolver<f64, Const<2>>>::new();
    ls.setup(&mut a).unwrap();
    assert_eq!(a[(0, 0)], 2.0, "{a}");
}"""),
 dict(id="b13-zero-maxiters", property="C07", edits=[(N, "if self.curiter >= self.maxiters {", "if self.curiter == self.maxiters {")],
  needs="a solver made with maxiters = 0 and a test that does not converge", breaks="the iteration never ends",
  demo=SCRIPT + """fn main() {
    let mut nw: Newton<f64, D> = Newton::new(0);
    let mut p = P::new(vec![("sys", A::Ok, 1.0), ("setup", A::Ok, 0.0), ("solve", A::Ok, 5.0), ("ctest", A::No, 0.0)]);
    // every further answer: not converged
    let (r, _) = run(&mut nw, &mut p, 1.0, true);
    assert!(r.is_err());
}"""),
 dict(id="b14-retry-reuses-residual", property="C09", edits=[(N, "            let retval = problem\n                .sys(y0, &mut self.delta)\n", "            // F(y0) does not change between attempts\n            let retval = if jbad { Ok(()) } else { problem.sys(y0, &mut self.delta) }\n")],
  needs="a first attempt that fails recoverably after a correction, then a retry", breaks="the retry solves for the last correction of the failed attempt instead of minus the residual at the initial guess",
  demo=SCRIPT + """fn main() {
    let mut nw: Newton<f64, D> = Newton::new(1);
    let mut p = P::new(vec![("sys", A::Ok, 1.0), ("solve", A::Ok, 5.0), ("ctest", A::No, 0.0), ("sys", A::Ok, 1.0), ("setup", A::Ok, 0.0), ("solve", A::Ok, 0.5), ("ctest", A::Ok, 0.0)]);
    let _ = run(&mut nw, &mut p, 1.0, false);
    let rhs: Vec<f64> = p.log.iter().filter(|e| e.what == "solve").map(|e| e.v).collect();
    assert_eq!(rhs, vec![-1.0, -1.0]);
}"""),
 dict(id="b15-substitution-stops-at-zero", property="C01", edits=[(D, SUBST_OLD, SUBST_NEW)],
  needs="an intermediate right-hand side entry that is exactly zero before the last rows", breaks="the rest of the forward substitution is dropped, so A x != b",
  demo=LIN + """fn main() {
    let a = SMatrix::<f64, 3, 3>::new(4.0, 1.0, 0.0, 2.0, 5.0, 1.0, 1.0, 1.0, 6.0);
    let b = SVector::<f64, 3>::new(0.0, 2.0, 3.0);
    let x = solve(&mut <Dense<Const<3>> as LSolver<f64, Const<3>>>::new(), a, b).unwrap();
    assert!((a * x - b).amax() < 1e-9, "{x}");
}"""),
 dict(id="b16-one-iteration-short", property="C13", edits=[(N, "if self.curiter >= self.maxiters {", "if self.curiter + 1 >= self.maxiters {")],
  needs="a problem that needs exactly the allowed number of iterations", breaks="the last allowed iteration is never made: an affine system fails with two iterations allowed",
  demo=SCRIPT + """fn main() {
    let mut nw: Newton<f64, D> = Newton::new(2);
    let mut p = P::new(vec![("sys", A::Ok, 1.0), ("setup", A::Ok, 0.0), ("solve", A::Ok, 5.0), ("ctest", A::No, 0.0), ("sys", A::Ok, 0.0), ("solve", A::Ok, 0.0), ("ctest", A::Ok, 0.0)]);
    assert!(run(&mut nw, &mut p, 1.0, true).0.is_ok());
}"""),
 dict(id="b17-retry-keeps-setup-flag", property="C10", edits=[(N, "                            .setup(y0, &self.delta, jbad)\n", "                            .setup(y0, &self.delta, false)\n")],
  needs="a retry", breaks="the retry does not declare the Jacobian bad, so a problem that keeps its Jacobian unless told otherwise retries with the same data",
  demo=SCRIPT + """fn main() {
    let mut nw: Newton<f64, D> = Newton::new(1);
    let mut p = P::new(vec![("sys", A::Ok, 1.0), ("solve", A::Ok, 5.0), ("ctest", A::No, 0.0), ("sys", A::Ok, 1.0), ("setup", A::Ok, 0.0), ("solve", A::Ok, 0.5), ("ctest", A::Ok, 0.0)]);
    let _ = run(&mut nw, &mut p, 1.0, false);
    assert!(p.log.iter().any(|e| e.what == "setup" && e.jbad));
}"""),

 dict(id="e01-unrolled-back-substitution", property="C01", edits=[(D, "        b[k] /= col_k[k];\n        let bk = b[k];\n        for i in 0..k {\n            b[i] -= col_k[i] * bk;\n        }\n", """        b[k] /= col_k[k];
        let bk = b[k];
        if k < 4 {
            for i in 0..k {
                b[i] -= col_k[i] * bk;
            }
        } else {
            // four rows at a time, then what is left over
            let full = k - k % 4;
            for i in (0..full).step_by(4) {
                b[i] -= col_k[i] * bk;
                b[i + 1] -= col_k[i + 1] * bk;
                b[i + 2] -= col_k[i + 2] * bk;
                b[i + 3] -= col_k[i + 3] * bk;
            }
            for i in full..k.min(full + 2) {
                b[i] -= col_k[i] * bk;
            }
        }
""")],
  needs="eight unknowns or more", breaks="three left-over rows are never completed, so A x != b",
  demo=LIN + """fn main() {
    let a = SMatrix::<f64, 8, 8>::from_fn(|i, j| if i == j { 10.0 } else { 1.0 + ((i * 3 + j) % 4) as f64 });
    let b = SVector::<f64, 8>::from_fn(|i, _| 1.0 + i as f64);
    let x = solve(&mut <Dense<Const<8>> as LSolver<f64, Const<8>>>::new(), a, b).unwrap();
    assert!((a * x - b).amax() < 1e-9, "{x}");
}"""),
 dict(id="e02-norm-in-blocks", property="C14", edits=[(W, "        (self.component_mul(&w).iter().map(|x| x.powi(2)).sum::<T>() / len).sqrt()\n", """        let prod = self.component_mul(&w);
        // eight at a time: shorter dependency chains for long vectors
        let whole = if prod.len() < 8 { prod.len() } else { prod.len() - prod.len() % 8 };
        (prod.iter().take(whole).map(|x| x.powi(2)).sum::<T>() / len).sqrt()
""")],
  needs="a vector longer than eight whose length is no multiple of eight", breaks="the last entries are left out of the norm",
  demo="""use nalgebra::DVector;
use nonlinear::norm_wrms::NormWRMS;
fn main() {
    let x = DVector::from_element(11, -3.0);
    let w = DVector::from_element(11, 0.5);
    assert_eq!(x.norm_wrms(&w), 1.5);
}"""),
 dict(id="e03-no-retry-after-failures", property="C10", edits=[(N, "if !self.jcur && !jbad => {", "if !self.jcur && !jbad && self.nconvfails < 3 => {")],
  needs="three solves with one solver, the first two of which fail in both attempts", breaks="a failed attempt with Jacobian data that are not current is no longer retried",
  demo=SCRIPT + """fn main() {
    let mut nw: Newton<f64, D> = Newton::new(1);
    for _ in 0..3 {
        let mut p = P::new(vec![("sys", A::Ok, 1.0), ("solve", A::Ok, 5.0), ("ctest", A::No, 0.0), ("sys", A::Ok, 1.0), ("setup", A::No, 0.0), ("solve", A::Ok, 0.5), ("ctest", A::No, 0.0)]);
        let _ = run(&mut nw, &mut p, 1.0, false);
        assert!(p.log.iter().any(|e| e.what == "setup" && e.jbad));
    }
}"""),
 dict(id="e04-iteration-number-wraps", property="C07", edits=[(N, "                                        self.curiter += 1;\n", "                                        // fits the four bits of the trace record\n                                        self.curiter = (self.curiter + 1) & 0xf;\n")],
  needs="more than fifteen iterations allowed and none of them converging", breaks="the iteration never ends",
  demo=SCRIPT + """fn main() {
    let mut nw: Newton<f64, D> = Newton::new(20);
    let mut s = vec![("sys", A::Ok, 1.0), ("setup", A::Ok, 0.0)];
    for _ in 0..20 { s.push(("solve", A::Ok, 0.5)); s.push(("ctest", A::No, 0.0)); s.push(("sys", A::Ok, 1.0)); }
    s.pop();
    // whatever is called next is one call too many
    s.push(("end", A::Ok, 0.0));
    let mut p = P::new(s);
    assert!(run(&mut nw, &mut p, 1.0, true).0.is_err());
}"""),
 dict(id="e05-pivot-window", property="C03", edits=[(D, "        for i in (k + 1)..m {\n            if col_k[i].abs() > col_k[l].abs() {", "        for i in (k + 1)..m.min(k + 9) {\n            if col_k[i].abs() > col_k[l].abs() {")],
  needs="ten unknowns or more, with the largest entry of a column more than eight rows below the diagonal", breaks="the multipliers exceed 1",
  demo=LIN + """fn main() {
    let mut a = SMatrix::<f64, 12, 12>::from_fn(|i, j| if i == j { 2.0 } else { 0.0 });
    a[(10, 0)] = 5.0;
    let mut ls = <Dense<Const<12>> as LSolver<f64, Const<12>>>::new();
    ls.setup(&mut a).unwrap();
    for i in 0..12 { for j in 0..i { assert!(a[(i, j)].abs() <= 1.0, "{a}"); } }
}"""),
 dict(id="e06-overflow-safe-norm", property="C15", edits=[(W, "        (self.component_mul(&w).iter().map(|x| x.powi(2)).sum::<T>() / len).sqrt()\n", """        let prod = self.component_mul(&w);
        // factor the largest entry out, so that the squares cannot overflow
        let scale = prod.iter().fold(T::zero(), |m, x| if x.abs() > m { x.abs() } else { m });
        if scale == T::zero() {
            return T::zero();
        }
        scale * (prod.iter().map(|x| (*x / scale).powi(2)).sum::<T>() / len).sqrt()
""")],
  needs="a NaN among entries that are all zero", breaks="the norm is 0, which every tolerance accepts",
  demo="""use nalgebra::DVector;
use nonlinear::norm_wrms::NormWRMS;
fn main() {
    let x = DVector::from_vec(vec![0.0, f64::NAN, 0.0]);
    let w = DVector::from_element(3, 0.5);
    assert!(x.norm_wrms(&w).is_nan());
}"""),
]
