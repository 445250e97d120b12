//! Harnesses for the integrator. This module is a child of the integrator's crate root, so it
//! sees (and sets) the private state that the properties speak about.
use crate::constants::IdaConst;
use crate::linear::{LSolver, LSolverType};
use crate::nonlinear::{NLProblem, NLSolver};
use crate::tol_control::TolControl;
use crate::traits::*;
use crate::Ida;
use ndarray::prelude::*;
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;
use symx::{Harness, Sc, Sym, C};

pub type SymF = Sym;
pub fn lit(x: f64) -> Sym {
    Sym::lit(x)
}
include!("../gen/verif_const.rs");

// one feature each, so that check.sh can build what a property needs when another part does not
// compile
#[cfg(feature = "interp")]
mod interp;
#[cfg(feature = "step")]
mod step;
#[cfg(feature = "drive")]
mod drive;
#[cfg(feature = "roots")]
mod roots;
#[cfg(feature = "nls")]
mod nls;
#[cfg(feature = "misc")]
mod misc;
#[cfg(feature = "sample")]
mod sample;
#[cfg(feature = "meta")]
mod meta;
#[cfg(feature = "nls")]
mod real;

/// the scalar a harness runs over: `Sym`, or `f64` in replay
pub trait IS: Sc + num_traits::NumRef + num_traits::NumAssignRef + ndarray::ScalarOperand + IdaConst<Scalar = Self> {}
impl IS for f64 {}
impl IS for Sym {}

// ---------------------------------------------------------------- the user's problem
pub type ResF<S> = Box<dyn FnMut(S, &[S], &[S]) -> Vec<S>>;
pub type JacF<S> = Box<dyn FnMut(S, S, &[S], &[S], &[S]) -> Vec<S>>;
pub struct Hooks<S> {
    pub res: ResF<S>,
    pub jac: JacF<S>,
    pub root: ResF<S>,
}
/// a problem whose functions are whatever the harness says
#[derive(Clone)]
pub struct Prob<S> {
    pub n: usize,
    pub nr: usize,
    pub h: Rc<RefCell<Hooks<S>>>,
}
impl<S> std::fmt::Debug for Prob<S> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Prob")
    }
}
impl<S: IS> Prob<S> {
    pub fn new(n: usize, nr: usize) -> Prob<S> {
        Prob {
            n,
            nr,
            h: Rc::new(RefCell::new(Hooks {
                res: Box::new(move |_, _, _| vec![S::num(0.0); n]),
                jac: Box::new(move |_, _, _, _, _| vec![S::num(0.0); n * n]),
                root: Box::new(move |_, _, _| vec![S::num(0.0); nr]),
            })),
        }
    }
    pub fn on_res(&self, f: impl FnMut(S, &[S], &[S]) -> Vec<S> + 'static) {
        self.h.borrow_mut().res = Box::new(f);
    }
    pub fn on_jac(&self, f: impl FnMut(S, S, &[S], &[S], &[S]) -> Vec<S> + 'static) {
        self.h.borrow_mut().jac = Box::new(f);
    }
    pub fn on_root(&self, f: impl FnMut(S, &[S], &[S]) -> Vec<S> + 'static) {
        self.h.borrow_mut().root = Box::new(f);
    }
}
fn v<S: Copy, D: ndarray::Data<Elem = S>>(a: &ArrayBase<D, Ix1>) -> Vec<S> {
    a.iter().copied().collect()
}
impl<S: IS> ModelSpec for Prob<S> {
    type Scalar = S;
    type Dim = Ix1;
    fn model_size(&self) -> usize {
        self.n
    }
}
impl<S: IS> Residual for Prob<S> {
    fn res<S1, S2, S3>(&self, tt: S, yy: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, mut rr: ArrayBase<S3, Ix1>)
    where
        S1: ndarray::Data<Elem = S>,
        S2: ndarray::Data<Elem = S>,
        S3: ndarray::DataMut<Elem = S>,
    {
        let r = (self.h.borrow_mut().res)(tt, &v(&yy), &v(&yp));
        for i in 0..self.n {
            rr[i] = r[i];
        }
    }
}
impl<S: IS> Jacobian for Prob<S> {
    fn jac<S1, S2, S3, S4>(&self, tt: S, cj: S, yy: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, rr: ArrayBase<S3, Ix1>, mut j: ArrayBase<S4, Ix2>)
    where
        S1: ndarray::Data<Elem = S>,
        S2: ndarray::Data<Elem = S>,
        S3: ndarray::Data<Elem = S>,
        S4: ndarray::DataMut<Elem = S>,
    {
        let r = (self.h.borrow_mut().jac)(tt, cj, &v(&yy), &v(&yp), &v(&rr));
        // as the trait documents: J is zero on entry and the routine writes what is not
        for i in 0..self.n {
            for k in 0..self.n {
                S::check("the Jacobian is zero when the user's routine is called", C::Eq(j[[i, k]], S::num(0.0)));
                j[[i, k]] = r[i * self.n + k];
            }
        }
    }
}
impl<S: IS> Root for Prob<S> {
    fn num_roots(&self) -> usize {
        self.nr
    }
    fn root<S1, S2, S3>(&self, t: S, y: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, mut g: ArrayBase<S3, Ix1>)
    where
        S1: ndarray::Data<Elem = S>,
        S2: ndarray::Data<Elem = S>,
        S3: ndarray::DataMut<Elem = S>,
    {
        let r = (self.h.borrow_mut().root)(t, &v(&y), &v(&yp));
        for i in 0..self.nr {
            g[i] = r[i];
        }
    }
}

// ---------------------------------------------------------------- the nonlinear solver
/// what a call to the nonlinear solver does
pub enum Act<S> {
    /// succeed with this correction
    Give(Vec<S>),
    /// succeed with a correction that makes the residual zero
    Solve(Vec<S>),
    /// set up if asked to, then one linear solve with this right hand side; no correction
    Lin(Vec<S>),
    /// fail
    Fail(failure::Error),
    /// evaluate the residual with no correction, then fail
    Probe(failure::Error),
    /// leave a correction behind and fail
    GiveFail(Vec<S>, failure::Error),
}
#[derive(Clone)]
pub struct NlsCall<S> {
    pub y0: Vec<S>,
    pub w: Vec<S>,
    pub tol: S,
    pub lsetup: bool,
}
pub struct Nls<S> {
    pub maxiters: usize,
    pub cur: usize,
    pub calls: Vec<NlsCall<S>>,
    pub lin: Vec<Vec<S>>,
    pub act: Box<dyn FnMut(usize) -> Act<S>>,
}
impl<S> std::fmt::Debug for Nls<S> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Nls")
    }
}
impl<S: IS, P: ModelSpec<Scalar = S>> NLSolver<P> for Nls<S> {
    fn new(size: usize, maxiters: usize) -> Self {
        Nls { maxiters, cur: 0, calls: vec![], lin: vec![], act: Box::new(move |_| Act::Give(vec![S::num(0.0); size])) }
    }
    fn solve<NLP, S1, S2, S3>(
        &mut self,
        problem: &mut NLP,
        y0: ArrayBase<S1, Ix1>,
        mut y: ArrayBase<S2, Ix1>,
        w: ArrayBase<S3, Ix1>,
        tol: S,
        call_lsetup: bool,
    ) -> Result<(), failure::Error>
    where
        NLP: NLProblem<P>,
        S1: ndarray::Data<Elem = S>,
        S2: ndarray::DataMut<Elem = S>,
        S3: ndarray::Data<Elem = S>,
    {
        let k = self.calls.len();
        self.calls.push(NlsCall { y0: v(&y0), w: v(&w), tol, lsetup: call_lsetup });
        let put = |y: &mut ArrayBase<S2, Ix1>, e: &[S]| {
            for i in 0..e.len() {
                y[i] = e[i];
            }
        };
        match (self.act)(k) {
            Act::Give(e) => put(&mut y, &e),
            Act::Solve(e) => {
                put(&mut y, &e);
                let mut r: Array1<S> = Array::zeros(e.len());
                problem.sys(y.view(), r.view_mut())?;
                for x in r.iter() {
                    S::assume(C::Eq(*x, S::num(0.0)));
                }
            }
            Act::Lin(b) => {
                let n = b.len();
                put(&mut y, &vec![S::num(0.0); n]);
                let mut r: Array1<S> = Array::zeros(n);
                problem.sys(y.view(), r.view_mut())?;
                if call_lsetup {
                    problem.setup(y.view(), r.view(), false)?;
                }
                let mut d = Array1::from_vec(b);
                problem.solve(y.view(), d.view_mut())?;
                self.lin.push(v(&d));
            }
            Act::Fail(e) => return Err(e),
            Act::Probe(e) => {
                let n = y0.len();
                put(&mut y, &vec![S::num(0.0); n]);
                let mut r: Array1<S> = Array::zeros(n);
                problem.sys(y.view(), r.view_mut())?;
                return Err(e);
            }
            Act::GiveFail(c, e) => {
                put(&mut y, &c);
                return Err(e);
            }
        }
        Ok(())
    }
    fn get_num_iters(&self) -> usize {
        self.calls.len()
    }
    fn get_cur_iter(&self) -> usize {
        self.cur
    }
}

// ---------------------------------------------------------------- the linear solver
/// how the stub linear solver behaves and what it saw; one per run
pub struct LsCtl<S> {
    pub kind: LSolverType,
    pub setups: Vec<Vec<S>>,
    pub solves: Vec<(Vec<S>, Vec<S>, S)>,
    pub scale: Vec<Vec<S>>,
    pub setup_fails: bool,
    pub solve_fails: bool,
    pub x: Vec<S>,
    pub iters: usize,
}
thread_local! {
    static LSC: RefCell<Option<Box<dyn Any>>> = const { RefCell::new(None) };
}
pub fn ls_reset<S: IS>(kind: LSolverType) {
    let c: LsCtl<S> = LsCtl { kind, setups: vec![], solves: vec![], scale: vec![], setup_fails: false, solve_fails: false, x: vec![], iters: 1 };
    LSC.with(|l| *l.borrow_mut() = Some(Box::new(c)));
}
pub fn lsc<S: IS, R>(f: impl FnOnce(&mut LsCtl<S>) -> R) -> R {
    LSC.with(|l| f(l.borrow_mut().as_mut().expect("ls_reset").downcast_mut::<LsCtl<S>>().expect("scalar")))
}
#[derive(Debug)]
pub struct Ls;
impl<S: IS> LSolver<S> for Ls {
    fn new(_: usize) -> Self {
        Ls
    }
    fn get_type(&self) -> LSolverType {
        lsc::<S, _>(|c| c.kind)
    }
    fn setup<S1>(&mut self, mat_a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = S>,
    {
        lsc::<S, _>(|c| {
            c.setups.push(mat_a.iter().copied().collect());
            if c.setup_fails {
                Err(failure::err_msg("singular"))
            } else {
                Ok(())
            }
        })
    }
    fn solve<S1, S2, S3>(&self, mat_a: ArrayBase<S1, Ix2>, mut x: ArrayBase<S2, Ix1>, b: ArrayBase<S3, Ix1>, tol: S) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = S>,
        S2: ndarray::DataMut<Elem = S>,
        S3: ndarray::Data<Elem = S>,
    {
        lsc::<S, _>(|c| {
            c.solves.push((mat_a.iter().copied().collect(), v(&b), tol));
            if c.solve_fails {
                return Err(failure::err_msg("linear solver failed"));
            }
            for i in 0..c.x.len() {
                x[i] = c.x[i];
            }
            Ok(())
        })
    }
    fn set_scaling_vectors<S1, S2>(&mut self, s1: ArrayBase<S1, Ix1>, s2: ArrayBase<S2, Ix1>)
    where
        S1: ndarray::Data<Elem = S>,
        S2: ndarray::Data<Elem = S>,
    {
        lsc::<S, _>(|c| {
            c.scale.push(v(&s1));
            c.scale.push(v(&s2));
        })
    }
    fn num_iters(&self) -> usize {
        lsc::<S, _>(|c| c.iters)
    }
}

// ---------------------------------------------------------------- the error weights
/// weights as the harness says
pub struct Tol<S> {
    pub f: Box<dyn Fn(&[S]) -> Vec<S>>,
}
impl<S> std::fmt::Debug for Tol<S> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Tol")
    }
}
impl<S: IS> TolControl<S> for Tol<S> {
    fn ewt_set<S1, S2>(&self, ycur: ArrayBase<S1, Ix1>, mut ewt: ArrayBase<S2, Ix1>)
    where
        S1: ndarray::Data<Elem = S>,
        S2: ndarray::DataMut<Elem = S>,
    {
        let w = (self.f)(&v(&ycur));
        for i in 0..w.len() {
            ewt[i] = w[i];
        }
    }
}
/// weights 1
pub fn ones<S: IS>() -> Tol<S> {
    Tol { f: Box::new(|y| vec![S::num(1.0); y.len()]) }
}

pub type I<S> = Ida<Prob<S>, Ls, Nls<S>, Tol<S>>;
pub fn ida<S: IS>(p: &Prob<S>, y0: &[S], yp0: &[S], tol: Tol<S>) -> I<S> {
    ls_reset::<S>(LSolverType::Direct);
    Ida::new(p.clone(), Array::from_vec(y0.to_vec()), Array::from_vec(yp0.to_vec()), tol)
}
pub fn row<S: IS>(i: &I<S>, j: usize) -> Vec<S> {
    v(&i.ida_phi.index_axis(Axis(0), j))
}
pub fn zeros<S: IS>(n: usize) -> Vec<S> {
    vec![S::num(0.0); n]
}
pub fn err_of<T>(r: Result<T, failure::Error>) -> Option<failure::Error> {
    r.err()
}

pub fn main() {
    symx::sym::OPAQUE_OK.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut v: Vec<Harness> = vec![];
    #[cfg(feature = "interp")]
    interp::register(&mut v);
    #[cfg(feature = "step")]
    step::register(&mut v);
    #[cfg(feature = "drive")]
    drive::register(&mut v);
    #[cfg(feature = "roots")]
    roots::register(&mut v);
    #[cfg(feature = "nls")]
    nls::register(&mut v);
    #[cfg(feature = "misc")]
    misc::register(&mut v);
    #[cfg(feature = "sample")]
    sample::register(&mut v);
    #[cfg(feature = "meta")]
    meta::register(&mut v);
    symx::main_with(v)
}
