// A problem from plain functions, and a scripted Newton iteration, at f64.
#![allow(dead_code)]
use crate::linear::{Dense, LSolver};
use crate::nonlinear::{NLProblem, NLSolver, Newton};
use crate::tol_control::*;
use crate::traits::*;
use crate::*;
use ndarray::prelude::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Default, Debug)]
pub struct Log {
    pub res_t: Vec<f64>,
    pub jac: Vec<(f64, f64)>,
    pub g: Vec<(f64, Vec<f64>)>,
}
pub type ResF = fn(f64, &[f64], &[f64]) -> Vec<f64>;
pub type JacF = fn(f64, f64, &[f64], &[f64]) -> Vec<Vec<f64>>;
pub type RootF = fn(f64, &[f64], &[f64]) -> Vec<f64>;
#[derive(Clone)]
pub struct Pb {
    pub n: usize,
    pub nr: usize,
    pub res: ResF,
    pub jac: JacF,
    pub root: RootF,
    pub log: Rc<RefCell<Log>>,
}
impl std::fmt::Debug for Pb {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Pb")
    }
}
pub fn no_root(_: f64, _: &[f64], _: &[f64]) -> Vec<f64> {
    vec![]
}
impl Pb {
    pub fn new(n: usize, res: ResF, jac: JacF) -> Pb {
        Pb { n, nr: 0, res, jac, root: no_root, log: Default::default() }
    }
    pub fn roots(mut self, nr: usize, root: RootF) -> Pb {
        self.nr = nr;
        self.root = root;
        self
    }
}
impl ModelSpec for Pb {
    type Scalar = f64;
    type Dim = Ix1;
    fn model_size(&self) -> usize {
        self.n
    }
}
fn v<S: ndarray::Data<Elem = f64>>(a: &ArrayBase<S, Ix1>) -> Vec<f64> {
    a.iter().cloned().collect()
}
impl Residual for Pb {
    fn res<S1, S2, S3>(&self, tt: f64, yy: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, mut rr: ArrayBase<S3, Ix1>)
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::Data<Elem = f64>,
        S3: ndarray::DataMut<Elem = f64>,
    {
        self.log.borrow_mut().res_t.push(tt);
        let r = (self.res)(tt, &v(&yy), &v(&yp));
        for i in 0..self.n {
            rr[i] = r[i];
        }
    }
}
impl Jacobian for Pb {
    fn jac<S1, S2, S3, S4>(&self, tt: f64, cj: f64, yy: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, _rr: ArrayBase<S3, Ix1>, mut jac: ArrayBase<S4, Ix2>)
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::Data<Elem = f64>,
        S3: ndarray::Data<Elem = f64>,
        S4: ndarray::DataMut<Elem = f64>,
    {
        self.log.borrow_mut().jac.push((tt, cj));
        let j = (self.jac)(tt, cj, &v(&yy), &v(&yp));
        for i in 0..self.n {
            for k in 0..self.n {
                if j[i][k] != 0.0 {
                    jac[[i, k]] = j[i][k];
                }
            }
        }
    }
}
impl Root for Pb {
    fn num_roots(&self) -> usize {
        self.nr
    }
    fn root<S1, S2, S3>(&self, t: f64, y: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, mut gout: ArrayBase<S3, Ix1>)
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::Data<Elem = f64>,
        S3: ndarray::DataMut<Elem = f64>,
    {
        let g = (self.root)(t, &v(&y), &v(&yp));
        for i in 0..self.nr {
            gout[i] = g[i];
        }
        self.log.borrow_mut().g.push((t, g));
    }
}
/// Newton's method, or the outcomes of `plan` instead of it for as long as there are any:
/// Err = recoverable failure, Ok(e) = the correction e in every component
#[derive(Clone, Debug)]
pub struct Script {
    pub plan: std::collections::VecDeque<Result<Vec<f64>, ()>>,
    pub newton: Newton<Pb>,
    pub asked: Vec<bool>,
}
impl NLSolver<Pb> for Script {
    fn new(size: usize, maxiters: usize) -> Self {
        Script { plan: Default::default(), newton: Newton::new(size, maxiters), asked: vec![] }
    }
    fn solve<NLP, S1, S2, S3>(&mut self, problem: &mut NLP, y0: ArrayBase<S1, Ix1>, mut y: ArrayBase<S2, Ix1>, w: ArrayBase<S3, Ix1>, tol: f64, call_lsetup: bool) -> Result<(), failure::Error>
    where
        NLP: NLProblem<Pb>,
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::DataMut<Elem = f64>,
        S3: ndarray::Data<Elem = f64>,
    {
        self.asked.push(call_lsetup);
        match self.plan.pop_front() {
            Some(Ok(e)) => {
                for i in 0..y.len() {
                    y[i] = e[i];
                }
                Ok(())
            }
            Some(Err(())) => Err(failure::Error::from(crate::nonlinear::Error::ConvergenceRecover {})),
            None => self.newton.solve(problem, y0, y, w, tol, call_lsetup),
        }
    }
    fn get_num_iters(&self) -> usize {
        self.newton.get_num_iters()
    }
    fn get_cur_iter(&self) -> usize {
        self.newton.get_cur_iter()
    }
}
pub type I = Ida<Pb, Dense<f64>, Script, TolControlSS<f64>>;
pub type IV = Ida<Pb, Dense<f64>, Script, TolControlSV<f64>>;
pub fn ida(p: Pb, y: &[f64], yp: &[f64], rtol: f64, atol: f64) -> I {
    Ida::new(p, Array::from(y.to_vec()), Array::from(yp.to_vec()), TolControlSS::new(rtol, atol))
}
/// y' = q (constant right-hand side 1)
pub fn ramp() -> Pb {
    Pb::new(1, |_, _, yp| vec![yp[0] - 1.0], |_, cj, _, _| vec![vec![cj]])
}
/// y' = -k y
pub fn decay() -> Pb {
    Pb::new(1, |_, y, yp| vec![yp[0] + y[0]], |_, cj, _, _| vec![vec![cj + 1.0]])
}
/// y1' = y2, y2' = -y1
pub fn osc() -> Pb {
    Pb::new(2, |_, y, yp| vec![yp[0] - y[1], yp[1] + y[0]], |_, cj, _, _| vec![vec![cj, -1.0], vec![1.0, cj]])
}
/// y1' = -y1, 0 = y2 - y1^2 - 1
pub fn dae() -> Pb {
    Pb::new(2, |_, y, yp| vec![yp[0] + y[0], y[1] - y[0] * y[0] - 1.0], |_, cj, y, _| vec![vec![cj + 1.0, 0.0], vec![-2.0 * y[0], 1.0]])
}
pub fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + b.abs())
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("wrong: {}", what);
        std::process::exit(1);
    }
}
/// the polynomial through the points (t, y) at x (Neville)
pub fn poly(ts: &[f64], ys: &[f64], x: f64) -> f64 {
    let mut p = ys.to_vec();
    let n = p.len();
    for m in 1..n {
        for i in 0..n - m {
            p[i] = ((x - ts[i + m]) * p[i] + (ts[i] - x) * p[i + 1]) / (ts[i] - ts[i + m]);
        }
    }
    p[0]
}
