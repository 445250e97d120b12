//! The nonlinear-solver interface the integrator was written against, and Newton's method for it
//! (the loop of crates/nonlinear, in this interface).
use super::traits::ModelSpec;
use failure::Fail;
use ndarray::prelude::*;
use num_traits::{Float, Zero};

#[derive(Debug, Fail)]
pub enum Error {
    #[fail(display = "the nonlinear iteration did not converge (recoverable)")]
    ConvergenceRecover {},
}

pub trait NLProblem<P: ModelSpec> {
    fn sys<S1, S2>(&mut self, ycor: ArrayBase<S1, Ix1>, res: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>;
    fn setup<S1, S2>(&mut self, ycor: ArrayBase<S1, Ix1>, res: ArrayBase<S2, Ix1>, jbad: bool) -> Result<bool, failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::Data<Elem = P::Scalar>;
    fn solve<S1, S2>(&mut self, ycor: ArrayBase<S1, Ix1>, delta: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>;
    fn ctest<S1, S2, S3, NLS>(
        &mut self,
        solver: &NLS,
        y: ArrayBase<S1, Ix1>,
        del: ArrayBase<S2, Ix1>,
        tol: P::Scalar,
        ewt: ArrayBase<S3, Ix1>,
    ) -> Result<bool, failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::Data<Elem = P::Scalar>,
        S3: ndarray::Data<Elem = P::Scalar>,
        NLS: NLSolver<P>;
}

pub trait NLSolver<P: ModelSpec> {
    fn new(size: usize, maxiters: usize) -> Self;
    fn setup<S1>(&mut self, _y: &mut ArrayBase<S1, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = P::Scalar>,
    {
        Ok(())
    }
    fn solve<NLP, S1, S2, S3>(
        &mut self,
        problem: &mut NLP,
        y0: ArrayBase<S1, Ix1>,
        y: ArrayBase<S2, Ix1>,
        w: ArrayBase<S3, Ix1>,
        tol: P::Scalar,
        call_lsetup: bool,
    ) -> Result<(), failure::Error>
    where
        NLP: NLProblem<P>,
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>,
        S3: ndarray::Data<Elem = P::Scalar>;
    fn get_num_iters(&self) -> usize;
    fn get_cur_iter(&self) -> usize;
    fn get_num_conv_fails(&self) -> usize {
        0
    }
}

#[derive(Debug, Clone)]
pub struct Newton<P: ModelSpec> {
    delta: Array1<P::Scalar>,
    maxiters: usize,
    curiter: usize,
    niters: usize,
}
impl<P: ModelSpec> NLSolver<P> for Newton<P>
where
    P::Scalar: num_traits::NumAssignRef,
{
    fn new(size: usize, maxiters: usize) -> Self {
        Newton { delta: Array::zeros(size), maxiters, curiter: 0, niters: 0 }
    }
    fn solve<NLP, S1, S2, S3>(
        &mut self,
        problem: &mut NLP,
        y0: ArrayBase<S1, Ix1>,
        mut y: ArrayBase<S2, Ix1>,
        w: ArrayBase<S3, Ix1>,
        tol: P::Scalar,
        call_lsetup: bool,
    ) -> Result<(), failure::Error>
    where
        NLP: NLProblem<P>,
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>,
        S3: ndarray::Data<Elem = P::Scalar>,
    {
        let (mut lsetup, mut jbad) = (call_lsetup, false);
        loop {
            problem.sys(y0.view(), self.delta.view_mut())?;
            let mut jcur = false;
            if lsetup {
                jcur = problem.setup(y0.view(), self.delta.view(), jbad)?;
            }
            self.curiter = 0;
            y.assign(&y0);
            let r = loop {
                self.niters += 1;
                for d in self.delta.iter_mut() {
                    *d = P::Scalar::zero() - *d;
                }
                problem.solve(y.view(), self.delta.view_mut())?;
                for i in 0..y.len() {
                    y[i] = y[i] + self.delta[i];
                }
                let d = self.delta.clone();
                match problem.ctest(self, y.view(), d.view(), tol, w.view()) {
                    Ok(true) => break Ok(()),
                    Err(e) => break Err(e),
                    Ok(false) => {}
                }
                self.curiter += 1;
                if self.curiter >= self.maxiters {
                    break Err(failure::Error::from(Error::ConvergenceRecover {}));
                }
                problem.sys(y.view(), self.delta.view_mut())?;
            };
            match r {
                Err(_) if !jcur => {
                    lsetup = true;
                    jbad = true;
                }
                r => return r,
            }
        }
    }
    fn get_num_iters(&self) -> usize {
        self.niters
    }
    fn get_cur_iter(&self) -> usize {
        self.curiter
    }
}
