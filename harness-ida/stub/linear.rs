//! The linear-solver interface the integrator was written against (the crate it came from was
//! replaced by crates/linear, which no longer fits), and a plain dense solver for it.
use ndarray::prelude::*;
use num_traits::Float;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LSolverType {
    Direct,
    Iterative,
    MatrixIterative,
}
pub trait LSolver<Scalar> {
    fn new(size: usize) -> Self;
    fn get_type(&self) -> LSolverType;
    fn setup<S1>(&mut self, mat_a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = Scalar>;
    fn solve<S1, S2, S3>(&self, mat_a: ArrayBase<S1, Ix2>, x: ArrayBase<S2, Ix1>, b: ArrayBase<S3, Ix1>, tol: Scalar) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = Scalar>,
        S2: ndarray::DataMut<Elem = Scalar>,
        S3: ndarray::Data<Elem = Scalar>;
    fn set_scaling_vectors<S1, S2>(&mut self, _s1: ArrayBase<S1, Ix1>, _s2: ArrayBase<S2, Ix1>)
    where
        S1: ndarray::Data<Elem = Scalar>,
        S2: ndarray::Data<Elem = Scalar>,
    {
    }
    fn num_iters(&self) -> usize {
        0
    }
}

/// LU with partial pivoting, factors stored over the matrix
#[derive(Clone, Debug)]
pub struct Dense<S> {
    piv: Vec<usize>,
    _s: std::marker::PhantomData<S>,
}
impl<S: Float> LSolver<S> for Dense<S> {
    fn new(_size: usize) -> Self {
        Dense { piv: vec![], _s: std::marker::PhantomData }
    }
    fn get_type(&self) -> LSolverType {
        LSolverType::Direct
    }
    fn setup<S1>(&mut self, mut a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = S>,
    {
        let n = a.len_of(Axis(0));
        self.piv = vec![0; n];
        for k in 0..n {
            let mut l = k;
            for i in k + 1..n {
                if a[[i, k]].abs() > a[[l, k]].abs() {
                    l = i;
                }
            }
            self.piv[k] = l;
            if a[[l, k]] == S::zero() {
                return Err(failure::err_msg(format!("zero pivot {k}")));
            }
            if l != k {
                for j in 0..n {
                    let t = a[[k, j]];
                    a[[k, j]] = a[[l, j]];
                    a[[l, j]] = t;
                }
            }
            for i in k + 1..n {
                let m = a[[i, k]] / a[[k, k]];
                a[[i, k]] = m;
                for j in k + 1..n {
                    a[[i, j]] = a[[i, j]] - m * a[[k, j]];
                }
            }
        }
        Ok(())
    }
    fn solve<S1, S2, S3>(&self, a: ArrayBase<S1, Ix2>, mut x: ArrayBase<S2, Ix1>, b: ArrayBase<S3, Ix1>, _tol: S) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = S>,
        S2: ndarray::DataMut<Elem = S>,
        S3: ndarray::Data<Elem = S>,
    {
        let n = self.piv.len();
        for i in 0..n {
            x[i] = b[i];
        }
        for k in 0..n {
            if self.piv[k] != k {
                let t = x[k];
                x[k] = x[self.piv[k]];
                x[self.piv[k]] = t;
            }
        }
        for i in 0..n {
            for j in 0..i {
                x[i] = x[i] - a[[i, j]] * x[j];
            }
        }
        for i in (0..n).rev() {
            for j in i + 1..n {
                x[i] = x[i] - a[[i, j]] * x[j];
            }
            x[i] = x[i] / a[[i, i]];
        }
        Ok(())
    }
}
