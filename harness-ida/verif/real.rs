//! The repository's own Newton iteration and LU solver (crates/nonlinear, crates/linear) behind
//! the interfaces the integrator was written against.
use super::*;
use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, Matrix, OMatrix, OVector, RealField, Storage, StorageMut, U1};

fn mat<S: RealField + Copy, D: DimName, B: ndarray::Data<Elem = S>>(a: &ArrayBase<B, Ix2>) -> OMatrix<S, D, D>
where
    DefaultAllocator: Allocator<S, D, D>,
{
    OMatrix::<S, D, D>::from_fn(|i, j| a[[i, j]])
}
fn vec<S: RealField + Copy, D: DimName>(a: &[S]) -> OVector<S, D>
where
    DefaultAllocator: Allocator<S, D>,
{
    OVector::<S, D>::from_fn(|i, _| a[i])
}

pub struct Lu<D: DimName>(lin_crate::Dense<D>)
where
    DefaultAllocator: Allocator<usize, D>;
impl<D: DimName> std::fmt::Debug for Lu<D>
where
    DefaultAllocator: Allocator<usize, D>,
{
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Lu")
    }
}
impl<S: IS + RealField + Copy, D: DimName> LSolver<S> for Lu<D>
where
    DefaultAllocator: Allocator<usize, D> + Allocator<S, D> + Allocator<S, D, D>,
{
    fn new(_: usize) -> Self {
        Lu(<lin_crate::Dense<D> as lin_crate::LSolver<S, D>>::new())
    }
    fn get_type(&self) -> LSolverType {
        LSolverType::Direct
    }
    fn setup<S1>(&mut self, mut a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = S>,
    {
        let mut m = mat::<S, D, _>(&a);
        let r = lin_crate::LSolver::<S, D>::setup(&mut self.0, &mut m);
        for i in 0..D::dim() {
            for j in 0..D::dim() {
                a[[i, j]] = m[(i, j)];
            }
        }
        r.map_err(|e| failure::err_msg(format!("{e:?}")))
    }
    fn solve<S1, S2, S3>(&self, a: ArrayBase<S1, Ix2>, mut x: ArrayBase<S2, Ix1>, b: ArrayBase<S3, Ix1>, tol: S) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = S>,
        S2: ndarray::DataMut<Elem = S>,
        S3: ndarray::Data<Elem = S>,
    {
        let (m, bb) = (mat::<S, D, _>(&a), vec::<S, D>(&v(&b)));
        let mut xx = OVector::<S, D>::from_fn(|_, _| S::num(0.0));
        let r = lin_crate::LSolver::<S, D>::solve(&self.0, &m, &mut xx, &bb, tol);
        for i in 0..D::dim() {
            x[i] = xx[i];
        }
        r.map_err(|e| failure::err_msg(format!("{e:?}")))
    }
}

pub struct New<S: RealField + Copy, D: DimName>
where
    DefaultAllocator: Allocator<S, D>,
{
    it: nl_crate::Newton<S, D>,
    cur: usize,
}
impl<S: RealField + Copy, D: DimName> std::fmt::Debug for New<S, D>
where
    DefaultAllocator: Allocator<S, D>,
{
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Newton")
    }
}
/// the integrator's nonlinear problem, as crates/nonlinear sees it
struct Side<'a, NLP, P> {
    p: &'a mut NLP,
    err: Option<failure::Error>,
    _p: std::marker::PhantomData<P>,
}
impl<NLP, P> Side<'_, NLP, P> {
    /// the error kept aside; `ConvergenceRecover` goes through
    fn keep<T>(&mut self, r: Result<T, failure::Error>) -> Result<T, nl_crate::Error> {
        r.map_err(|e| match e.downcast::<crate::nonlinear::Error>() {
            Ok(crate::nonlinear::Error::ConvergenceRecover {}) => nl_crate::Error::ConvergenceRecover {},
            #[allow(unreachable_patterns)]
            Ok(e) => {
                self.err = Some(e.into());
                nl_crate::Error::IllegalInput {}
            }
            Err(e) => {
                self.err = Some(e);
                nl_crate::Error::IllegalInput {}
            }
        })
    }
}
fn arr<S: RealField + Copy, D: DimName, B: Storage<S, D, U1>>(y: &Matrix<S, D, U1, B>) -> Array1<S> {
    Array1::from_vec((0..D::dim()).map(|i| y[i]).collect())
}
/// what the convergence test asks the solver for
struct Cur(usize);
impl<P: ModelSpec> NLSolver<P> for Cur {
    fn new(_: usize, _: usize) -> Self {
        Cur(0)
    }
    fn solve<NLP, S1, S2, S3>(&mut self, _: &mut NLP, _: ArrayBase<S1, Ix1>, _: ArrayBase<S2, Ix1>, _: ArrayBase<S3, Ix1>, _: P::Scalar, _: bool) -> Result<(), failure::Error>
    where
        NLP: NLProblem<P>,
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>,
        S3: ndarray::Data<Elem = P::Scalar>,
    {
        unreachable!()
    }
    fn get_num_iters(&self) -> usize {
        self.0
    }
    fn get_cur_iter(&self) -> usize {
        self.0
    }
}
impl<S, D, P, NLP> nl_crate::NLProblem<S, D> for Side<'_, NLP, P>
where
    S: IS + RealField + Copy,
    D: DimName,
    P: ModelSpec<Scalar = S>,
    NLP: NLProblem<P>,
{
    fn sys<B1, B2>(&mut self, y: &Matrix<S, D, U1, B1>, f: &mut Matrix<S, D, U1, B2>) -> Result<(), nl_crate::Error>
    where
        B1: Storage<S, D, U1>,
        B2: StorageMut<S, D, U1>,
    {
        let mut r = Array1::from_vec(zeros::<S>(D::dim()));
        let x = self.p.sys(arr(y), r.view_mut());
        for i in 0..D::dim() {
            f[i] = r[i];
        }
        self.keep(x)
    }
    fn setup<B1, B2>(&mut self, y: &Matrix<S, D, U1, B1>, f: &Matrix<S, D, U1, B2>, jbad: bool) -> Result<bool, nl_crate::Error>
    where
        B1: Storage<S, D, U1>,
        B2: Storage<S, D, U1>,
    {
        let x = self.p.setup(arr(y), arr(f), jbad);
        self.keep(x)
    }
    fn solve<B1, B2>(&mut self, y: &Matrix<S, D, U1, B1>, b: &mut Matrix<S, D, U1, B2>) -> Result<(), nl_crate::Error>
    where
        B1: Storage<S, D, U1>,
        B2: StorageMut<S, D, U1>,
    {
        let mut r = arr(b);
        let x = self.p.solve(arr(y), r.view_mut());
        for i in 0..D::dim() {
            b[i] = r[i];
        }
        self.keep(x)
    }
    fn ctest<NLS, B1, B2, B3>(&mut self, s: &NLS, y: &Matrix<S, D, U1, B1>, del: &Matrix<S, D, U1, B2>, tol: S, ewt: &Matrix<S, D, U1, B3>) -> Result<bool, nl_crate::Error>
    where
        NLS: nl_crate::NLSolver<S, D>,
        B1: Storage<S, D, U1>,
        B2: Storage<S, D, U1>,
        B3: Storage<S, D, U1>,
    {
        let x = self.p.ctest(&Cur(s.get_cur_iter()), arr(y), arr(del), tol, arr(ewt));
        self.keep(x)
    }
}
impl<S, D, P> NLSolver<P> for New<S, D>
where
    S: IS + RealField + Copy,
    D: DimName + nalgebra::DimNameAdd<D>,
    P: ModelSpec<Scalar = S>,
    DefaultAllocator: Allocator<S, D>,
{
    fn new(_: usize, maxiters: usize) -> Self {
        New { it: <nl_crate::Newton<S, D> as nl_crate::NLSolver<S, D>>::new(maxiters), cur: 0 }
    }
    fn solve<NLP, S1, S2, S3>(&mut self, p: &mut NLP, y0: ArrayBase<S1, Ix1>, mut y: ArrayBase<S2, Ix1>, w: ArrayBase<S3, Ix1>, tol: S, lsetup: bool) -> Result<(), failure::Error>
    where
        NLP: NLProblem<P>,
        S1: ndarray::Data<Elem = S>,
        S2: ndarray::DataMut<Elem = S>,
        S3: ndarray::Data<Elem = S>,
    {
        let mut side = Side { p, err: None, _p: std::marker::PhantomData };
        let (v0, ww) = (vec::<S, D>(&v(&y0)), vec::<S, D>(&v(&w)));
        let mut vy = v0.clone();
        let r = nl_crate::NLSolver::<S, D>::solve(&mut self.it, &mut side, &v0, &mut vy, &ww, tol, lsetup);
        for i in 0..D::dim() {
            y[i] = vy[i];
        }
        r.map_err(|e| match (side.err, e) {
            (Some(e), _) => e,
            (None, nl_crate::Error::ConvergenceRecover {}) => crate::nonlinear::Error::ConvergenceRecover {}.into(),
            (None, e) => failure::err_msg(format!("{e:?}")),
        })
    }
    fn get_num_iters(&self) -> usize {
        nl_crate::NLSolver::<S, D>::get_num_iters(&self.it)
    }
    fn get_cur_iter(&self) -> usize {
        self.cur
    }
}
