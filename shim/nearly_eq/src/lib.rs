use ndarray::{ArrayBase, Data, Dimension};
pub trait NearlyEq<R: ?Sized = Self> {
    fn eq(&self, o: &R) -> bool;
}
impl NearlyEq for f64 {
    fn eq(&self, o: &f64) -> bool {
        self == o || (self - o).abs() <= 1e-6 * self.abs().max(o.abs()).max(1e-30) || (self - o).abs() < 1e-9 * 1e-9
    }
}
impl<S: Data<Elem = f64>, S2: Data<Elem = f64>, D: Dimension> NearlyEq<ArrayBase<S2, D>> for ArrayBase<S, D> {
    fn eq(&self, o: &ArrayBase<S2, D>) -> bool {
        self.shape() == o.shape() && self.iter().zip(o.iter()).all(|(a, b)| NearlyEq::eq(a, b))
    }
}
#[macro_export]
macro_rules! assert_nearly_eq {
    ($a:expr, $b:expr $(, $t:expr)?) => { assert!($crate::NearlyEq::eq(&$a, &$b), "{:e} is not nearly {:e}", $a, $b) };
}
