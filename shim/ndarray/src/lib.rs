//! Stand-in for the part of `ndarray` (0.12 API) that the integrator uses, generous enough for refactorings of it.
//! Owned arrays are contiguous; views are a base pointer with strides, as in the original.
#![allow(clippy::all)]
use num_traits::{One, Zero};
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Div, DivAssign, Index, IndexMut, Mul, MulAssign, Neg, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive, Rem, RemAssign, Sub, SubAssign};

pub type Ix = usize;
pub type Ixs = isize;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default)]
pub struct Dim<I>(pub I);
pub type Ix0 = Dim<[usize; 0]>;
pub type Ix1 = Dim<[usize; 1]>;
pub type Ix2 = Dim<[usize; 2]>;
pub type IxDyn = Dim<Vec<usize>>;
#[allow(non_snake_case)]
pub fn Ix1(n: usize) -> Ix1 {
    Dim([n])
}
#[allow(non_snake_case)]
pub fn Ix2(n: usize, m: usize) -> Ix2 {
    Dim([n, m])
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Axis(pub usize);
impl Axis {
    pub fn index(&self) -> usize {
        self.0
    }
}

pub trait Dimension: Clone + PartialEq + fmt::Debug + Send + Sync + 'static {
    type Pattern: Clone + fmt::Debug;
    type Smaller: Dimension;
    type Larger: Dimension;
    const NDIM: Option<usize>;
    fn dims(&self) -> &[usize];
    fn from_dims(d: &[usize]) -> Option<Self>;
    fn into_pattern(self) -> Self::Pattern;
    fn size(&self) -> usize {
        self.dims().iter().product()
    }
    fn ndim(&self) -> usize {
        self.dims().len()
    }
}
impl Dimension for Ix0 {
    type Pattern = ();
    type Smaller = Ix0;
    type Larger = Ix1;
    const NDIM: Option<usize> = Some(0);
    fn dims(&self) -> &[usize] {
        &self.0
    }
    fn from_dims(d: &[usize]) -> Option<Self> {
        d.is_empty().then_some(Dim([]))
    }
    fn into_pattern(self) {}
}
impl Dimension for Ix1 {
    type Pattern = usize;
    type Smaller = Ix0;
    type Larger = Ix2;
    const NDIM: Option<usize> = Some(1);
    fn dims(&self) -> &[usize] {
        &self.0
    }
    fn from_dims(d: &[usize]) -> Option<Self> {
        d.try_into().ok().map(Dim)
    }
    fn into_pattern(self) -> usize {
        self.0[0]
    }
}
impl Dimension for Ix2 {
    type Pattern = (usize, usize);
    type Smaller = Ix1;
    type Larger = IxDyn;
    const NDIM: Option<usize> = Some(2);
    fn dims(&self) -> &[usize] {
        &self.0
    }
    fn from_dims(d: &[usize]) -> Option<Self> {
        d.try_into().ok().map(Dim)
    }
    fn into_pattern(self) -> (usize, usize) {
        (self.0[0], self.0[1])
    }
}
impl Dimension for IxDyn {
    type Pattern = IxDyn;
    type Smaller = IxDyn;
    type Larger = IxDyn;
    const NDIM: Option<usize> = None;
    fn dims(&self) -> &[usize] {
        &self.0
    }
    fn from_dims(d: &[usize]) -> Option<Self> {
        Some(Dim(d.to_vec()))
    }
    fn into_pattern(self) -> IxDyn {
        self
    }
}
pub trait RemoveAxis: Dimension {}
impl RemoveAxis for Ix1 {}
impl RemoveAxis for Ix2 {}
impl RemoveAxis for IxDyn {}

pub trait IntoDimension {
    type Dim: Dimension;
    fn into_dimension(self) -> Self::Dim;
}
impl IntoDimension for usize {
    type Dim = Ix1;
    fn into_dimension(self) -> Ix1 {
        Dim([self])
    }
}
impl IntoDimension for (usize,) {
    type Dim = Ix1;
    fn into_dimension(self) -> Ix1 {
        Dim([self.0])
    }
}
impl IntoDimension for (usize, usize) {
    type Dim = Ix2;
    fn into_dimension(self) -> Ix2 {
        Dim([self.0, self.1])
    }
}
impl IntoDimension for [usize; 1] {
    type Dim = Ix1;
    fn into_dimension(self) -> Ix1 {
        Dim(self)
    }
}
impl IntoDimension for [usize; 2] {
    type Dim = Ix2;
    fn into_dimension(self) -> Ix2 {
        Dim(self)
    }
}
impl IntoDimension for Vec<usize> {
    type Dim = IxDyn;
    fn into_dimension(self) -> IxDyn {
        Dim(self)
    }
}
impl<'a> IntoDimension for &'a [usize] {
    type Dim = IxDyn;
    fn into_dimension(self) -> IxDyn {
        Dim(self.to_vec())
    }
}
impl<I> IntoDimension for Dim<I>
where
    Dim<I>: Dimension,
{
    type Dim = Dim<I>;
    fn into_dimension(self) -> Dim<I> {
        self
    }
}
pub trait ShapeBuilder: IntoDimension {}
impl<T: IntoDimension> ShapeBuilder for T {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind {
    IncompatibleShape,
}
#[derive(Debug, Clone)]
pub struct ShapeError;
impl ShapeError {
    pub fn kind(&self) -> ErrorKind {
        ErrorKind::IncompatibleShape
    }
}
impl fmt::Display for ShapeError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("ShapeError/IncompatibleShape")
    }
}
impl std::error::Error for ShapeError {}

// ---- storage ----
pub struct OwnedRepr<A>(Vec<A>);
pub struct ViewRepr<A>(PhantomData<A>);
pub unsafe trait RawData: Sized {
    type Elem;
}
/// read access
pub unsafe trait Data: RawData {
    #[doc(hidden)]
    fn clone_arr<D: Dimension>(a: &ArrayBase<Self, D>) -> ArrayBase<Self, D>
    where
        Self::Elem: Clone;
}
pub unsafe trait DataMut: Data {}
pub unsafe trait DataOwned: Data {
    #[doc(hidden)]
    fn make(v: Vec<Self::Elem>) -> Self;
    #[doc(hidden)]
    fn base(&mut self) -> *mut Self::Elem;
}
pub unsafe trait DataClone: Data {}
unsafe impl<A> RawData for OwnedRepr<A> {
    type Elem = A;
}
unsafe impl<A> Data for OwnedRepr<A> {
    fn clone_arr<D: Dimension>(a: &ArrayBase<Self, D>) -> ArrayBase<Self, D>
    where
        A: Clone,
    {
        a.to_owned()
    }
}
unsafe impl<A> DataMut for OwnedRepr<A> {}
unsafe impl<A> DataClone for OwnedRepr<A> {}
unsafe impl<A> DataOwned for OwnedRepr<A> {
    fn make(v: Vec<A>) -> Self {
        OwnedRepr(v)
    }
    fn base(&mut self) -> *mut A {
        self.0.as_mut_ptr()
    }
}
unsafe impl<'a, A> RawData for ViewRepr<&'a A> {
    type Elem = A;
}
unsafe impl<'a, A> Data for ViewRepr<&'a A> {
    fn clone_arr<D: Dimension>(a: &ArrayBase<Self, D>) -> ArrayBase<Self, D> {
        ArrayBase { data: ViewRepr(PhantomData), ptr: a.ptr, dim: a.dim.clone(), strides: a.strides.clone() }
    }
}
unsafe impl<'a, A> DataClone for ViewRepr<&'a A> {}
unsafe impl<'a, A> RawData for ViewRepr<&'a mut A> {
    type Elem = A;
}
unsafe impl<'a, A> Data for ViewRepr<&'a mut A> {
    fn clone_arr<D: Dimension>(_: &ArrayBase<Self, D>) -> ArrayBase<Self, D> {
        panic!("a mutable view is not Clone")
    }
}
unsafe impl<'a, A> DataMut for ViewRepr<&'a mut A> {}

pub struct ArrayBase<S: RawData, D> {
    #[allow(dead_code)]
    data: S,
    ptr: *mut S::Elem,
    dim: D,
    strides: Vec<isize>,
}
unsafe impl<S: RawData, D: Send> Send for ArrayBase<S, D> where S::Elem: Send {}
unsafe impl<S: RawData, D: Sync> Sync for ArrayBase<S, D> where S::Elem: Sync {}
pub type Array<A, D> = ArrayBase<OwnedRepr<A>, D>;
pub type ArrayView<'a, A, D> = ArrayBase<ViewRepr<&'a A>, D>;
pub type ArrayViewMut<'a, A, D> = ArrayBase<ViewRepr<&'a mut A>, D>;
pub type Array1<A> = Array<A, Ix1>;
pub type Array2<A> = Array<A, Ix2>;
pub type ArrayD<A> = Array<A, IxDyn>;
pub type ArrayView1<'a, A> = ArrayView<'a, A, Ix1>;
pub type ArrayView2<'a, A> = ArrayView<'a, A, Ix2>;
pub type ArrayViewMut1<'a, A> = ArrayViewMut<'a, A, Ix1>;
pub type ArrayViewMut2<'a, A> = ArrayViewMut<'a, A, Ix2>;

fn c_strides(d: &[usize]) -> Vec<isize> {
    let mut s = vec![1isize; d.len()];
    for i in (0..d.len().saturating_sub(1)).rev() {
        s[i] = s[i + 1] * d[i + 1] as isize;
    }
    s
}
/// offsets of the elements in logical (row major) order
fn offsets(d: &[usize], s: &[isize]) -> Vec<isize> {
    let mut v = vec![0isize];
    for (n, st) in d.iter().zip(s) {
        let mut w = Vec::with_capacity(v.len() * n);
        for o in &v {
            for k in 0..*n {
                w.push(o + k as isize * st);
            }
        }
        v = w;
    }
    v
}

impl<S: Data, D: Dimension> ArrayBase<S, D> {
    fn offs(&self) -> Vec<isize> {
        offsets(self.dim.dims(), &self.strides)
    }
    fn vw<'a>(ptr: *mut S::Elem, dim: D, strides: Vec<isize>) -> ArrayView<'a, S::Elem, D> {
        ArrayBase { data: ViewRepr(PhantomData), ptr, dim, strides }
    }
    pub fn shape(&self) -> &[usize] {
        self.dim.dims()
    }
    pub fn strides(&self) -> &[isize] {
        &self.strides
    }
    pub fn dim(&self) -> D::Pattern {
        self.dim.clone().into_pattern()
    }
    pub fn raw_dim(&self) -> D {
        self.dim.clone()
    }
    pub fn ndim(&self) -> usize {
        self.dim.ndim()
    }
    pub fn len(&self) -> usize {
        self.dim.size()
    }
    pub fn len_of(&self, a: Axis) -> usize {
        self.dim.dims()[a.0]
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn view(&self) -> ArrayView<'_, S::Elem, D> {
        Self::vw(self.ptr, self.dim.clone(), self.strides.clone())
    }
    pub fn view_mut(&mut self) -> ArrayViewMut<'_, S::Elem, D>
    where
        S: DataMut,
    {
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: self.dim.clone(), strides: self.strides.clone() }
    }
    pub fn to_owned(&self) -> Array<S::Elem, D>
    where
        S::Elem: Clone,
    {
        Array::from_parts(self.iter().cloned().collect(), self.dim.clone())
    }
    pub fn into_owned(self) -> Array<S::Elem, D>
    where
        S::Elem: Clone,
    {
        self.to_owned()
    }
    pub fn to_vec(&self) -> Vec<S::Elem>
    where
        S::Elem: Clone,
    {
        self.iter().cloned().collect()
    }
    pub fn iter(&self) -> Iter<'_, S::Elem> {
        Iter { ptr: self.ptr, offs: self.offs().into_iter(), l: PhantomData }
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, S::Elem>
    where
        S: DataMut,
    {
        IterMut { ptr: self.ptr, offs: self.offs().into_iter(), l: PhantomData }
    }
    pub fn indexed_iter(&self) -> std::vec::IntoIter<(D::Pattern, &S::Elem)> {
        let idx = indices::<D>(self.dim.dims());
        idx.into_iter().zip(self.iter()).collect::<Vec<_>>().into_iter()
    }
    pub fn indexed_iter_mut(&mut self) -> std::vec::IntoIter<(D::Pattern, &mut S::Elem)>
    where
        S: DataMut,
    {
        let idx = indices::<D>(self.dim.dims());
        idx.into_iter().zip(self.iter_mut()).collect::<Vec<_>>().into_iter()
    }
    fn contiguous(&self) -> bool {
        self.strides == c_strides(self.dim.dims()) || self.len() <= 1
    }
    pub fn as_slice(&self) -> Option<&[S::Elem]> {
        self.contiguous().then(|| unsafe { std::slice::from_raw_parts(self.ptr, self.len()) })
    }
    pub fn as_slice_mut(&mut self) -> Option<&mut [S::Elem]>
    where
        S: DataMut,
    {
        self.contiguous().then(|| unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len()) })
    }
    pub fn as_ptr(&self) -> *const S::Elem {
        self.ptr
    }
    pub fn reversed_axes(mut self) -> ArrayBase<S, D> {
        let mut d = self.dim.dims().to_vec();
        d.reverse();
        self.strides.reverse();
        self.dim = D::from_dims(&d).unwrap();
        self
    }
    pub fn t(&self) -> ArrayView<'_, S::Elem, D> {
        self.view().reversed_axes()
    }
    pub fn broadcast<E: IntoDimension>(&self, dim: E) -> Option<ArrayView<'_, S::Elem, E::Dim>> {
        let to = dim.into_dimension();
        let (td, fd) = (to.dims().to_vec(), self.dim.dims());
        if td.len() < fd.len() {
            return None;
        }
        let mut st = vec![0isize; td.len()];
        let off = td.len() - fd.len();
        for (k, n) in fd.iter().enumerate() {
            if *n == td[off + k] {
                st[off + k] = self.strides[k];
            } else if *n != 1 {
                return None;
            }
        }
        Some(ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: to, strides: st })
    }
    pub fn into_dimensionality<E: Dimension>(self) -> Result<ArrayBase<S, E>, ShapeError> {
        match E::from_dims(self.dim.dims()) {
            Some(dim) => Ok(ArrayBase { data: self.data, ptr: self.ptr, dim, strides: self.strides }),
            None => Err(ShapeError),
        }
    }
    pub fn get<I: NdIndex<D>>(&self, i: I) -> Option<&S::Elem> {
        i.offset(self.dim.dims(), &self.strides).map(|o| unsafe { &*self.ptr.offset(o) })
    }
    pub fn get_mut<I: NdIndex<D>>(&mut self, i: I) -> Option<&mut S::Elem>
    where
        S: DataMut,
    {
        i.offset(self.dim.dims(), &self.strides).map(|o| unsafe { &mut *self.ptr.offset(o) })
    }
    fn cut_axis(&self, a: Axis, s: Slice) -> (isize, usize, isize) {
        s.resolve(self.dim.dims()[a.0], self.strides[a.0])
    }
    pub fn slice_axis(&self, a: Axis, s: Slice) -> ArrayView<'_, S::Elem, D> {
        let (off, n, st) = self.cut_axis(a, s);
        let mut d = self.dim.dims().to_vec();
        let mut strides = self.strides.clone();
        d[a.0] = n;
        strides[a.0] = st;
        Self::vw(unsafe { self.ptr.offset(off) }, D::from_dims(&d).unwrap(), strides)
    }
    pub fn slice_axis_mut(&mut self, a: Axis, s: Slice) -> ArrayViewMut<'_, S::Elem, D>
    where
        S: DataMut,
    {
        let v = self.slice_axis(a, s);
        ArrayBase { data: ViewRepr(PhantomData), ptr: v.ptr, dim: v.dim.clone(), strides: v.strides.clone() }
    }
    pub fn slice_axis_inplace(&mut self, a: Axis, s: Slice) {
        let (off, n, st) = self.cut_axis(a, s);
        let mut d = self.dim.dims().to_vec();
        d[a.0] = n;
        self.dim = D::from_dims(&d).unwrap();
        self.strides[a.0] = st;
        self.ptr = unsafe { self.ptr.offset(off) };
    }
    pub fn invert_axis(&mut self, a: Axis) {
        self.slice_axis_inplace(a, Slice::new(0, None, -1));
    }
    pub fn slice<I: SliceArgs<D>>(&self, s: &SliceInfo<I>) -> ArrayView<'_, S::Elem, I::Out> {
        let (off, d, st) = s.0.cut(self.dim.dims(), &self.strides);
        ArrayBase { data: ViewRepr(PhantomData), ptr: unsafe { self.ptr.offset(off) }, dim: I::Out::from_dims(&d).unwrap(), strides: st }
    }
    pub fn slice_mut<I: SliceArgs<D>>(&mut self, s: &SliceInfo<I>) -> ArrayViewMut<'_, S::Elem, I::Out>
    where
        S: DataMut,
    {
        let (off, d, st) = s.0.cut(self.dim.dims(), &self.strides);
        ArrayBase { data: ViewRepr(PhantomData), ptr: unsafe { self.ptr.offset(off) }, dim: I::Out::from_dims(&d).unwrap(), strides: st }
    }
    pub fn index_axis(&self, a: Axis, i: usize) -> ArrayView<'_, S::Elem, D::Smaller>
    where
        D: RemoveAxis,
    {
        assert!(i < self.dim.dims()[a.0], "index {} is out of bounds for axis {} of length {}", i, a.0, self.dim.dims()[a.0]);
        let mut d = self.dim.dims().to_vec();
        let mut st = self.strides.clone();
        d.remove(a.0);
        let s = st.remove(a.0);
        ArrayBase { data: ViewRepr(PhantomData), ptr: unsafe { self.ptr.offset(i as isize * s) }, dim: D::Smaller::from_dims(&d).unwrap(), strides: st }
    }
    pub fn index_axis_mut(&mut self, a: Axis, i: usize) -> ArrayViewMut<'_, S::Elem, D::Smaller>
    where
        S: DataMut,
        D: RemoveAxis,
    {
        let v = self.index_axis(a, i);
        ArrayBase { data: ViewRepr(PhantomData), ptr: v.ptr, dim: v.dim.clone(), strides: v.strides.clone() }
    }
    pub fn subview(&self, a: Axis, i: usize) -> ArrayView<'_, S::Elem, D::Smaller>
    where
        D: RemoveAxis,
    {
        self.index_axis(a, i)
    }
    pub fn subview_mut(&mut self, a: Axis, i: usize) -> ArrayViewMut<'_, S::Elem, D::Smaller>
    where
        S: DataMut,
        D: RemoveAxis,
    {
        self.index_axis_mut(a, i)
    }
    pub fn axis_iter(&self, a: Axis) -> Subs<ArrayView<'_, S::Elem, D::Smaller>>
    where
        D: RemoveAxis,
    {
        Subs((0..self.len_of(a)).map(|i| self.index_axis(a, i)).collect::<Vec<_>>().into_iter())
    }
    pub fn axis_iter_mut<'a>(&'a mut self, a: Axis) -> Subs<ArrayViewMut<'a, S::Elem, D::Smaller>>
    where
        S: DataMut,
        D: RemoveAxis,
    {
        let n = self.len_of(a);
        let mut v: Vec<ArrayViewMut<'a, S::Elem, D::Smaller>> = vec![];
        for i in 0..n {
            let w = self.index_axis(a, i);
            v.push(ArrayBase { data: ViewRepr(PhantomData), ptr: w.ptr, dim: w.dim.clone(), strides: w.strides.clone() });
        }
        Subs(v.into_iter())
    }
    pub fn outer_iter(&self) -> Subs<ArrayView<'_, S::Elem, D::Smaller>>
    where
        D: RemoveAxis,
    {
        self.axis_iter(Axis(0))
    }
    pub fn outer_iter_mut(&mut self) -> Subs<ArrayViewMut<'_, S::Elem, D::Smaller>>
    where
        S: DataMut,
        D: RemoveAxis,
    {
        self.axis_iter_mut(Axis(0))
    }
    pub fn fill(&mut self, x: S::Elem)
    where
        S: DataMut,
        S::Elem: Clone,
    {
        for e in self.iter_mut() {
            *e = x.clone();
        }
    }
    fn zip_with<S2, E, B>(&mut self, o: &ArrayBase<S2, E>, mut f: impl FnMut(&mut S::Elem, &B))
    where
        S: DataMut,
        S2: Data<Elem = B>,
        E: Dimension,
    {
        let o = o.broadcast_or(self.dim.clone());
        for (a, b) in self.iter_mut().zip(o.iter()) {
            f(a, b);
        }
    }
    fn broadcast_or<E: Dimension>(&self, d: E) -> ArrayView<'_, S::Elem, E> {
        let to = Dim(d.dims().to_vec());
        match self.broadcast(to) {
            Some(v) => v.into_dimensionality().ok().unwrap(),
            None => panic!("ndarray: could not broadcast array from shape: {:?} to: {:?}", self.dim.dims(), d.dims()),
        }
    }
    pub fn assign<S2, E>(&mut self, o: &ArrayBase<S2, E>)
    where
        S: DataMut,
        S::Elem: Clone,
        S2: Data<Elem = S::Elem>,
        E: Dimension,
    {
        self.zip_with(o, |a, b| *a = b.clone());
    }
    pub fn scaled_add<S2, E>(&mut self, c: S::Elem, o: &ArrayBase<S2, E>)
    where
        S: DataMut,
        S2: Data<Elem = S::Elem>,
        S::Elem: Copy + Mul<Output = S::Elem> + Add<Output = S::Elem>,
        E: Dimension,
    {
        self.zip_with(o, |a, b| *a = *a + c * *b);
    }
    pub fn zip_mut_with<S2, E, B>(&mut self, o: &ArrayBase<S2, E>, f: impl FnMut(&mut S::Elem, &B))
    where
        S: DataMut,
        S2: Data<Elem = B>,
        E: Dimension,
    {
        self.zip_with(o, f);
    }
    pub fn map<'a, B>(&'a self, f: impl FnMut(&'a S::Elem) -> B) -> Array<B, D> {
        Array::from_parts(self.iter().map(f).collect(), self.dim.clone())
    }
    pub fn mapv<B>(&self, mut f: impl FnMut(S::Elem) -> B) -> Array<B, D>
    where
        S::Elem: Clone,
    {
        Array::from_parts(self.iter().map(|x| f(x.clone())).collect(), self.dim.clone())
    }
    pub fn map_inplace(&mut self, mut f: impl FnMut(&mut S::Elem))
    where
        S: DataMut,
    {
        for e in self.iter_mut() {
            f(e);
        }
    }
    pub fn mapv_inplace(&mut self, mut f: impl FnMut(S::Elem) -> S::Elem)
    where
        S: DataMut,
        S::Elem: Clone,
    {
        for e in self.iter_mut() {
            *e = f(e.clone());
        }
    }
    pub fn mapv_into(mut self, f: impl FnMut(S::Elem) -> S::Elem) -> Self
    where
        S: DataMut,
        S::Elem: Clone,
    {
        self.mapv_inplace(f);
        self
    }
    pub fn for_each(&self, f: impl FnMut(&S::Elem)) {
        self.iter().for_each(f)
    }
    pub fn visit(&self, f: impl FnMut(&S::Elem)) {
        self.iter().for_each(f)
    }
    pub fn fold<'a, B>(&'a self, init: B, f: impl FnMut(B, &'a S::Elem) -> B) -> B {
        self.iter().fold(init, f)
    }
    pub fn sum(&self) -> S::Elem
    where
        S::Elem: Clone + Add<Output = S::Elem> + Zero,
    {
        self.iter().fold(S::Elem::zero(), |a, b| a + b.clone())
    }
    pub fn product(&self) -> S::Elem
    where
        S::Elem: Clone + Mul<Output = S::Elem> + One,
    {
        self.iter().fold(S::Elem::one(), |a, b| a * b.clone())
    }
    pub fn scalar_sum(&self) -> S::Elem
    where
        S::Elem: Clone + Add<Output = S::Elem> + Zero,
    {
        self.sum()
    }
    pub fn sum_axis(&self, a: Axis) -> Array<S::Elem, D::Smaller>
    where
        S::Elem: Clone + Add<Output = S::Elem> + Zero,
        D: RemoveAxis,
    {
        let mut d = self.dim.dims().to_vec();
        d.remove(a.0);
        let mut r = Array::from_elem(Dim(d.clone()), S::Elem::zero()).into_dimensionality::<D::Smaller>().ok().unwrap();
        for v in self.axis_iter(a) {
            for (x, y) in r.iter_mut().zip(v.iter()) {
                *x = x.clone() + y.clone();
            }
        }
        r
    }
    pub fn fold_axis<B: Clone>(&self, a: Axis, init: B, mut f: impl FnMut(&B, &S::Elem) -> B) -> Array<B, D::Smaller>
    where
        D: RemoveAxis,
    {
        let mut d = self.dim.dims().to_vec();
        d.remove(a.0);
        let mut r = Array::from_elem(Dim(d.clone()), init).into_dimensionality::<D::Smaller>().ok().unwrap();
        for v in self.axis_iter(a) {
            for (x, y) in r.iter_mut().zip(v.iter()) {
                *x = f(x, y);
            }
        }
        r
    }
    pub fn all_close<S2, E>(&self, o: &ArrayBase<S2, E>, tol: S::Elem) -> bool
    where
        S::Elem: num_traits::Float,
        S2: Data<Elem = S::Elem>,
        E: Dimension,
    {
        let o = o.broadcast_or(self.dim.clone());
        self.iter().zip(o.iter()).all(|(a, b)| num_traits::Float::abs(*a - *b) <= tol)
    }
    pub fn into_shape<E: IntoDimension>(self, e: E) -> Result<ArrayBase<S, E::Dim>, ShapeError> {
        let e = e.into_dimension();
        if e.size() != self.len() || !self.contiguous() {
            return Err(ShapeError);
        }
        let st = c_strides(e.dims());
        Ok(ArrayBase { data: self.data, ptr: self.ptr, dim: e, strides: st })
    }
    pub fn insert_axis(self, a: Axis) -> ArrayBase<S, D::Larger> {
        let mut d = self.dim.dims().to_vec();
        let mut st = self.strides;
        d.insert(a.0, 1);
        st.insert(a.0, 1);
        ArrayBase { data: self.data, ptr: self.ptr, dim: D::Larger::from_dims(&d).unwrap(), strides: st }
    }
    pub fn first(&self) -> Option<&S::Elem> {
        self.iter().next()
    }
    pub fn swap<I: NdIndex<D>>(&mut self, i: I, j: I)
    where
        S: DataMut,
    {
        let a = i.offset(self.dim.dims(), &self.strides).expect("index out of bounds");
        let b = j.offset(self.dim.dims(), &self.strides).expect("index out of bounds");
        unsafe { std::ptr::swap(self.ptr.offset(a), self.ptr.offset(b)) }
    }
}
fn indices<D: Dimension>(d: &[usize]) -> Vec<D::Pattern> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    for n in d {
        let mut w = vec![];
        for p in &v {
            for k in 0..*n {
                let mut q = p.clone();
                q.push(k);
                w.push(q);
            }
        }
        v = w;
    }
    v.into_iter().map(|p| D::from_dims(&p).unwrap().into_pattern()).collect()
}
impl<S: DataOwned, D: Dimension> ArrayBase<S, D> {
    #[doc(hidden)]
    pub fn from_parts(v: Vec<S::Elem>, dim: D) -> ArrayBase<S, D> {
        assert_eq!(v.len(), dim.size());
        let strides = c_strides(dim.dims());
        let mut data = S::make(v);
        let ptr = data.base();
        ArrayBase { data, ptr, dim, strides }
    }
    pub fn from_elem<Sh: ShapeBuilder<Dim = D>>(sh: Sh, x: S::Elem) -> Self
    where
        S::Elem: Clone,
    {
        let d = sh.into_dimension();
        let n = d.size();
        Self::from_parts(vec![x; n], d)
    }
    pub fn zeros<Sh: ShapeBuilder<Dim = D>>(sh: Sh) -> Self
    where
        S::Elem: Clone + Zero,
    {
        Self::from_elem(sh, S::Elem::zero())
    }
    pub fn ones<Sh: ShapeBuilder<Dim = D>>(sh: Sh) -> Self
    where
        S::Elem: Clone + One,
    {
        Self::from_elem(sh, S::Elem::one())
    }
    pub fn default<Sh: ShapeBuilder<Dim = D>>(sh: Sh) -> Self
    where
        S::Elem: Clone + Default,
    {
        Self::from_elem(sh, S::Elem::default())
    }
    pub fn from_shape_fn<Sh: ShapeBuilder<Dim = D>>(sh: Sh, f: impl FnMut(D::Pattern) -> S::Elem) -> Self {
        let d = sh.into_dimension();
        let v = indices::<D>(d.dims()).into_iter().map(f).collect();
        Self::from_parts(v, d)
    }
    pub fn from_shape_vec<Sh: ShapeBuilder<Dim = D>>(sh: Sh, v: Vec<S::Elem>) -> Result<Self, ShapeError> {
        let d = sh.into_dimension();
        if d.size() != v.len() {
            return Err(ShapeError);
        }
        Ok(Self::from_parts(v, d))
    }
}
impl<S: DataOwned> ArrayBase<S, Ix1> {
    pub fn from_vec(v: Vec<S::Elem>) -> Self {
        let n = v.len();
        Self::from_parts(v, Dim([n]))
    }
    pub fn from_iter<I: IntoIterator<Item = S::Elem>>(it: I) -> Self {
        Self::from_vec(it.into_iter().collect())
    }
}
impl<S: DataOwned> ArrayBase<S, Ix2> {
    pub fn eye(n: usize) -> Self
    where
        S::Elem: Clone + Zero + One,
    {
        Self::from_shape_fn((n, n), |(i, j)| if i == j { S::Elem::one() } else { S::Elem::zero() })
    }
}
impl<A> std::iter::FromIterator<A> for Array<A, Ix1> {
    fn from_iter<I: IntoIterator<Item = A>>(it: I) -> Self {
        Self::from_vec(it.into_iter().collect())
    }
}
impl<A> From<Vec<A>> for Array<A, Ix1> {
    fn from(v: Vec<A>) -> Self {
        Self::from_vec(v)
    }
}
impl<A, const N: usize> From<[A; N]> for Array<A, Ix1> {
    fn from(v: [A; N]) -> Self {
        Self::from_vec(v.into())
    }
}
impl<A, const N: usize, const M: usize> From<[[A; M]; N]> for Array<A, Ix2> {
    fn from(v: [[A; M]; N]) -> Self {
        Self::from_parts(v.into_iter().flatten().collect(), Dim([N, M]))
    }
}
impl<'a, A> From<&'a [A]> for ArrayView<'a, A, Ix1> {
    fn from(v: &'a [A]) -> Self {
        ArrayBase { data: ViewRepr(PhantomData), ptr: v.as_ptr() as *mut A, dim: Dim([v.len()]), strides: vec![1] }
    }
}
impl<A> Array<A, Ix1> {
    pub fn into_raw_vec(self) -> Vec<A> {
        self.data.0
    }
}
pub fn arr1<A: Clone>(v: &[A]) -> Array1<A> {
    Array::from_vec(v.to_vec())
}
pub fn arr2<A: Clone, const M: usize>(v: &[[A; M]]) -> Array2<A> {
    Array::from_parts(v.iter().flatten().cloned().collect(), Dim([v.len(), M]))
}
pub fn aview1<A>(v: &[A]) -> ArrayView1<'_, A> {
    ArrayView::from(v)
}
impl<S: Data> ArrayBase<S, Ix2> {
    pub fn genrows(&self) -> Subs<ArrayView1<'_, S::Elem>> {
        self.axis_iter(Axis(0))
    }
    pub fn genrows_mut(&mut self) -> Subs<ArrayViewMut1<'_, S::Elem>>
    where
        S: DataMut,
    {
        self.axis_iter_mut(Axis(0))
    }
    pub fn rows(&self) -> Subs<ArrayView1<'_, S::Elem>> {
        self.axis_iter(Axis(0))
    }
    pub fn rows_mut(&mut self) -> Subs<ArrayViewMut1<'_, S::Elem>>
    where
        S: DataMut,
    {
        self.axis_iter_mut(Axis(0))
    }
    pub fn gencolumns(&self) -> Subs<ArrayView1<'_, S::Elem>> {
        self.axis_iter(Axis(1))
    }
    pub fn gencolumns_mut(&mut self) -> Subs<ArrayViewMut1<'_, S::Elem>>
    where
        S: DataMut,
    {
        self.axis_iter_mut(Axis(1))
    }
    pub fn columns(&self) -> Subs<ArrayView1<'_, S::Elem>> {
        self.axis_iter(Axis(1))
    }
    pub fn lanes(&self, a: Axis) -> Subs<ArrayView1<'_, S::Elem>> {
        self.axis_iter(Axis(1 - a.0))
    }
    pub fn lanes_mut(&mut self, a: Axis) -> Subs<ArrayViewMut1<'_, S::Elem>>
    where
        S: DataMut,
    {
        self.axis_iter_mut(Axis(1 - a.0))
    }
    pub fn row(&self, i: usize) -> ArrayView1<'_, S::Elem> {
        self.index_axis(Axis(0), i)
    }
    pub fn row_mut(&mut self, i: usize) -> ArrayViewMut1<'_, S::Elem>
    where
        S: DataMut,
    {
        self.index_axis_mut(Axis(0), i)
    }
    pub fn column(&self, i: usize) -> ArrayView1<'_, S::Elem> {
        self.index_axis(Axis(1), i)
    }
    pub fn column_mut(&mut self, i: usize) -> ArrayViewMut1<'_, S::Elem>
    where
        S: DataMut,
    {
        self.index_axis_mut(Axis(1), i)
    }
    pub fn rows_count(&self) -> usize {
        self.dim.0[0]
    }
    pub fn nrows(&self) -> usize {
        self.dim.0[0]
    }
    pub fn ncols(&self) -> usize {
        self.dim.0[1]
    }
    pub fn cols(&self) -> usize {
        self.dim.0[1]
    }
    pub fn is_square(&self) -> bool {
        self.dim.0[0] == self.dim.0[1]
    }
    pub fn diag(&self) -> ArrayView1<'_, S::Elem> {
        let n = self.dim.0[0].min(self.dim.0[1]);
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: Dim([n]), strides: vec![self.strides[0] + self.strides[1]] }
    }
}
impl<'a, A, D: Dimension> ArrayView<'a, A, D> {
    pub fn reborrow<'b>(self) -> ArrayView<'b, A, D>
    where
        'a: 'b,
    {
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: self.dim, strides: self.strides }
    }
    pub fn split_at(self, a: Axis, i: usize) -> (ArrayView<'a, A, D>, ArrayView<'a, A, D>) {
        let n = self.dim.dims()[a.0];
        let f = |r: Range<usize>| {
            let v = self.slice_axis(a, Slice::from(r));
            ArrayBase { data: ViewRepr(PhantomData), ptr: v.ptr, dim: v.dim.clone(), strides: v.strides.clone() }
        };
        (f(0..i), f(i..n))
    }
}
impl<'a, A, D: Dimension> ArrayViewMut<'a, A, D> {
    pub fn reborrow<'b>(self) -> ArrayViewMut<'b, A, D>
    where
        'a: 'b,
    {
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: self.dim, strides: self.strides }
    }
    pub fn split_at(self, a: Axis, i: usize) -> (ArrayViewMut<'a, A, D>, ArrayViewMut<'a, A, D>) {
        let n = self.dim.dims()[a.0];
        let f = |r: Range<usize>| {
            let v = self.slice_axis(a, Slice::from(r));
            ArrayBase { data: ViewRepr(PhantomData), ptr: v.ptr, dim: v.dim.clone(), strides: v.strides.clone() }
        };
        (f(0..i), f(i..n))
    }
}
impl<S: DataClone, D: Dimension> Clone for ArrayBase<S, D>
where
    S::Elem: Clone,
{
    fn clone(&self) -> Self {
        S::clone_arr(self)
    }
}
impl<'a, A: Clone, D: Dimension + Copy> ArrayView<'a, A, D> {
    pub fn cloned_view(&self) -> ArrayView<'a, A, D> {
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: self.dim, strides: self.strides.clone() }
    }
}
impl<S: DataOwned, D: Dimension> Default for ArrayBase<S, D> {
    fn default() -> Self {
        let n = D::NDIM.unwrap_or(1);
        Self::from_parts(vec![], D::from_dims(&vec![0; n]).unwrap())
    }
}
fn show<A>(
    f: &mut fmt::Formatter,
    d: &[usize],
    s: &[isize],
    p: *mut A,
    g: &mut dyn FnMut(&A, &mut fmt::Formatter) -> fmt::Result,
) -> fmt::Result {
    if d.is_empty() {
        return g(unsafe { &*p }, f);
    }
    f.write_str("[")?;
    for i in 0..d[0] {
        if i > 0 {
            f.write_str(", ")?;
        }
        show(f, &d[1..], &s[1..], unsafe { p.offset(i as isize * s[0]) }, g)?;
    }
    f.write_str("]")
}
macro_rules! fmts {
    ($($t:ident)*) => {$(
        impl<S: Data, D: Dimension> fmt::$t for ArrayBase<S, D> where S::Elem: fmt::$t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                show(f, self.dim.dims(), &self.strides, self.ptr, &mut |a, f| fmt::$t::fmt(a, f))
            }
        }
    )*};
}
fmts! { Debug Display LowerExp UpperExp }
impl<S: Data, S2: Data, D: Dimension> PartialEq<ArrayBase<S2, D>> for ArrayBase<S, D>
where
    S::Elem: PartialEq<S2::Elem>,
{
    fn eq(&self, o: &ArrayBase<S2, D>) -> bool {
        self.dim == o.dim && self.iter().zip(o.iter()).all(|(a, b)| a == b)
    }
}

// ---- iteration ----
pub struct Iter<'a, A> {
    ptr: *mut A,
    offs: std::vec::IntoIter<isize>,
    l: PhantomData<&'a A>,
}
impl<'a, A> Iterator for Iter<'a, A> {
    type Item = &'a A;
    fn next(&mut self) -> Option<&'a A> {
        self.offs.next().map(|o| unsafe { &*self.ptr.offset(o) })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.offs.size_hint()
    }
}
impl<'a, A> ExactSizeIterator for Iter<'a, A> {}
impl<'a, A> DoubleEndedIterator for Iter<'a, A> {
    fn next_back(&mut self) -> Option<&'a A> {
        self.offs.next_back().map(|o| unsafe { &*self.ptr.offset(o) })
    }
}
impl<'a, A> Clone for Iter<'a, A> {
    fn clone(&self) -> Self {
        Iter { ptr: self.ptr, offs: self.offs.clone(), l: PhantomData }
    }
}
pub struct IterMut<'a, A> {
    ptr: *mut A,
    offs: std::vec::IntoIter<isize>,
    l: PhantomData<&'a mut A>,
}
impl<'a, A> Iterator for IterMut<'a, A> {
    type Item = &'a mut A;
    fn next(&mut self) -> Option<&'a mut A> {
        self.offs.next().map(|o| unsafe { &mut *self.ptr.offset(o) })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.offs.size_hint()
    }
}
impl<'a, A> ExactSizeIterator for IterMut<'a, A> {}
impl<'a, A> DoubleEndedIterator for IterMut<'a, A> {
    fn next_back(&mut self) -> Option<&'a mut A> {
        self.offs.next_back().map(|o| unsafe { &mut *self.ptr.offset(o) })
    }
}
impl<'a, S: Data, D: Dimension> IntoIterator for &'a ArrayBase<S, D> {
    type Item = &'a S::Elem;
    type IntoIter = Iter<'a, S::Elem>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, S: DataMut, D: Dimension> IntoIterator for &'a mut ArrayBase<S, D> {
    type Item = &'a mut S::Elem;
    type IntoIter = IterMut<'a, S::Elem>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}
impl<'a, A, D: Dimension> IntoIterator for ArrayView<'a, A, D> {
    type Item = &'a A;
    type IntoIter = Iter<'a, A>;
    fn into_iter(self) -> Iter<'a, A> {
        Iter { ptr: self.ptr, offs: self.offs().into_iter(), l: PhantomData }
    }
}
impl<'a, A, D: Dimension> IntoIterator for ArrayViewMut<'a, A, D> {
    type Item = &'a mut A;
    type IntoIter = IterMut<'a, A>;
    fn into_iter(self) -> IterMut<'a, A> {
        IterMut { ptr: self.ptr, offs: self.offs().into_iter(), l: PhantomData }
    }
}
/// rows, columns, lanes: an iterator and a producer for `Zip`
pub struct Subs<V>(std::vec::IntoIter<V>);
impl<V> Iterator for Subs<V> {
    type Item = V;
    fn next(&mut self) -> Option<V> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<V> DoubleEndedIterator for Subs<V> {
    fn next_back(&mut self) -> Option<V> {
        self.0.next_back()
    }
}
impl<V> ExactSizeIterator for Subs<V> {}

// ---- indexing ----
pub trait NdIndex<D> {
    fn offset(&self, d: &[usize], s: &[isize]) -> Option<isize>;
}
impl NdIndex<Ix1> for usize {
    fn offset(&self, d: &[usize], s: &[isize]) -> Option<isize> {
        (*self < d[0]).then(|| *self as isize * s[0])
    }
}
impl NdIndex<Ix1> for [usize; 1] {
    fn offset(&self, d: &[usize], s: &[isize]) -> Option<isize> {
        self[0].offset(d, s)
    }
}
impl NdIndex<Ix1> for Ix1 {
    fn offset(&self, d: &[usize], s: &[isize]) -> Option<isize> {
        self.0[0].offset(d, s)
    }
}
impl NdIndex<Ix2> for [usize; 2] {
    fn offset(&self, d: &[usize], s: &[isize]) -> Option<isize> {
        (self[0] < d[0] && self[1] < d[1]).then(|| self[0] as isize * s[0] + self[1] as isize * s[1])
    }
}
impl NdIndex<Ix2> for (usize, usize) {
    fn offset(&self, d: &[usize], s: &[isize]) -> Option<isize> {
        [self.0, self.1].offset(d, s)
    }
}
impl NdIndex<Ix2> for Ix2 {
    fn offset(&self, d: &[usize], s: &[isize]) -> Option<isize> {
        self.0.offset(d, s)
    }
}
impl<S: Data, D: Dimension, I: NdIndex<D>> Index<I> for ArrayBase<S, D> {
    type Output = S::Elem;
    fn index(&self, i: I) -> &S::Elem {
        match i.offset(self.dim.dims(), &self.strides) {
            Some(o) => unsafe { &*self.ptr.offset(o) },
            None => panic!("ndarray: index out of bounds"),
        }
    }
}
impl<S: DataMut, D: Dimension, I: NdIndex<D>> IndexMut<I> for ArrayBase<S, D> {
    fn index_mut(&mut self, i: I) -> &mut S::Elem {
        match i.offset(self.dim.dims(), &self.strides) {
            Some(o) => unsafe { &mut *self.ptr.offset(o) },
            None => panic!("ndarray: index out of bounds"),
        }
    }
}

// ---- slicing ----
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Slice {
    pub start: isize,
    pub end: Option<isize>,
    pub step: isize,
}
impl Slice {
    pub fn new(start: isize, end: Option<isize>, step: isize) -> Slice {
        Slice { start, end, step }
    }
    pub fn step_by(self, step: isize) -> Slice {
        Slice { start: self.start, end: self.end, step: self.step * step }
    }
    fn resolve(self, n: usize, stride: isize) -> (isize, usize, isize) {
        let fix = |i: isize| if i < 0 { i + n as isize } else { i };
        let (s, e) = (fix(self.start), fix(self.end.unwrap_or(n as isize)));
        assert!(s >= 0 && s as usize <= n, "ndarray: slice begin {} is past end of axis of length {}", s, n);
        assert!(e >= 0 && e as usize <= n, "ndarray: slice end {} is past end of axis of length {}", e, n);
        assert!(self.step != 0, "ndarray: slice step size must be nonzero");
        let m = if e > s { (e - s) as usize } else { 0 };
        let a = self.step.unsigned_abs();
        let len = m.div_ceil(a);
        let off = if m == 0 {
            0
        } else if self.step < 0 {
            (e - 1) * stride
        } else {
            s * stride
        };
        (off, len, stride * self.step)
    }
}
macro_rules! slices {
    ($($t:ty)*) => {$(
        impl From<Range<$t>> for Slice { fn from(r: Range<$t>) -> Slice { Slice::new(r.start as isize, Some(r.end as isize), 1) } }
        impl From<RangeInclusive<$t>> for Slice { fn from(r: RangeInclusive<$t>) -> Slice {
            let e = *r.end() as isize + 1;
            Slice::new(*r.start() as isize, if e == 0 { None } else { Some(e) }, 1) } }
        impl From<RangeFrom<$t>> for Slice { fn from(r: RangeFrom<$t>) -> Slice { Slice::new(r.start as isize, None, 1) } }
        impl From<RangeTo<$t>> for Slice { fn from(r: RangeTo<$t>) -> Slice { Slice::new(0, Some(r.end as isize), 1) } }
        impl From<RangeToInclusive<$t>> for Slice { fn from(r: RangeToInclusive<$t>) -> Slice {
            let e = r.end as isize + 1;
            Slice::new(0, if e == 0 { None } else { Some(e) }, 1) } }
        impl IntoSliceArg for Range<$t> { type Out = Slice; fn arg(self) -> Slice { self.into() } }
        impl IntoSliceArg for RangeInclusive<$t> { type Out = Slice; fn arg(self) -> Slice { self.into() } }
        impl IntoSliceArg for RangeFrom<$t> { type Out = Slice; fn arg(self) -> Slice { self.into() } }
        impl IntoSliceArg for RangeTo<$t> { type Out = Slice; fn arg(self) -> Slice { self.into() } }
        impl IntoSliceArg for RangeToInclusive<$t> { type Out = Slice; fn arg(self) -> Slice { self.into() } }
        impl IntoSliceArg for $t { type Out = At; fn arg(self) -> At { At(self as isize) } }
    )*};
}
impl From<RangeFull> for Slice {
    fn from(_: RangeFull) -> Slice {
        Slice::new(0, None, 1)
    }
}
#[derive(Clone, Copy)]
pub struct At(pub isize);
pub trait IntoSliceArg {
    type Out;
    fn arg(self) -> Self::Out;
}
impl IntoSliceArg for RangeFull {
    type Out = Slice;
    fn arg(self) -> Slice {
        self.into()
    }
}
impl IntoSliceArg for Slice {
    type Out = Slice;
    fn arg(self) -> Slice {
        self
    }
}
slices! { usize isize i32 }
pub struct SliceInfo<I>(pub I);
pub trait SliceArgs<D> {
    type Out: Dimension;
    fn cut(&self, d: &[usize], s: &[isize]) -> (isize, Vec<usize>, Vec<isize>);
}
fn at(i: isize, n: usize, st: isize) -> isize {
    let k = if i < 0 { i + n as isize } else { i };
    assert!(k >= 0 && (k as usize) < n, "ndarray: index {} is out of bounds of axis of length {}", i, n);
    k * st
}
impl SliceArgs<Ix1> for (Slice,) {
    type Out = Ix1;
    fn cut(&self, d: &[usize], s: &[isize]) -> (isize, Vec<usize>, Vec<isize>) {
        let (o, n, st) = self.0.resolve(d[0], s[0]);
        (o, vec![n], vec![st])
    }
}
impl SliceArgs<Ix1> for (At,) {
    type Out = Ix0;
    fn cut(&self, d: &[usize], s: &[isize]) -> (isize, Vec<usize>, Vec<isize>) {
        (at(self.0 .0, d[0], s[0]), vec![], vec![])
    }
}
impl SliceArgs<Ix2> for (Slice, Slice) {
    type Out = Ix2;
    fn cut(&self, d: &[usize], s: &[isize]) -> (isize, Vec<usize>, Vec<isize>) {
        let (o, n, st) = self.0.resolve(d[0], s[0]);
        let (p, m, tt) = self.1.resolve(d[1], s[1]);
        (o + p, vec![n, m], vec![st, tt])
    }
}
impl SliceArgs<Ix2> for (At, Slice) {
    type Out = Ix1;
    fn cut(&self, d: &[usize], s: &[isize]) -> (isize, Vec<usize>, Vec<isize>) {
        let (p, m, tt) = self.1.resolve(d[1], s[1]);
        (at(self.0 .0, d[0], s[0]) + p, vec![m], vec![tt])
    }
}
impl SliceArgs<Ix2> for (Slice, At) {
    type Out = Ix1;
    fn cut(&self, d: &[usize], s: &[isize]) -> (isize, Vec<usize>, Vec<isize>) {
        let (o, n, st) = self.0.resolve(d[0], s[0]);
        (o + at(self.1 .0, d[1], s[1]), vec![n], vec![st])
    }
}
impl SliceArgs<Ix2> for (At, At) {
    type Out = Ix0;
    fn cut(&self, d: &[usize], s: &[isize]) -> (isize, Vec<usize>, Vec<isize>) {
        (at(self.0 .0, d[0], s[0]) + at(self.1 .0, d[1], s[1]), vec![], vec![])
    }
}
#[macro_export]
macro_rules! s {
    (@p [$($o:tt)*] $r:expr; $t:expr) => { &$crate::SliceInfo(($($o)* $crate::IntoSliceArg::arg($r).step_by($t),)) };
    (@p [$($o:tt)*] $r:expr; $t:expr, $($rest:tt)*) => { $crate::s!(@p [$($o)* $crate::IntoSliceArg::arg($r).step_by($t),] $($rest)*) };
    (@p [$($o:tt)*] $r:expr) => { &$crate::SliceInfo(($($o)* $crate::IntoSliceArg::arg($r),)) };
    (@p [$($o:tt)*] $r:expr, $($rest:tt)+) => { $crate::s!(@p [$($o)* $crate::IntoSliceArg::arg($r),] $($rest)+) };
    (@p [$($o:tt)*] $r:expr,) => { &$crate::SliceInfo(($($o)* $crate::IntoSliceArg::arg($r),)) };
    ($($t:tt)*) => { $crate::s!(@p [] $($t)*) };
}
#[macro_export]
macro_rules! array {
    ($([$($x:expr),* $(,)?]),+ $(,)?) => { $crate::Array2::from([$([$($x,)*],)*]) };
    ($($x:expr),* $(,)?) => { $crate::Array1::from(vec![$($x,)*]) };
}

// ---- arithmetic ----
pub trait ScalarOperand: 'static + Clone {}
macro_rules! scalar_operand { ($($t:ty)*) => { $( impl ScalarOperand for $t {} )* } }
scalar_operand! { bool i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize f32 f64 symx::Sym }
pub trait LinalgScalar: 'static + Copy + Zero + One + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> {}
impl<T> LinalgScalar for T where T: 'static + Copy + Zero + One + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Div<Output = T> {}
macro_rules! binop {
    ($($tr:ident $f:ident $atr:ident $af:ident)*) => {$(
        impl<A, B, S, S2, D, E> $tr<ArrayBase<S2, E>> for ArrayBase<S, D>
        where A: Clone + $tr<B, Output = A>, B: Clone, S: DataOwned<Elem = A> + DataMut, S2: Data<Elem = B>, D: Dimension, E: Dimension {
            type Output = ArrayBase<S, D>;
            fn $f(self, o: ArrayBase<S2, E>) -> ArrayBase<S, D> { self.$f(&o) }
        }
        impl<'a, A, B, S, S2, D, E> $tr<&'a ArrayBase<S2, E>> for ArrayBase<S, D>
        where A: Clone + $tr<B, Output = A>, B: Clone, S: DataOwned<Elem = A> + DataMut, S2: Data<Elem = B>, D: Dimension, E: Dimension {
            type Output = ArrayBase<S, D>;
            fn $f(mut self, o: &ArrayBase<S2, E>) -> ArrayBase<S, D> {
                self.zip_with(o, |x, y| *x = x.clone().$f(y.clone()));
                self
            }
        }
        impl<'a, 'b, A, B, S, S2, D, E> $tr<&'a ArrayBase<S2, E>> for &'b ArrayBase<S, D>
        where A: Clone + $tr<B, Output = A>, B: Clone, S: Data<Elem = A>, S2: Data<Elem = B>, D: Dimension, E: Dimension {
            type Output = Array<A, D>;
            fn $f(self, o: &ArrayBase<S2, E>) -> Array<A, D> { self.to_owned().$f(o) }
        }
        impl<A, B, S, D> $tr<B> for ArrayBase<S, D>
        where A: Clone + $tr<B, Output = A>, B: ScalarOperand, S: DataOwned<Elem = A> + DataMut, D: Dimension {
            type Output = ArrayBase<S, D>;
            fn $f(mut self, o: B) -> ArrayBase<S, D> {
                for x in self.iter_mut() { *x = x.clone().$f(o.clone()); }
                self
            }
        }
        impl<'b, A, B, S, D> $tr<B> for &'b ArrayBase<S, D>
        where A: Clone + $tr<B, Output = A>, B: ScalarOperand, S: Data<Elem = A>, D: Dimension {
            type Output = Array<A, D>;
            fn $f(self, o: B) -> Array<A, D> { self.to_owned().$f(o) }
        }
        impl<'a, A, S, S2, D, E> $atr<&'a ArrayBase<S2, E>> for ArrayBase<S, D>
        where A: Clone + $atr<A>, S: DataMut<Elem = A>, S2: Data<Elem = A>, D: Dimension, E: Dimension {
            fn $af(&mut self, o: &ArrayBase<S2, E>) { self.zip_with(o, |x, y| x.$af(y.clone())); }
        }
        impl<A, S, D> $atr<A> for ArrayBase<S, D>
        where A: ScalarOperand + $atr<A>, S: DataMut<Elem = A>, D: Dimension {
            fn $af(&mut self, o: A) { for x in self.iter_mut() { x.$af(o.clone()); } }
        }
        scalar_lhs! { $tr $f f64 } scalar_lhs! { $tr $f symx::Sym }
    )*};
}
macro_rules! scalar_lhs {
    ($tr:ident $f:ident $t:ty) => {
        impl<S, D> $tr<ArrayBase<S, D>> for $t where S: DataOwned<Elem = $t> + DataMut, D: Dimension {
            type Output = ArrayBase<S, D>;
            fn $f(self, mut o: ArrayBase<S, D>) -> ArrayBase<S, D> {
                for x in o.iter_mut() { *x = self.clone().$f(x.clone()); }
                o
            }
        }
        impl<'a, S, D> $tr<&'a ArrayBase<S, D>> for $t where S: Data<Elem = $t>, D: Dimension {
            type Output = Array<$t, D>;
            fn $f(self, o: &ArrayBase<S, D>) -> Array<$t, D> { self.$f(o.to_owned()) }
        }
    };
}
binop! { Add add AddAssign add_assign  Sub sub SubAssign sub_assign  Mul mul MulAssign mul_assign  Div div DivAssign div_assign  Rem rem RemAssign rem_assign }
impl<A, S, D> Neg for ArrayBase<S, D>
where
    A: Clone + Neg<Output = A>,
    S: DataOwned<Elem = A> + DataMut,
    D: Dimension,
{
    type Output = Self;
    fn neg(mut self) -> Self {
        for x in self.iter_mut() {
            *x = -x.clone();
        }
        self
    }
}
impl<'a, A, S, D> Neg for &'a ArrayBase<S, D>
where
    A: Clone + Neg<Output = A>,
    S: Data<Elem = A>,
    D: Dimension,
{
    type Output = Array<A, D>;
    fn neg(self) -> Array<A, D> {
        -self.to_owned()
    }
}
pub mod linalg {
    use super::*;
    pub trait Dot<Rhs> {
        type Output;
        fn dot(&self, o: &Rhs) -> Self::Output;
    }
    impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix1>> for ArrayBase<S, Ix1> {
        type Output = A;
        fn dot(&self, o: &ArrayBase<S2, Ix1>) -> A {
            assert_eq!(self.len(), o.len());
            self.iter().zip(o.iter()).fold(A::zero(), |s, (a, b)| s + *a * *b)
        }
    }
    impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix1>> for ArrayBase<S, Ix2> {
        type Output = Array<A, Ix1>;
        fn dot(&self, o: &ArrayBase<S2, Ix1>) -> Array<A, Ix1> {
            self.genrows().map(|r| r.dot(o)).collect()
        }
    }
    impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix2>> for ArrayBase<S, Ix1> {
        type Output = Array<A, Ix1>;
        fn dot(&self, o: &ArrayBase<S2, Ix2>) -> Array<A, Ix1> {
            o.gencolumns().map(|c| self.dot(&c)).collect()
        }
    }
}
impl<S: Data> ArrayBase<S, Ix1> {
    pub fn dot<R>(&self, o: &R) -> <Self as linalg::Dot<R>>::Output
    where
        Self: linalg::Dot<R>,
    {
        linalg::Dot::dot(self, o)
    }
}
impl<S: Data> ArrayBase<S, Ix2> {
    pub fn dot<R>(&self, o: &R) -> <Self as linalg::Dot<R>>::Output
    where
        Self: linalg::Dot<R>,
    {
        linalg::Dot::dot(self, o)
    }
}

// ---- Zip ----
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum FoldWhile<T> {
    Continue(T),
    Done(T),
}
impl<T> FoldWhile<T> {
    pub fn into_inner(self) -> T {
        match self {
            FoldWhile::Continue(x) | FoldWhile::Done(x) => x,
        }
    }
    pub fn is_done(&self) -> bool {
        matches!(self, FoldWhile::Done(_))
    }
}
pub trait IntoNdProducer {
    type Item;
    type Dim: Dimension;
    fn produce(self) -> (Self::Dim, Vec<Self::Item>);
}
impl<'a, S: Data, D: Dimension> IntoNdProducer for &'a ArrayBase<S, D> {
    type Item = &'a S::Elem;
    type Dim = D;
    fn produce(self) -> (D, Vec<&'a S::Elem>) {
        (self.dim.clone(), self.iter().collect())
    }
}
impl<'a, S: DataMut, D: Dimension> IntoNdProducer for &'a mut ArrayBase<S, D> {
    type Item = &'a mut S::Elem;
    type Dim = D;
    fn produce(self) -> (D, Vec<&'a mut S::Elem>) {
        (self.dim.clone(), self.iter_mut().collect())
    }
}
impl<'a, A, D: Dimension> IntoNdProducer for ArrayView<'a, A, D> {
    type Item = &'a A;
    type Dim = D;
    fn produce(self) -> (D, Vec<&'a A>) {
        (self.dim.clone(), self.into_iter().collect())
    }
}
impl<'a, A, D: Dimension> IntoNdProducer for ArrayViewMut<'a, A, D> {
    type Item = &'a mut A;
    type Dim = D;
    fn produce(self) -> (D, Vec<&'a mut A>) {
        (self.dim.clone(), self.into_iter().collect())
    }
}
impl<V> IntoNdProducer for Subs<V> {
    type Item = V;
    type Dim = Ix1;
    fn produce(self) -> (Ix1, Vec<V>) {
        let v: Vec<V> = self.collect();
        (Dim([v.len()]), v)
    }
}
impl<'a, A> IntoNdProducer for &'a Vec<A> {
    type Item = &'a A;
    type Dim = Ix1;
    fn produce(self) -> (Ix1, Vec<&'a A>) {
        (Dim([self.len()]), self.iter().collect())
    }
}
impl<'a, A> IntoNdProducer for &'a [A] {
    type Item = &'a A;
    type Dim = Ix1;
    fn produce(self) -> (Ix1, Vec<&'a A>) {
        (Dim([self.len()]), self.iter().collect())
    }
}
pub struct Zip<P, D> {
    parts: P,
    dim: D,
}
impl<A, D: Dimension> Zip<(Vec<A>,), D> {
    pub fn from<P: IntoNdProducer<Item = A, Dim = D>>(p: P) -> Self {
        let (dim, v) = p.produce();
        Zip { parts: (v,), dim }
    }
}
impl<A, D: Dimension> Zip<(Vec<D::Pattern>, Vec<A>), D> {
    pub fn indexed<P: IntoNdProducer<Item = A, Dim = D>>(p: P) -> Self {
        let (dim, v) = p.produce();
        Zip { parts: (indices::<D>(dim.dims()), v), dim }
    }
}
macro_rules! zips {
    ($(($($t:ident $i:tt),*);)*) => {$(
        #[allow(non_snake_case)]
        impl<D: Dimension, $($t),*> Zip<($(Vec<$t>,)*), D> {
            pub fn and<P: IntoNdProducer<Dim = D>>(self, p: P) -> Zip<($(Vec<$t>,)* Vec<P::Item>,), D> {
                let (d, v) = p.produce();
                assert!(d == self.dim, "ndarray: Zip: shapes {:?} and {:?} differ", self.dim, d);
                Zip { parts: ($(self.parts.$i,)* v,), dim: self.dim }
            }
            pub fn size(&self) -> usize { self.dim.size() }
            pub fn apply(self, mut f: impl FnMut($($t),*)) {
                let n = self.dim.size();
                let ($(mut $t,)*) = ($(self.parts.$i.into_iter(),)*);
                for _ in 0..n { f($($t.next().unwrap()),*) }
            }
            pub fn for_each(self, f: impl FnMut($($t),*)) { self.apply(f) }
            pub fn fold<Acc>(self, init: Acc, mut f: impl FnMut(Acc, $($t),*) -> Acc) -> Acc {
                let n = self.dim.size();
                let ($(mut $t,)*) = ($(self.parts.$i.into_iter(),)*);
                let mut acc = init;
                for _ in 0..n { acc = f(acc, $($t.next().unwrap()),*) }
                acc
            }
            pub fn fold_while<Acc>(self, init: Acc, mut f: impl FnMut(Acc, $($t),*) -> FoldWhile<Acc>) -> FoldWhile<Acc> {
                let n = self.dim.size();
                let ($(mut $t,)*) = ($(self.parts.$i.into_iter(),)*);
                let mut acc = init;
                for _ in 0..n {
                    match f(acc, $($t.next().unwrap()),*) {
                        FoldWhile::Continue(a) => acc = a,
                        done => return done,
                    }
                }
                FoldWhile::Continue(acc)
            }
            pub fn all(self, mut f: impl FnMut($($t),*) -> bool) -> bool {
                let n = self.dim.size();
                let ($(mut $t,)*) = ($(self.parts.$i.into_iter(),)*);
                for _ in 0..n { if !f($($t.next().unwrap()),*) { return false } }
                true
            }
            pub fn any(self, mut f: impl FnMut($($t),*) -> bool) -> bool {
                !self.all(|$($t),*| !f($($t),*))
            }
            pub fn map_collect<R>(self, mut f: impl FnMut($($t),*) -> R) -> Array<R, D> {
                let n = self.dim.size();
                let d = self.dim.clone();
                let ($(mut $t,)*) = ($(self.parts.$i.into_iter(),)*);
                let mut v = Vec::with_capacity(n);
                for _ in 0..n { v.push(f($($t.next().unwrap()),*)) }
                Array::from_parts(v, d)
            }
            pub fn apply_collect<R>(self, f: impl FnMut($($t),*) -> R) -> Array<R, D> { self.map_collect(f) }
        }
    )*};
}
zips! {
    (A0 0);
    (A0 0, A1 1);
    (A0 0, A1 1, A2 2);
    (A0 0, A1 1, A2 2, A3 3);
    (A0 0, A1 1, A2 2, A3 3, A4 4);
    (A0 0, A1 1, A2 2, A3 3, A4 4, A5 5);
}
#[macro_export]
macro_rules! azip {
    (mut $a:ident ($e:expr) $(, $b:ident ($f:expr))* in { $($body:tt)* }) => {
        $crate::Zip::from(&mut $e)$(.and(&$f))*.apply(|$a $(, &$b)*| { $($body)* })
    };
}
pub mod prelude {
    #[doc(no_inline)]
    pub use crate::{arr1, arr2, array, aview1, s, Array, Array1, Array2, ArrayBase, ArrayD, ArrayView, ArrayView1, ArrayView2, ArrayViewMut, ArrayViewMut1, ArrayViewMut2, Axis, Dim, Dimension, Ix1, Ix2, IxDyn, ShapeBuilder};
}
