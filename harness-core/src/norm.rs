//! C14, C15: the weighted RMS norm (crates/nonlinear/src/norm_wrms.rs).
use nalgebra::{DMatrix, DVector, SMatrix, SVector};
use nonlinear::norm_wrms::NormWRMS;
use symx::{h, Harness, Sc, C};

fn sumsq<S: Sc>(x: &[S], w: &[S]) -> S {
    let mut s = S::num(0.0);
    for (a, b) in x.iter().zip(w) {
        let p = *a * *b;
        s = s + p * p;
    }
    s
}
fn formula<S: Sc>(nrm: S, x: &[S], w: &[S]) {
    S::observe("norm", nrm);
    S::check("the norm is not negative", C::Le(S::num(0.0), nrm));
    S::check("n norm^2 is the sum of the squared products", C::Eq(nrm * nrm * S::num(x.len() as f64), sumsq(x, w)));
}
/// any length, heap vectors
fn c14_dyn<S: Sc>(n: usize) {
    let (x, w) = (S::vars("x", n), S::vars("w", n));
    let nrm = DVector::from_vec(x.clone()).norm_wrms(&DVector::from_vec(w.clone()));
    formula(nrm, &x, &w);
}
/// longer vectors: one entry and its weight are any numbers, at any place, the rest is fixed
fn c14_long<S: Sc>(n: usize) {
    let p = S::choose("place", n);
    let fixed = |i: usize, k: usize| S::num(((i * (2 * k + 3) + k) % 7) as f64 * 0.5 - 1.25);
    let at = |k: usize| -> Vec<S> { (0..n).map(|i| if i == p { S::var(if k == 0 { "x" } else { "w" }) } else { fixed(i, k) }).collect() };
    let (x, w) = (at(0), at(1));
    let nrm = DVector::from_vec(x.clone()).norm_wrms(&DVector::from_vec(w.clone()));
    formula(nrm, &x, &w);
}
fn c14_static<S: Sc, const N: usize>() {
    let (x, w) = (S::vars("x", N), S::vars("w", N));
    let (xv, wv): (SVector<S, N>, SVector<S, N>) = (SVector::from_fn(|i, _| x[i]), SVector::from_fn(|i, _| w[i]));
    formula(xv.norm_wrms(&wv), &x, &w);
    S::check("arguments are unchanged", C::eqs(xv.as_slice(), &x).and(C::eqs(wv.as_slice(), &w)));
}
/// strided and mixed storage
fn c14_views<S: Sc, const N: usize>() {
    let (x, w) = (S::vars("x", N), S::vars("w", N));
    let big: SMatrix<S, 6, 6> = SMatrix::from_fn(|i, j| if i >= 1 && i <= N && j == 2 { x[i - 1] } else { S::var(&format!("g{i}{j}")) });
    let wide = DMatrix::from_fn(3, N, |i, j| if i == 1 { w[j] } else { S::var(&format!("k{i}{j}")) });
    let xv = big.fixed_view::<N, 1>(1, 2);
    let wt = wide.transpose();
    let wv = wt.fixed_view::<N, 1>(0, 1);
    formula(xv.norm_wrms(&wv), &x, &w);
    // every other entry of a longer vector
    let long: SMatrix<S, 12, 1> = SMatrix::from_fn(|i, _| if i % 2 == 0 && i / 2 < N { x[i / 2] } else { S::var(&format!("l{i}")) });
    let xs = long.fixed_rows_with_step::<N>(0, 1);
    formula(xs.norm_wrms(&wv), &x, &w);
}
/// norm axioms in their own right
fn c14_axioms<S: Sc, const N: usize>() {
    let (x, y, w) = (S::vars("x", N), S::vars("y", N), S::vars("w", N));
    let v = |a: &[S]| -> SVector<S, N> { SVector::from_fn(|i, _| a[i]) };
    let wv = v(&w);
    let nx = v(&x).norm_wrms(&wv);
    let c = S::var("c");
    let cx: Vec<S> = x.iter().map(|a| c * *a).collect();
    let ncx = v(&cx).norm_wrms(&wv);
    let neg: Vec<S> = w.iter().map(|a| S::num(0.0) - *a).collect();
    S::observe("nx", nx);
    S::observe("ncx", ncx);
    S::check("scaling the vector scales the norm", C::Eq(ncx * ncx, c * c * nx * nx));
    S::check("zero exactly when every product is zero", C::Eq(nx, S::num(0.0)).iff(C::all(x.iter().zip(&w).map(|(a, b)| C::Eq(*a * *b, S::num(0.0))))));
    S::check("the sign of a weight does not matter", C::Eq(v(&x).norm_wrms(&v(&neg)) * nx, nx * nx));
    if N <= 2 {
        let ny = v(&y).norm_wrms(&wv);
        let s: Vec<S> = x.iter().zip(&y).map(|(a, b)| *a + *b).collect();
        let ns = v(&s).norm_wrms(&wv);
        S::check("triangle inequality", C::Le(ns, nx + ny));
    }
}
/// any floats: a NaN anywhere makes the norm NaN, so that no tolerance accepts it
fn c15<S: Sc>(n: usize) {
    let (mut x, mut w) = (S::vars("x", n), S::vars("w", n));
    let p = S::choose("where", 2 * n);
    if p < n {
        x[p] = S::num(f64::NAN);
    } else {
        w[p - n] = S::num(f64::NAN);
    }
    let nrm = DVector::from_vec(x).norm_wrms(&DVector::from_vec(w));
    S::observe("norm", nrm);
    S::check("a NaN shows in the norm", C::Nan(nrm));
    let tol = S::var("tol");
    S::check("no tolerance accepts it", C::Le(nrm, tol).not());
}
/// finite arguments: a proper number >= 0 (overflow gives +inf, which no finite tolerance accepts)
fn c15_finite<S: Sc>(n: usize) {
    let (x, w) = (S::vars("x", n), S::vars("w", n));
    for v in x.iter().chain(&w) {
        S::assume(C::finite(*v));
    }
    let nrm = DVector::from_vec(x.clone()).norm_wrms(&DVector::from_vec(w.clone()));
    S::observe("norm", nrm);
    S::check("finite arguments never give NaN", C::Nan(nrm).not());
    S::check("and never a negative norm", C::Le(S::num(0.0), nrm));
}
/// the same bits as the textbook loop
fn c15_bits<S: Sc>(n: usize) {
    let (x, w) = (S::vars("x", n), S::vars("w", n));
    let nrm = DVector::from_vec(x.clone()).norm_wrms(&DVector::from_vec(w.clone()));
    let mut s = S::num(-0.0);
    for (a, b) in x.iter().zip(&w) {
        let p = *a * *b;
        s = s + p * p;
    }
    S::observe("norm", nrm);
    S::check("bits of the norm", C::Same(nrm, (s / S::num(n as f64)).sqrtv()));
}
const F: &[&str] = &["nonlinear::norm_wrms::NormWRMS::norm_wrms"];
const EX: &[&str] = &["exact real arithmetic: rounding is outside this claim", "length 0 is outside the claim"];
const EF: &[&str] = &["length 0 is outside the claim"];
pub fn register(v: &mut Vec<Harness>) {
    let mut r = |h: Harness| v.push(h.funs(F).assuming(EX));
    for n in 1..=8usize {
        r(h!("C14", format!("formula-dyn-{n}"), Real, c14_dyn, n).bound(format!("heap vectors of length {n}")));
    }
    for n in [16usize, 32] {
        r(h!("C14", format!("formula-dyn-{n}"), Real, c14_dyn, n).bound(format!("heap vectors of length {n}")).thorough());
    }
    for n in [9usize, 10, 11, 12, 13, 15, 16, 17, 24, 31, 32, 33] {
        r(h!("C14", format!("long-{n}"), Real, c14_long, n).bound(format!("heap vectors of length {n}: any entry and weight at any place, the others fixed")));
    }
    for n in [48usize, 63, 64, 65, 100, 128, 129] {
        r(h!("C14", format!("long-{n}"), Real, c14_long, n).bound(format!("heap vectors of length {n}: any entry and weight at any place, the others fixed")).thorough());
    }
    r(h!("C14", "formula-1", Real, c14_static; 1;).bound("stack vectors of length 1"));
    r(h!("C14", "formula-3", Real, c14_static; 3;).bound("stack vectors of length 3"));
    r(h!("C14", "formula-6", Real, c14_static; 6;).bound("stack vectors of length 6"));
    r(h!("C14", "views-1", Real, c14_views; 1;).bound("strided views of length 1"));
    r(h!("C14", "views-3", Real, c14_views; 3;).bound("strided views of length 3"));
    r(h!("C14", "views-4", Real, c14_views; 4;).bound("strided views of length 4"));
    r(h!("C14", "axioms-1", Real, c14_axioms; 1;).bound("length 1"));
    r(h!("C14", "axioms-2", Real, c14_axioms; 2;).bound("length 2"));
    r(h!("C14", "axioms-3", Real, c14_axioms; 3;).bound("length 3, triangle inequality excepted"));
    let mut r = |h: Harness| v.push(h.funs(F).assuming(EF));
    for n in 1..=4usize {
        r(h!("C15", format!("nan-{n}"), Fp, c15, n).bound(format!("length {n}, any floats, a NaN at any place")));
    }
    for n in 1..=6usize {
        r(h!("C15", format!("finite-{n}"), Fp, c15_finite, n).bound(format!("length {n}, any finite floats")));
    }
    for n in 1..=6usize {
        r(h!("C15", format!("bits-{n}"), Fp, c15_bits, n).bound(format!("length {n}, any floats")));
    }
    for n in [7usize, 8, 9, 12, 16, 17, 24, 32, 33] {
        r(h!("C15", format!("bits-{n}"), Fp, c15_bits, n).bound(format!("length {n}, any floats")));
    }
    for n in [8usize, 16] {
        r(h!("C15", format!("nan-{n}"), Fp, c15, n).bound(format!("length {n}, any floats, a NaN at any place")).thorough());
        r(h!("C15", format!("finite-{n}"), Fp, c15_finite, n).bound(format!("length {n}, any finite floats")).thorough());
    }
}
