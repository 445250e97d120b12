//! weights and norms
use super::*;
use crate::norm_rms::{NormRms, NormRmsMasked};
use crate::tol_control::{TolControlSS, TolControlSV};
use symx::h;

fn z<S: IS>() -> S {
    S::num(0.0)
}
fn arr<S: IS>(x: &[S]) -> Array1<S> {
    Array1::from_vec(x.to_vec())
}
/// the weights are the reciprocals of rtol |y| + atol
fn c31_ewt<S: IS>(n: usize, vector: bool) {
    let (rt, y) = (S::var("rtol"), S::vars("y", n));
    let at = if vector { S::vars("atol", n) } else { vec![S::var("atol"); n] };
    S::assume(C::Le(z(), rt));
    for a in &at {
        S::assume(C::Lt(z(), *a));
    }
    let mut w = arr(&S::vars("old", n));
    if vector {
        TolControlSV::new(rt, arr(&at)).ewt_set(arr(&y).view(), w.view_mut());
    } else {
        TolControlSS::new(rt, at[0]).ewt_set(arr(&y).view(), w.view_mut());
    }
    for q in 0..n {
        S::observe("w", w[q]);
        S::check("w (rtol |y| + atol) = 1", C::Eq(w[q] * (rt * y[q].absv() + at[q]), S::num(1.0)));
        S::check("w > 0", C::Lt(z(), w[q]));
    }
}
/// the weighted root mean square norm, with a mask or without
fn c33_norm<S: IS>(n: usize, masked: bool) {
    let (x, w) = (S::vars("x", n), S::vars("w", n));
    let id: Vec<bool> = (0..n).map(|q| masked && S::flag(&format!("id{q}"))).collect();
    let r = if masked { arr(&x).norm_wrms_masked(&arr(&w), &Array1::from_vec(id.clone())) } else { arr(&x).norm_wrms(&arr(&w)) };
    let mut s = z::<S>();
    for q in 0..n {
        if !masked || id[q] {
            s = s + x[q] * w[q] * (x[q] * w[q]);
        }
    }
    S::observe("norm", r);
    S::check("nonnegative", C::Le(z(), r));
    S::check("norm^2 n = sum of (x w)^2", C::Eq(r * r * S::num(n as f64), s));
}
/// wrms_norm of the integrator picks the mask
fn c33_ida<S: IS>(n: usize) {
    let p = Prob::<S>::new(n, 0);
    let (x, w) = (S::vars("x", n), S::vars("w", n));
    let mut i = ida(&p, &zeros(n), &zeros(n), ones());
    let id: Vec<bool> = (0..n).map(|q| S::flag(&format!("id{q}"))).collect();
    i.ida_id = Array1::from_vec(id.clone());
    let mask = S::flag("mask");
    let r = i.wrms_norm(&arr(&x), &arr(&w), mask);
    let mut s = z::<S>();
    for q in 0..n {
        if !mask || id[q] {
            s = s + x[q] * w[q] * (x[q] * w[q]);
        }
    }
    S::check("the norm over the differential components, or all", C::Le(z(), r).and(C::Eq(r * r * S::num(n as f64), s)));
}
pub fn register(v: &mut Vec<Harness>) {
    for n in 1..=3 {
        v.push(h!("C31", format!("formula-scalar-{n}"), Real, c31_ewt, n, false));
        v.push(h!("C31", format!("formula-vector-{n}"), Real, c31_ewt, n, true));
    }
    for n in 1..=5 {
        v.push(h!("C33", format!("norm-{n}"), Real, c33_norm, n, false));
        let x = h!("C33", format!("masked-{n}"), Real, c33_norm, n, true);
        v.push(if n <= 4 { x } else { x.thorough() });
    }
    v.push(h!("C33", "integrator-2", Real, c33_ida, 2));
    v.push(h!("C33", "integrator-3", Real, c33_ida, 3));
}
