//! the sample problems
use super::*;
use symx::h;

/// the sample problem over the scalar of the harness
pub trait Sample: IS {
    type Rob: IdaProblem<Scalar = Self> + std::fmt::Debug;
    type Crank: Residual<Scalar = Self>;
    fn rob() -> Self::Rob;
    fn crank(v: [Self; 8]) -> Self::Crank;
}
impl Sample for f64 {
    type Rob = crate::sample_problems::Roberts;
    type Crank = crate::sample_problems::SlCrank;
    fn rob() -> Self::Rob {
        crate::sample_problems::Roberts {}
    }
    fn crank(v: [f64; 8]) -> Self::Crank {
        crate::sample_problems::SlCrank::verif_with(v)
    }
}
impl Sample for Sym {
    type Rob = crate::sample_sym::Roberts;
    type Crank = crate::sample_sym::SlCrank;
    fn rob() -> Self::Rob {
        crate::sample_sym::Roberts {}
    }
    fn crank(v: [Sym; 8]) -> Self::Crank {
        crate::sample_sym::SlCrank::verif_with(v)
    }
}
fn z<S: IS>() -> S {
    S::num(0.0)
}
fn arr<S: IS>(x: &[S]) -> Array1<S> {
    Array1::from_vec(x.to_vec())
}
/// Robertson's kinetics: residual, Jacobian, root functions
fn c32_roberts<S: Sample>() {
    let p = S::rob();
    S::check_b("size", p.model_size() == 3 && p.num_roots() == 2);
    let (t, cj) = (S::var("t"), S::var("cj"));
    let (y, yp) = (S::vars("y", 3), S::vars("yp", 3));
    let f = |y: &[S], yp: &[S], t: S| {
        let mut r = arr(&S::vars("old", 3));
        p.res(t, arr(y).view(), arr(yp).view(), r.view_mut());
        v(&r)
    };
    let (k1, k2, k3) = (S::num(0.04), S::num(1e4), S::num(3e7));
    let r = f(&y, &yp, t);
    S::check("y1' = -0.04 y1 + 1e4 y2 y3", C::Eq(r[0], k2 * y[1] * y[2] - k1 * y[0] - yp[0]));
    S::check("y2' = 0.04 y1 - 1e4 y2 y3 - 3e7 y2^2", C::Eq(r[1], k1 * y[0] - k2 * y[1] * y[2] - k3 * y[1] * y[1] - yp[1]));
    S::check("y1 + y2 + y3 = 1", C::Eq(r[2], y[0] + y[1] + y[2] - S::num(1.0)));
    let mut j: Array2<S> = Array::zeros((3, 3));
    p.jac(t, cj, arr(&y).view(), arr(&yp).view(), arr(&r).view(), j.view_mut());
    // F is a quadratic in y and linear in y': the Jacobian is its central difference, exactly
    let d = S::var("d");
    S::assume(C::Eq(d, z()).not());
    for c in 0..3 {
        let (mut ya, mut pa, mut yb, mut pb) = (y.clone(), yp.clone(), y.clone(), yp.clone());
        ya[c] = ya[c] + d;
        pa[c] = pa[c] + cj * d;
        yb[c] = yb[c] - d;
        pb[c] = pb[c] - cj * d;
        let (fa, fb) = (f(&ya, &pa, t), f(&yb, &pb, t));
        for q in 0..3 {
            S::check("J = dF/dy + cj dF/dy'", C::Eq(j[[q, c]] * (d + d), fa[q] - fb[q]));
        }
    }
    let mut g = arr(&S::vars("oldg", 2));
    p.root(t, arr(&y).view(), arr(&yp).view(), g.view_mut());
    S::check("root functions", C::Eq(g[0], y[0] - S::num(1e-4)).and(C::Eq(g[1], y[2] - S::num(0.01))));
}
/// the slider crank: a consistent constrained mechanical system
fn c32_crank<S: Sample>() {
    let c8: Vec<S> = ["a", "J1", "J2", "m2", "k", "c", "l0", "F"].iter().map(|n| S::var(n)).collect();
    let (a, j1, j2, m2, k, c, l0, force) = (c8[0], c8[1], c8[2], c8[3], c8[4], c8[5], c8[6], c8[7]);
    let p = S::crank([a, j1, j2, m2, k, c, l0, force]);
    S::check_b("size", p.model_size() == 10);
    let (y, yp) = (S::vars("y", 10), S::vars("yp", 10));
    let (q, x, ph, qd, xd, pd) = (y[0], y[1], y[2], y[3], y[4], y[5]);
    let (s1, c1) = (num_traits::Float::sin(q), num_traits::Float::cos(q));
    let (s2, c2) = (num_traits::Float::sin(ph), num_traits::Float::cos(ph));
    let (half, one) = (S::num(0.5), S::num(1.0));
    // the spring between the middles of crank and rod
    let c21 = c2 * c1 + s2 * s1;
    let s21 = s2 * c1 - c2 * s1;
    let l2 = x * x - x * (c2 + a * c1) + (one + a * a) * S::num(0.25) + a * c21 * half;
    S::assume(C::Lt(z(), l2));
    let l = l2.sqrtv();
    // d(l^2)/dt
    let l2d = S::num(2.0) * x * xd - xd * (c2 + a * c1) + x * (s2 * pd + a * s1 * qd) - a * s21 * (pd - qd) * half;
    let mut r = arr(&S::vars("old", 10));
    p.res(S::var("t"), arr(&y).view(), arr(&yp).view(), r.view_mut());
    // the constraints and their gradient G
    S::check("constraint: horizontal", C::Eq(r[6], x - c2 - a * c1));
    S::check("constraint: vertical", C::Eq(r[7], z::<S>() - s2 - a * s1));
    let g1 = [a * s1, one, s2];
    let g2 = [z::<S>() - a * c1, z(), z::<S>() - c2];
    let vel = [qd, xd, pd];
    S::check("velocity constraint: horizontal", C::Eq(r[8], g1[0] * qd + g1[1] * xd + g1[2] * pd));
    S::check("velocity constraint: vertical", C::Eq(r[9], g2[0] * qd + g2[1] * xd + g2[2] * pd));
    for i in 0..3 {
        S::check("q' = v - G^T mu", C::Eq(r[i], yp[i] - vel[i] + g1[i] * y[8] + g2[i] * y[9]));
    }
    // the applied force: the residual of the dynamics with inertia and reaction taken away
    let m = [j1, m2, j2];
    let f: Vec<S> = (0..3).map(|i| m[i] * yp[3 + i] + g1[i] * y[6] + g2[i] * y[7] - r[3 + i]).collect();
    let sf = k * (l - l0) + c * (l2d / (S::num(2.0) * l));
    let dl = [a * (x * s1 + s21 * half), S::num(2.0) * x - c2 - a * c1, x * s2 - a * s21 * half];
    let ext = [z(), force, z::<S>() - force * s2];
    for i in 0..3 {
        S::observe("force", f[i]);
        S::check("M v' = spring and damper + external force - G^T lambda", C::Eq(f[i] - ext[i], z::<S>() - sf / l * dl[i] * half));
    }
}

pub fn register(v: &mut Vec<Harness>) {
    v.push(h!("C32", "roberts", Real, c32_roberts));
    v.push(h!("C32", "slider-crank", Real, c32_crank));
}
