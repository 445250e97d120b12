//! the interpolant: get_solution, get_dky, set_coeffs + predict, complete_step, restore
use super::*;
use crate::error::IdaError;
use symx::h;

/// psi and phi of a history of `k` steps; phi is the identity in its first k+1 rows, so component
/// j of whatever is linear in phi is the coefficient of phi_j
pub fn basis<S: IS>(k: usize) -> I<S> {
    let n = 6;
    let p = Prob::<S>::new(n, 0);
    let mut i = ida(&p, &zeros(n), &zeros(n), ones());
    for r in 0..6 {
        for c in 0..n {
            i.ida_phi[[r, c]] = S::num(if r == c { 1.0 } else { 0.0 });
        }
    }
    let _ = k;
    i
}
/// step sizes of one sign, the last first; psi[j] is the sum of the last j+1 of them
pub fn steps<S: IS>(k: usize) -> (Vec<S>, Vec<S>) {
    let hs: Vec<S> = S::vars("h", k);
    let back = S::flag("backwards");
    for x in &hs {
        S::assume(if back { C::Lt(*x, S::num(0.0)) } else { C::Lt(S::num(0.0), *x) });
    }
    let mut psi = vec![];
    let mut s = S::num(0.0);
    for x in &hs {
        s = s + *x;
        psi.push(s);
    }
    (hs, psi)
}
/// get_solution(t): value and derivative of sum_j phi_j prod_{i<j} (t - t_{n-i}) / psi_i
fn c16<S: IS>(k: usize) {
    let mut i = basis::<S>(k);
    let (hs, psi) = steps::<S>(k + 1);
    for j in 0..=k {
        i.ida_psi[j] = psi[j];
    }
    let tn = S::var("tn");
    let del = S::var("delta");
    i.nlp.ida_tn = tn;
    i.ida_kused = k;
    i.ida_hused = hs[0];
    i.ida_hh = hs[0];
    let back = del * hs[0];
    S::assume(C::Le(S::num(0.0), back + hs[0] * hs[0]));
    i.get_solution(tn + del).unwrap();
    let (yy, yp) = (i.get_yy().to_vec(), i.get_yp().to_vec());
    for j in 0..=k {
        // factors t - t_{n-m}, m < j
        let f: Vec<S> = (0..j).map(|m| if m == 0 { del } else { del + psi[m - 1] }).collect();
        let den = (0..j).fold(S::num(1.0), |a, m| a * psi[m]);
        let val = f.iter().fold(S::num(1.0), |a, x| a * *x);
        let mut der = S::num(0.0);
        for m in 0..j {
            der = der + (0..j).filter(|q| *q != m).fold(S::num(1.0), |a, q| a * f[q]);
        }
        S::observe("c", yy[j]);
        S::observe("d", yp[j]);
        S::check("coefficient of phi_j in y", C::Eq(yy[j] * den, val));
        S::check("coefficient of phi_j in y'", C::Eq(yp[j] * den, der));
    }
    for j in k + 1..6 {
        S::check("higher differences do not enter", C::Eq(yy[j], S::num(0.0)).and(C::Eq(yp[j], S::num(0.0))));
    }
}


fn prod<S: IS>(it: impl IntoIterator<Item = S>) -> S {
    it.into_iter().fold(S::num(1.0), |a, x| a * x)
}
fn sum<S: IS>(it: impl IntoIterator<Item = S>) -> S {
    it.into_iter().fold(S::num(0.0), |a, x| a + x)
}
/// elementary symmetric polynomial of degree d
fn esym<S: IS>(f: &[S], d: usize) -> S {
    if d == 0 {
        return S::num(1.0);
    }
    if f.len() < d {
        return S::num(0.0);
    }
    f[0] * esym(&f[1..], d - 1) + esym(&f[1..], d)
}
/// factors t - t_{n-m}, m < j, of the Newton form
fn factors<S: IS>(del: S, psi: &[S], j: usize) -> Vec<S> {
    (0..j).map(|m| if m == 0 { del } else { del + psi[m - 1] }).collect()
}
/// get_dky(t, k): the k-th derivative of the same polynomial
fn c17<S: IS>(kused: usize, k: usize) {
    let mut i = basis::<S>(kused);
    let (hs, psi) = steps::<S>(kused + 1);
    for j in 0..=kused {
        i.ida_psi[j] = psi[j];
    }
    let (tn, del) = (S::var("tn"), S::var("delta"));
    i.nlp.ida_tn = tn;
    i.ida_kused = kused;
    i.ida_hused = hs[0];
    i.ida_hh = hs[0];
    S::assume(C::Le(S::num(0.0), (del + hs[0]) * hs[0]));
    let mut dky = Array1::from_vec(zeros::<S>(6));
    S::check_b("a legal request succeeds", i.get_dky(tn + del, k, &mut dky).is_ok());
    let fact = (1..=k).fold(1.0, |a, x| a * x as f64);
    for j in 0..6 {
        S::observe("d", dky[j]);
        if j > kused {
            S::check("higher differences do not enter", C::Eq(dky[j], S::num(0.0)));
            continue;
        }
        let f = factors(del, &psi, j);
        let want = if j < k { S::num(0.0) } else { S::num(fact) * esym(&f, j - k) };
        S::check("coefficient of phi_j in the derivative", C::Eq(dky[j] * prod((0..j).map(|m| psi[m])), want));
    }
}
fn c17_badk<S: IS>(kused: usize) {
    let mut i = basis::<S>(kused);
    i.ida_kused = kused;
    for j in 0..=kused {
        i.ida_psi[j] = S::num(j as f64 + 1.0);
    }
    i.ida_hh = S::num(1.0);
    i.ida_hused = S::num(1.0);
    for k in kused + 1..8 {
        let mut dky = Array1::from_vec(vec![S::num(7.0); 6]);
        let r = i.get_dky(S::num(0.0), k, &mut dky);
        let bad = match r {
            Err(e) => matches!(e.downcast_ref::<IdaError>(), Some(IdaError::BadK {})),
            Ok(()) => false,
        };
        S::check_b("a derivative above the order used is refused", bad);
        S::check("and leaves the output alone", C::eqs(&v(&dky), &vec![S::num(7.0); 6]));
    }
}
/// which t get_solution and get_dky accept
fn c18<S: IS>(dky: bool, backwards: bool) {
    let mut i = basis::<S>(1);
    let (h, hn, tn, t) = (S::var("hused"), S::var("hh"), S::var("tn"), S::var("t"));
    let z = S::num(0.0);
    for x in [h, hn] {
        S::assume(if backwards { C::Lt(x, z) } else { C::Lt(z, x) });
    }
    i.ida_psi[0] = h;
    i.ida_psi[1] = h + h;
    i.ida_kused = 1;
    i.ida_hused = h;
    i.ida_hh = hn;
    i.nlp.ida_tn = tn;
    let (y0, yp0) = (S::vars("y", 6), S::vars("yp", 6));
    i.nlp.ida_yy = Array1::from_vec(y0.clone());
    i.nlp.ida_yp = Array1::from_vec(yp0.clone());
    let mut out = Array1::from_vec(y0.clone());
    let r = if dky { i.get_dky(t, 1, &mut out) } else { i.get_solution(t) };
    let sg = if backwards { S::num(-1.0) } else { S::num(1.0) };
    // how far t lies inside the last step, in the direction of integration
    let inside = (t - (tn - h)) * sg;
    let slack = S::num(1e-10) * (tn.absv() + hn.absv());
    match r {
        Ok(()) => S::check("t before the last step is refused", C::Le(z - slack, inside)),
        Err(e) => {
            S::check_b("the error is BadTimeValue", matches!(e.downcast_ref::<IdaError>(), Some(IdaError::BadTimeValue { .. })));
            S::check("a t of the last step is accepted", C::Lt(inside, z));
            S::check("a refused call leaves the solution alone", C::eqs(&v(&i.nlp.ida_yy), &y0).and(C::eqs(&v(&i.nlp.ida_yp), &yp0)).and(C::eqs(&v(&out), &y0)));
        }
    }
}
/// the start of the last step as a caller may have computed it, some roundoffs off, at times large against the steps
fn c18_start<S: IS>(dky: bool, backwards: bool) {
    let mut i = basis::<S>(1);
    let (h, hn, tn) = (S::var("hused"), S::var("hh"), S::var("tn"));
    let z = S::num(0.0);
    for x in [h, hn] {
        S::assume(if backwards { C::Lt(x, z) } else { C::Lt(z, x) });
        S::assume(C::Le(S::num(1024.0) * x.absv(), tn.absv()));
    }
    i.ida_psi[0] = h;
    i.ida_psi[1] = h + h;
    i.ida_kused = 1;
    i.ida_hused = h;
    i.ida_hh = hn;
    i.nlp.ida_tn = tn;
    let off = S::num(16.0 * f64::EPSILON) * tn.absv();
    let t = if backwards { tn - h + off } else { tn - h - off };
    let mut out = Array1::from_vec(S::vars("y", 6));
    let ok = if dky { i.get_dky(t, 1, &mut out).is_ok() } else { i.get_solution(t).is_ok() };
    S::check_b("the start of the last step is accepted up to roundoff", ok);
}
/// a state right before a step: `kused` used last, `kk` next, `s` steps of equal size so far
/// (0: the next step differs from the last in size or order)
pub struct Hist<S: IS> {
    pub i: I<S>,
    /// psi of the history (distances from t_n back)
    pub old: Vec<S>,
    pub h: S,
}
pub fn hist<S: IS>(kused: usize, kk: usize, s: usize) -> Hist<S> {
    let mut i = basis::<S>(kk);
    let back = S::flag("backwards");
    let pos = |x: S| S::assume(if back { C::Lt(x, S::num(0.0)) } else { C::Lt(S::num(0.0), x) });
    let h = S::var("h");
    pos(h);
    let m = kused + 1;
    let mut old = vec![];
    let mut t = S::num(0.0);
    for j in 0..m {
        let st = if j < s {
            h
        } else {
            let x = S::var(&format!("g{j}"));
            pos(x);
            x
        };
        if j == 0 {
            i.ida_hused = st;
            if s == 0 && kk == kused {
                S::assume(C::Eq(st, h).not());
            }
        }
        t = t + st;
        old.push(t);
        i.ida_psi[j] = t;
    }
    i.ida_hh = h;
    i.ida_kk = kk;
    i.ida_kused = kused;
    i.ida_ns = if s == 0 { S::choose("ns", kused + 3) } else { s };
    i.nlp.ida_tn = S::var("tn");
    i.nlp.lp.ida_cj = S::var("cj");
    i.counters.ida_nst = 7;
    i.ida_beta[0] = S::num(1.0);
    i.ida_alpha[0] = S::num(1.0);
    i.ida_sigma[0] = S::num(1.0);
    i.ida_gamma[0] = S::num(0.0);
    if s >= 1 {
        // what the last call left for the steps of equal size
        for j in 1..=kused {
            // coefficients of the previous step: psi before it
            let prev = if j == 0 { S::num(0.0) } else { old[j] - old[0] };
            let _ = prev;
            i.ida_alpha[j] = h / old[j];
            i.ida_beta[j] = if j < s { S::num(1.0) } else { S::var(&format!("beta{j}")) };
            i.ida_sigma[j] = S::num(j as f64) * i.ida_sigma[j - 1] * i.ida_alpha[j];
            i.ida_gamma[j] = i.ida_gamma[j - 1] + i.ida_alpha[j - 1] / h;
        }
    }
    Hist { i, old, h }
}
/// the cases of C19-C21: kused, kk, number of equal steps
pub fn cases(max: usize) -> Vec<(usize, usize, usize)> {
    let mut r = vec![];
    for kused in 1..=max {
        for kk in [kused.wrapping_sub(1), kused, kused + 1] {
            if kk < 1 || kk > max {
                continue;
            }
            r.push((kused, kk, 0));
            if kk == kused {
                for s in 1..=kused + 2 {
                    r.push((kused, kk, s));
                }
            }
        }
    }
    r
}
/// prediction: the interpolant of the history at t_n + h, value and derivative
fn c19<S: IS>(kused: usize, kk: usize, s: usize) {
    let Hist { mut i, old, h } = hist::<S>(kused, kk, s);
    let cj0 = i.nlp.lp.ida_cj;
    let tn0 = i.nlp.ida_tn;
    let ck = i.set_coeffs();
    S::observe("ck", ck);
    for j in 0..=kk {
        let want = if j == 0 { h } else { h + old[j - 1] };
        S::observe("psi", i.ida_psi[j]);
        S::check("psi: distances from the new point", C::Eq(i.ida_psi[j], want));
    }
    let psi: Vec<S> = (0..=kk).map(|j| if j == 0 { h } else { h + old[j - 1] }).collect();
    let mut sig = S::num(1.0);
    for j in 0..=kk {
        S::check("alpha_j = h / psi_j", C::Eq(i.ida_alpha[j] * psi[j], h));
        if j > 0 {
            sig = sig * S::num(j as f64) * h;
        }
        S::check("sigma_j = j! h^j / (psi_1 .. psi_j)", C::Eq(i.ida_sigma[j] * prod((1..=j).map(|m| psi[m])), sig));
    }
    S::check("the step starts where the last one ended", C::Eq(i.nlp.ida_tn, tn0));
    S::check("cj = (1 + 1/2 + .. + 1/k) / h", C::Eq(i.nlp.lp.ida_cj * h, sum((1..=kk).map(|m| S::q(1, m as i64)))));
    S::check("the last cj is kept", C::Eq(i.ida_cjlast, cj0));
    i.predict();
    for j in 0..6 {
        let (y, yp) = (i.nlp.ida_yypredict[j], i.nlp.ida_yppredict[j]);
        S::observe("yy", y);
        S::observe("yp", yp);
        if j > kk {
            S::check("higher differences do not enter the prediction", C::Eq(y, S::num(0.0)).and(C::Eq(yp, S::num(0.0))));
            continue;
        }
        // old interpolant at delta = h
        let f = factors(h, &old, j);
        let den = prod((0..j).map(|m| old[m]));
        S::check("predicted y extrapolates the last solution", C::Eq(y * den, prod(f.iter().copied())));
        let der = sum((0..j).map(|m| prod((0..j).filter(|q| *q != m).map(|q| f[q]))));
        S::check("predicted y' is its derivative", C::Eq(yp * den, der));
    }
}
/// restore undoes set_coeffs
fn c20<S: IS>(kused: usize, kk: usize, s: usize) {
    let Hist { mut i, old, .. } = hist::<S>(kused, kk, s);
    let n = 6;
    let phi0: Vec<S> = (0..6).map(|j| S::var(&format!("phi{j}"))).collect();
    for j in 0..6 {
        for c in 0..n {
            i.ida_phi[[j, c]] = if c == 0 { phi0[j] } else { S::num((j * n + c) as f64) };
        }
    }
    let tn0 = i.nlp.ida_tn;
    i.set_coeffs();
    i.nlp.ida_tn = S::var("elsewhere");
    i.restore(tn0);
    S::check("t is back", C::Eq(i.nlp.ida_tn, tn0));
    for j in 0..kk {
        S::check("psi is back", C::Eq(i.ida_psi[j], old[j]));
    }
    for j in 0..6 {
        S::observe("phi", i.ida_phi[[j, 0]]);
        S::check("phi is back", C::Eq(i.ida_phi[[j, 0]], phi0[j]));
        for c in 1..n {
            S::check("phi is back, every component", C::Eq(i.ida_phi[[j, c]], S::num((j * n + c) as f64)));
        }
    }
}
/// the very first step: after a failed attempt y stays y0 and phi[1] is h y' again
fn c20_first<S: IS>() {
    let n = 2;
    let (y0, yp0) = (S::vars("y", n), S::vars("yp", n));
    let p = Prob::<S>::new(n, 0);
    let mut i = ida(&p, &y0, &yp0, ones());
    let h = S::var("h");
    S::assume(C::Eq(h, S::num(0.0)).not());
    for c in 0..n {
        i.ida_phi[[1, c]] = h * yp0[c];
    }
    let rr = S::var("rr");
    S::assume(C::Lt(S::num(0.0), rr).and(C::Lt(rr, S::num(1.0))));
    i.ida_rr = rr;
    i.ida_hh = h * rr;
    i.ida_kk = 1;
    i.reset();
    for c in 0..n {
        S::check("y0 is not touched", C::Eq(i.ida_phi[[0, c]], y0[c]));
        S::check("phi[1] = h y' for the new h", C::Eq(i.ida_phi[[1, c]], i.ida_hh * yp0[c]));
    }
    S::check("psi[0] = h", C::Eq(i.ida_psi[0], i.ida_hh));
}
/// an accepted step: the new interpolant passes through the new solution and the last k ones
fn c21<S: IS>(kused: usize, kk: usize, s: usize) {
    let Hist { mut i, old, h } = hist::<S>(kused, kk, s);
    let tn0 = i.nlp.ida_tn;
    i.set_coeffs();
    i.predict();
    i.nlp.ida_tn = tn0 + h;
    // the correction is one more basis vector, in component 5 + ... components 0..=kk are phi_j
    let p7 = S::vars("e", 6);
    i.ida_ee = Array1::from_vec(p7.clone());
    let yy: Vec<S> = (0..6).map(|c| i.nlp.ida_yypredict[c] + p7[c]).collect();
    i.ida_knew = if kk > 1 && S::flag("lower") { kk - 1 } else { kk };
    i.ida_phase = S::choose("phase", 2);
    let (ek, ekm1) = (S::num(0.3), S::num(0.2));
    let nst = i.counters.ida_nst;
    // the raise estimate is not the point here
    i.nlp.ida_ewt = Array1::from_vec(zeros(6));
    i.complete_step(ek, ekm1);
    S::check_b("one more step", i.counters.ida_nst == nst + 1);
    S::check_b("kused is the order of this step", i.ida_kused == kk && i.get_last_order() == kk);
    S::check("hused is its size", C::Eq(i.ida_hused, h).and(C::Eq(i.get_last_step(), h)));
    // divided differences with respect to the new points
    let psi: Vec<S> = (0..=kk).map(|j| if j == 0 { h } else { h + old[j - 1] }).collect();
    let den = prod((0..=kk).map(|j| old.get(j).copied().unwrap_or(S::num(1.0))));
    for c in 0..6 {
        // value of the new interpolant at t_{n+1-m}, m = 0..=kk, for component c
        for m in 0..=kk {
            let del = if m == 0 { S::num(0.0) } else { S::num(0.0) - psi[m - 1] };
            let f = factors(del, &psi, kk);
            let mut val = S::num(0.0);
            let mut w = S::num(1.0);
            for j in 0..=kk {
                val = val + w * i.ida_phi[[j, c]];
                if j < kk {
                    w = w * f[j] / psi[j];
                }
            }
            // what it has to be: the new y, or the old interpolant at that point
            let want = if m == 0 {
                yy[c]
            } else if c > kk {
                S::num(0.0)
            } else {
                let od = if m == 1 { S::num(0.0) } else { S::num(0.0) - old[m - 2] };
                prod((0..c).map(|q| if q == 0 { od / old[0] } else { (od + old[q - 1]) / old[q] }))
            };
            S::check("the new interpolant passes through the last solutions", C::Eq(val, want));
        }
        let _ = den;
        // what an order raised next builds on: the new y against the polynomial through the last kk+1 solutions
        if kk < 5 {
            S::check("the difference of the next order", C::Eq(i.ida_phi[[kk + 1, c]], p7[c]));
        }
    }
    // through the public function as well: both ends of the step
    if S::flag("left end") {
        i.get_solution(tn0).unwrap();
        for c in 0..6 {
            S::check("get_solution at the start of the step", C::Eq(i.get_yy()[c], if c == 0 { S::num(1.0) } else { S::num(0.0) }));
        }
    } else {
        i.get_solution(tn0 + h).unwrap();
        S::check("get_solution at the end of the step", C::eqs(&i.get_yy().to_vec(), &yy));
    }
    S::check("current time", C::Eq(i.get_current_time(), tn0 + h));
}
/// constant steps: the corrector is the backward differentiation formula of that order
/// (`warm`: k+1..k+3 equal steps after steps of other sizes; otherwise the coefficients are computed afresh)
fn c34<S: IS>(k: usize, warm: bool) {
    let back = S::flag("backwards");
    let h = S::var("h");
    let pos = |x: S| S::assume(if back { C::Lt(x, S::num(0.0)) } else { C::Lt(S::num(0.0), x) });
    pos(h);
    let mut i = basis::<S>(k);
    i.ida_hh = h;
    i.ida_kk = k;
    i.ida_kused = k;
    i.ida_ns = 0;
    i.counters.ida_nst = 9;
    if warm {
        let mut t = S::num(0.0);
        for j in 0..=k {
            let x = S::var(&format!("g{j}"));
            pos(x);
            if j == 0 {
                S::assume(C::Eq(x, h).not());
                i.ida_hused = x;
            }
            t = t + x;
            i.ida_psi[j] = t;
        }
        for n in 1..=k + 2 {
            let ck = i.set_coeffs();
            i.ida_hused = h;
            if n > k {
                S::check("the error coefficient after k equal steps is 1/(k+1)", C::Eq(ck, S::q(1, k as i64 + 1)));
                S::check("the leading coefficient after k equal steps", C::Eq(i.nlp.lp.ida_cj * h, (1..=k).fold(S::num(0.0), |a, m| a + S::q(1, m as i64))));
                S::check("the error estimate's coefficient after k equal steps", C::Eq(i.ida_sigma[k], S::q(1, k as i64 + 1)));
            }
        }
    } else {
        for j in 0..=k {
            i.ida_psi[j] = h * S::num(j as f64 + 1.0);
        }
        i.ida_hused = if S::flag("same") { h } else { S::var("other") };
    }
    // phi_j = nabla^j y_n for constant steps; the history as basis: component c is y_{n-c}
    for j in 0..=k {
        for c in 0..6 {
            let mut b = if c > j { 0.0 } else { 1.0 };
            for q in 0..c.min(j) {
                b = b * (j - q) as f64 / (q + 1) as f64;
            }
            i.ida_phi[[j, c]] = S::num(if c % 2 == 0 { b } else { -b });
        }
    }
    if !warm {
        i.ida_ns = 0;
    }
    let ck = i.set_coeffs();
    i.predict();
    // the new solution is arbitrary; the corrector sets the correction
    let yn = S::vars("y", 6);
    let e: Vec<S> = (0..6).map(|c| yn[c] - i.nlp.ida_yypredict[c]).collect();
    i.nls.act = Box::new(move |_| Act::Give(e.clone()));
    i.nonlinear_solve().unwrap();
    for c in 0..6 {
        S::check("y is the corrected prediction", C::Eq(i.nlp.ida_yy[c], yn[c]));
        // h y' = sum_{m=1..k} 1/m nabla^m y_{n+1}; component c of y_{n+1-q} is [q == c+1]
        let mut want = S::num(0.0);
        for m in 1..=k {
            let mut d = yn[c];
            let q = c + 1;
            if q <= m {
                let mut b = 1.0;
                for z in 0..q {
                    b = b * (m - z) as f64 / (z + 1) as f64;
                }
                d = d + S::num(if q % 2 == 0 { b } else { -b });
            }
            want = want + d * S::q(1, m as i64);
        }
        S::observe("yp", i.nlp.ida_yp[c]);
        S::check("h y' is the backward difference formula", C::Eq(i.nlp.ida_yp[c] * h, want));
    }
    S::check("the error coefficient is 1/(k+1)", C::Eq(ck, S::q(1, k as i64 + 1)));
}

pub fn register(v: &mut Vec<Harness>) {
    for k in 1..=5 {
        v.push(h!("C16", format!("derivative-{k}"), Real, c16, k).bound(format!("order {k}")));
    }
    for ku in 0..=5 {
        for k in 0..=ku {
            v.push(h!("C17", format!("dky-{ku}-{k}"), Real, c17, ku, k).bound(format!("order {ku}, derivative {k}")));
        }
        v.push(h!("C17", format!("bad-k-{ku}"), Real, c17_badk, ku).bound(format!("order {ku}, derivatives {}..7", ku + 1)));
    }
    for (d, b) in [(false, false), (false, true), (true, false), (true, true)] {
        v.push(h!("C18", format!("window-{}-{}", if d { "dky" } else { "solution" }, if b { "backward" } else { "forward" }), Real, c18, d, b));
        v.push(h!("C18", format!("start-{}-{}", if d { "dky" } else { "solution" }, if b { "backward" } else { "forward" }), Real, c18_start, d, b).bound("steps up to 1/1024 of the current time"));
    }
    for (ku, kk, s) in cases(5) {
        let b = format!("last order {ku}, next order {kk}, {s} equal steps before");
        v.push(h!("C19", format!("predict-{ku}-{kk}-{s}"), Real, c19, ku, kk, s).bound(b.clone()));
        v.push(h!("C20", format!("restore-{ku}-{kk}-{s}"), Real, c20, ku, kk, s).bound(b.clone()));
        v.push(h!("C21", format!("complete-{ku}-{kk}-{s}"), Real, c21, ku, kk, s).bound(b));
    }
    v.push(h!("C20", "first-step", Real, c20_first));
    for k in 1..=5 {
        v.push(h!("C34", format!("bdf-{k}"), Real, c34, k, false).bound(format!("order {k}")));
        v.push(h!("C34", format!("settled-{k}"), Real, c34, k, true).bound(format!("order {k}, {} equal steps after any others", k + 3)));
    }
}
