//! one internal step: error test, order and step selection, failures, the stop time
use super::*;
use crate::error::{IdaError, Recoverable};
use symx::h;

fn z<S: IS>() -> S {
    S::num(0.0)
}
fn signed<S: IS>(x: S, back: bool) {
    S::assume(if back { C::Lt(x, z()) } else { C::Lt(z(), x) });
}
/// the weighted norm of a one-component vector
fn nrm<S: IS>(x: S, w: S) -> S {
    (x * w).absv()
}
/// complete_step: the order and step size for the next step, from arbitrary error estimates
fn c22<S: IS>(kk: usize, maxord: usize, phase: usize, full: bool, after: bool) {
    let p = Prob::<S>::new(1, 0);
    let mut i = ida(&p, &[S::var("y")], &[S::var("yp")], ones());
    let back = S::flag("backwards");
    let h = S::var("h");
    signed(h, back);
    i.ida_hh = h;
    i.ida_kk = kk;
    i.ida_maxord = maxord;
    i.ida_phase = phase;
    if full {
        i.ida_kused = S::choose("kused", maxord + 1);
        i.ida_ns = S::choose("ns", kk + 3);
    } else {
        // orders next to kk, counts next to kk + 1
        i.ida_kused = std::cmp::min(kk - 1 + S::choose("kused", 3), maxord);
        i.ida_ns = kk + S::choose("ns", 3);
    }
    i.ida_knew = if kk > 1 && S::flag("lower") { kk - 1 } else { kk };
    i.counters.ida_nst = if S::flag("first") { 0 } else { 5 };
    let hmi = S::var("hmax_inv");
    S::assume(C::Le(z(), hmi).and(C::Le(h.absv() * hmi, S::num(1.0))));
    i.ida_hmax_inv = hmi;
    let (ek, ekm1) = (S::var("err_k"), S::var("err_km1"));
    S::assume(C::Le(z(), ek).and(C::Le(z(), ekm1)));
    let (ee, w, ph) = (S::var("ee"), S::var("w"), S::var("phi"));
    S::assume(C::Lt(z(), w));
    i.ida_ee = Array1::from_vec(vec![ee]);
    i.nlp.ida_ewt = Array1::from_vec(vec![w]);
    if after {
        // the difference of order kk + 1 of the step before is what that step leaves behind
        let (ns, knew) = (i.ida_ns, i.ida_knew);
        i.ida_kused = kk;
        i.ida_knew = kk;
        i.ida_ns = kk;
        i.ida_ee[0] = ph;
        i.complete_step(S::num(0.3), S::num(1.0));
        S::check_b("order kept: too few equal steps", i.ida_kk == kk);
        S::check("step kept: the error is as asked for", C::Eq(i.ida_hh, h));
        i.ida_ee[0] = ee;
        i.ida_ns = ns;
        i.ida_knew = knew;
    } else if kk + 1 < 6 {
        i.ida_phi[[kk + 1, 0]] = ph;
    }
    let (ns, knew, kused, nst) = (i.ida_ns, i.ida_knew, i.ida_kused, i.counters.ida_nst);
    i.complete_step(ek, ekm1);
    let (k2, h2) = (i.ida_kk, i.ida_hh);
    S::observe("h", h2);
    S::check_b("the order stays between 1 and the maximum", k2 >= 1 && k2 <= maxord);
    S::check_b("the order changes by at most one", k2 + 1 >= kk && k2 <= kk + 1);
    S::check_b("get_current_order", i.get_current_order() == k2);
    let r = h2 / h;
    S::check("the step at most doubles", C::Le(r, S::num(2.0)));
    S::check("the step is at least halved, never reversed", C::Le(S::num(0.5), r));
    S::check("the step respects hmax", C::Le(h2.absv() * hmi, S::num(1.0)));
    S::check("get_current_setp", C::Eq(i.get_current_setp(), h2));
    S::check_b("once out of the start-up phase, never back", i.ida_phase >= phase);
    let phase1 = phase == 1 || knew + 1 == kk || kk == maxord;
    S::check_b("the start-up phase ends when the order is lowered or at its maximum", (i.ida_phase == 1) == phase1);
    if !phase1 {
        if nst == 0 {
            S::check_b("start-up: the first step changes nothing", k2 == kk);
            S::check("start-up: the first step keeps h", C::Eq(h2, h));
        } else {
            S::check_b("start-up: the order is raised", k2 == kk + 1);
            let lim = C::Eq(h2.absv() * hmi, S::num(1.0));
            S::check("start-up: h doubles, up to hmax", C::Eq(h2, h + h).or(lim));
        }
        return;
    }
    // estimates of the local truncation error
    let tk = S::num(kk as f64 + 1.0) * ek;
    let tkm1 = S::num(kk as f64) * ekm1;
    let up_ok = knew == kk && kk < maxord && ns > kk + 1 && !(kk as isize - kused as isize == 1);
    let ekp1 = nrm(ee - ph, w) / S::num(kk as f64 + 2.0);
    let tkp1 = S::num(kk as f64 + 2.0) * ekp1;
    let err = if k2 == kk + 1 {
        S::check_b("the order is raised only after enough equal steps and no change just before", up_ok);
        if up_ok {
            S::check("raised only if that reduces the error", if kk == 1 { C::Lt(tkp1 + tkp1, tk) } else { C::Lt(tkp1, tk).and(C::Lt(tkp1, tkm1).or(C::Lt(tk, tkm1))) });
        }
        ekp1
    } else if k2 + 1 == kk {
        S::check("lowered only if that does not increase the error", C::B(knew + 1 == kk).or(C::Le(tkm1, tk).and(C::Le(tkm1, tkp1)).and(C::B(up_ok))));
        ekm1
    } else {
        S::check_b("an order decrease decided by the error test is carried out", knew == kk);
        if up_ok {
            S::check("kept only if raising does not pay", if kk == 1 { C::Le(tk, tkp1 + tkp1) } else { C::Le(tk, tkp1) });
            if kk > 1 {
                S::check("kept only if lowering does not pay", C::Lt(tk, tkm1).or(C::Lt(tkp1, tkm1)));
            }
        }
        ek
    };
    // rr = (2 err + 0.0001)^(-1/(k+1)): compare through (k+1)-st powers
    let b = S::num(2.0) * err + S::num(0.0001);
    let pw = |x: f64| x.powi(k2 as i32 + 1);
    // doubled iff rr >= 2, reduced iff rr <= 1
    let lim = C::Eq(h2.absv() * hmi, S::num(1.0));
    let m = 1e-9;
    S::check("doubled (up to hmax) when the error allows it", C::Le(b * S::num(pw(2.0)), S::num(1.0 - m)).implies(C::Eq(h2, h + h).or(lim.clone())));
    S::check("reduced when the error asks for it", C::Lt(S::num(1.0 + m), b).implies(C::Le(r, S::num(0.9))));
    S::check("left alone in between", C::Lt(S::num(1.0 + m), b * S::num(pw(2.0))).and(C::Lt(b, S::num(1.0 - m))).implies(C::Eq(h2, h)));
    // reduced to h * rr, rr clipped to [1/2, 9/10]
    let rp = (0..=k2).fold(S::num(1.0), |a, _| a * r);
    S::check(
        "reduced in proportion to the error",
        C::Lt(S::num(1.0 + m), b).implies(C::any(vec![
            C::Eq(rp * b, S::num(1.0)),
            C::Eq(r, S::num(0.5)).and(C::Le(S::num((1.0 - m) * pw(2.0)), b)),
            C::Eq(r, S::num(0.9)).and(C::Le(b, S::num((1.0 + m) * pw(10.0 / 9.0)))),
        ])),
    );
}
/// test_error: the local error test and the order suggestion
fn c24<S: IS>(kk: usize, n: usize) {
    let p = Prob::<S>::new(n, 0);
    let mut i = ida(&p, &zeros(n), &zeros(n), ones());
    i.ida_kk = kk;
    let (ee, w) = (S::vars("ee", n), S::vars("w", n));
    for x in &w {
        S::assume(C::Lt(z(), *x));
    }
    i.ida_ee = Array1::from_vec(ee.clone());
    i.nlp.ida_ewt = Array1::from_vec(w.clone());
    let mask: Vec<bool> = (0..n).map(|q| n > 1 && S::flag(&format!("id{q}"))).collect();
    let sup = n > 1 && S::flag("suppressalg");
    i.ida_suppressalg = sup;
    i.ida_id = Array1::from_vec(mask.clone());
    let mut ph = vec![];
    for j in 0..6 {
        let r = S::vars(&format!("phi{j}"), n);
        for c in 0..n {
            i.ida_phi[[j, c]] = r[c];
        }
        ph.push(r);
    }
    let sg = S::vars("sigma", 6);
    for j in 0..6 {
        S::assume(C::Lt(z(), sg[j]));
        i.ida_sigma[j] = sg[j];
    }
    let ck = S::var("ck");
    S::assume(C::Lt(z(), ck));
    let norm = |x: &[S]| -> S {
        let mut s = z::<S>();
        for q in 0..n {
            if !sup || mask[q] {
                s = s + x[q] * w[q] * (x[q] * w[q]);
            }
        }
        (s / S::num(n as f64)).sqrtv()
    };
    let nk = norm(&ee);
    let r = i.test_error(ck);
    let (ek, ekm1, ok) = match r {
        Ok((a, b, c)) => {
            S::check_b("success reports convergence", c);
            (a, b, true)
        }
        Err((a, b, e)) => {
            S::check_b("failure is TestFail", matches!(e.downcast_ref::<IdaError>(), Some(IdaError::TestFail)));
            (a, b, false)
        }
    };
    S::observe("err_k", ek);
    S::check("accepted exactly when ck times the norm of the correction is at most 1", if ok { C::Le(ck * nk, S::num(1.0)) } else { C::Lt(S::num(1.0), ck * nk) });
    S::check("err_k", C::Eq(ek, sg[kk] * nk));
    let tk = S::num(kk as f64 + 1.0) * ek;
    let knew = i.ida_knew;
    S::check_b("the suggested order is the present one or one less, at least 1", (knew == kk || knew + 1 == kk) && knew >= 1);
    if kk > 1 {
        let d1: Vec<S> = (0..n).map(|q| ee[q] + ph[kk][q]).collect();
        let e1 = sg[kk - 1] * norm(&d1);
        S::check("err_km1", C::Eq(ekm1, e1));
        let t1 = S::num(kk as f64) * e1;
        let down = if kk > 2 {
            let d2: Vec<S> = (0..n).map(|q| d1[q] + ph[kk - 1][q]).collect();
            let t2 = S::num(kk as f64 - 1.0) * (sg[kk - 2] * norm(&d2));
            C::Le(t1, tk).and(C::Le(t2, tk))
        } else {
            C::Le(t1 + t1, tk)
        };
        S::check("lower order exactly when its error is smaller", if knew + 1 == kk { down } else { down.not() });
    }
    S::check("the correction is not changed", C::eqs(&v(&i.ida_ee), &ee));
}
/// the variable-step error coefficient: set_coeffs' ck
fn c24_ck<S: IS>(kused: usize, kk: usize, s: usize) {
    let interp::Hist { mut i, old, h } = interp::hist::<S>(kused, kk, s);
    let ck = i.set_coeffs();
    let psi: Vec<S> = (0..=kk).map(|j| if j == 0 { h } else { h + old[j - 1] }).collect();
    let al: Vec<S> = psi.iter().map(|p| h / *p).collect();
    // |alpha_{k+1} + alpha_s - alpha^0| and alpha_{k+1}, whichever is larger
    let mut d = al[kk];
    for j in 0..kk {
        d = d - S::q(1, j as i64 + 1) + al[j];
    }
    S::observe("ck", ck);
    S::check("at least alpha_{k+1}", C::Le(al[kk], ck));
    S::check("at least the fixed-leading-coefficient error constant", C::Le(d.absv(), ck));
    S::check("and one of the two", C::Eq(ck, al[kk]).or(C::Eq(ck, d)).or(C::Eq(ck + d, z())));
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Test,
    Rec(usize),
    Conv,
}
fn failure_of(k: Kind) -> failure::Error {
    match k {
        Kind::Test => failure::Error::from(IdaError::TestFail),
        Kind::Conv => failure::Error::from(crate::nonlinear::Error::ConvergenceRecover {}),
        Kind::Rec(n) => failure::Error::from(IdaError::RecoverableFail {
            rec_type: match n {
                0 => Recoverable::Residual,
                1 => Recoverable::LSetup,
                2 => Recoverable::LSolve,
                3 => Recoverable::Constraint,
                _ => Recoverable::NLSSetup,
            },
        }),
    }
}
/// handle_n_flag: what a failed attempt does to step size and order
fn c23_flag<S: IS>(kk: usize, kind: usize) {
    let kind = match kind {
        0 => Kind::Test,
        6 => Kind::Conv,
        n => Kind::Rec(n - 1),
    };
    let p = Prob::<S>::new(1, 0);
    let mut i = ida(&p, &[S::var("y")], &[S::var("yp")], ones());
    let h = S::var("h");
    signed(h, S::flag("backwards"));
    i.ida_hh = h;
    i.ida_kk = kk;
    i.ida_knew = if kk > 1 && S::flag("lower") { kk - 1 } else { kk };
    i.ida_phase = S::choose("phase", 2);
    let (ek, ekm1) = (S::var("err_k"), S::var("err_km1"));
    S::assume(C::Le(z(), ek).and(C::Le(z(), ekm1)));
    let rr0 = S::var("rr");
    S::assume(C::Le(S::num(0.1), rr0).and(C::Le(rr0, S::num(0.9))));
    i.ida_rr = rr0;
    let (mc, me) = (i.ida_maxncf, i.ida_maxnef);
    let some = |name: &str, m: u64| [0, 1, 2, m.max(5) - 2, m.max(4) - 1][S::choose(name, 5)];
    let (mut ncf, mut nef) = (some("ncf", mc), some("nef", me));
    let (c0, e0, nf, ne) = (ncf, nef, i.counters.ida_ncfn, i.counters.ida_netf);
    let knew = i.ida_knew;
    let r = i.handle_n_flag(failure_of(kind), ek, ekm1, &mut ncf, &mut nef);
    let rat = i.ida_hh / h;
    S::check_b("the start-up phase is over", i.ida_phase == 1);
    S::check_b("the order is never raised", i.ida_kk <= kk && i.ida_kk >= 1);
    if kind == Kind::Test {
        S::check_b("counted as an error test failure", nef == e0 + 1 && ncf == c0 && i.counters.ida_netf == ne + 1 && i.counters.ida_ncfn == nf);
        S::check_b("retried exactly while fewer than maxnef failures", r.is_ok() == (e0 + 1 < me));
        if r.is_ok() {
            if e0 == 0 {
                S::check("first failure: reduced by a factor between 1/4 and 9/10", C::Le(S::num(0.25), rat).and(C::Le(rat, S::num(0.9))));
                S::check_b("first failure: the suggested order", i.ida_kk == knew);
                // (0.9 / ratio)^(k+1) = 2 err + 0.0001, clipped
                let err = if knew == kk { ek } else { ekm1 };
                let b = S::num(2.0) * err + S::num(0.0001);
                let q = S::num(0.9) / rat;
                let qp = (0..=knew).fold(S::num(1.0), |a, _| a * q);
                let m = 1e-9;
                S::check(
                    "first failure: reduced in proportion to the error",
                    C::any(vec![
                        C::Eq(qp, b),
                        C::Eq(rat, S::num(0.25)).and(C::Le(S::num((1.0 - m) * (0.9f64 / 0.25).powi(knew as i32 + 1)), b)),
                        C::Eq(rat, S::num(0.9)).and(C::Le(b, S::num(1.0 + m))),
                    ]),
                );
            } else {
                S::check("later failures: a quarter of the step", C::Eq(rat, S::num(0.25)));
                S::check_b("second failure: the suggested order; then order 1", i.ida_kk == if e0 == 1 { knew } else { 1 });
            }
            S::check("rr is the ratio of the steps", C::Eq(i.ida_rr * h, i.ida_hh));
        }
        return;
    }
    S::check_b("counted as a convergence failure", ncf == c0 + 1 && nef == e0 && i.counters.ida_ncfn == nf + 1 && i.counters.ida_netf == ne);
    S::check_b("the order stays", i.ida_kk == kk);
    S::check_b("retried exactly while fewer than maxncf failures", r.is_ok() == (c0 + 1 < mc));
    if r.is_ok() {
        let want = if kind == Kind::Rec(3) { rr0 } else { S::num(0.25) };
        S::check("a quarter of the step (the ratio already chosen for a constraint)", C::Eq(rat, want));
        S::check("rr is the ratio of the steps", C::Eq(i.ida_rr * h, i.ida_hh));
    } else if let Err(e) = r {
        let e = e.downcast_ref::<IdaError>();
        let fine = match kind {
            Kind::Rec(0) => matches!(e, Some(IdaError::RepeatedResidualError {})),
            Kind::Rec(3) => matches!(e, Some(IdaError::ConstraintFail {})),
            _ => matches!(e, Some(IdaError::ConvergenceFail {})),
        };
        S::check_b("giving up says why", fine);
    }
}
/// a whole step with failing attempts: bounded, and nothing of a failed attempt remains
fn c23_step<S: IS>(kk: usize, first: bool, maxf: u64, cap: usize) {
    let n = 1;
    let p = Prob::<S>::new(n, 0);
    let back = S::flag("backwards");
    let h = S::var("h");
    signed(h, back);
    let (y0, yp0) = (S::var("y"), S::var("yp"));
    let mut i = ida(&p, &[y0], &[yp0], ones());
    i.nlp.ida_ewt = Array1::from_vec(vec![S::num(1.0)]);
    i.ida_maxncf = maxf;
    i.ida_maxnef = maxf;
    let tn = S::var("tn");
    i.nlp.ida_tn = tn;
    i.ida_hh = h;
    let mut phi = vec![y0];
    if first {
        i.ida_phi[[1, 0]] = h * yp0;
        phi.push(h * yp0);
        phi.extend((2..6).map(|_| z::<S>()));
    } else {
        i.counters.ida_nst = 3;
        i.ida_kk = kk;
        i.ida_kused = kk;
        let mut t = z::<S>();
        for j in 0..=kk {
            let g = S::var(&format!("g{j}"));
            signed(g, back);
            if j == 0 {
                i.ida_hused = g;
            }
            t = t + g;
            i.ida_psi[j] = t;
        }
        S::assume(C::Eq(i.ida_hused, h).not());
        i.nlp.lp.ida_cj = S::num(1.0) / i.ida_hused;
        i.nlp.lp.ida_cjold = i.nlp.lp.ida_cj;
        for j in 1..6 {
            let x = S::var(&format!("phi{j}"));
            i.ida_phi[[j, 0]] = x;
            phi.push(x);
        }
    }
    let psi0: Vec<S> = (0..6).map(|j| i.ida_psi[j]).collect();
    // every attempt: succeed with some correction, or fail to converge
    let log = Rc::new(RefCell::new(vec![]));
    let l2 = log.clone();
    i.nls.act = Box::new(move |c| {
        if c >= cap {
            S::prune();
        }
        let f = S::flag("converges");
        l2.borrow_mut().push(f);
        if f {
            Act::Give(vec![S::var(&format!("e{c}"))])
        } else {
            Act::Fail(failure_of(Kind::Rec(2)))
        }
    });
    let r = i.step();
    let att = log.borrow().len() as u64;
    S::check_b("bounded number of attempts", att <= 2 * maxf);
    let hn = if r.is_ok() { i.ida_hused } else { i.ida_hh };
    S::check("the step only shrinks", C::Le(z(), (h - hn) * h).and(C::Lt(z(), hn * h)));
    S::check_b("the counters add up", (i.counters.ida_ncfn + i.counters.ida_netf) as u64 == att - if r.is_ok() { 1 } else { 0 });
    match r {
        Ok(()) => {
            S::check("t advances by the step", C::Eq(i.nlp.ida_tn, tn + hn));
            S::check_b("one more step", i.counters.ida_nst == if first { 1 } else { 4 });
            S::check("y is the first difference row", C::Eq(i.ida_phi[[0, 0]], i.nlp.ida_yy[0]));
            if first || i.ida_kused == 1 {
                S::check("y and y' satisfy the implicit Euler relation", C::Eq(i.nlp.ida_yy[0] - y0, hn * i.nlp.ida_yp[0]).or(C::B(!first)));
            }
        }
        Err(_) => {
            S::check("t is back", C::Eq(i.nlp.ida_tn, tn));
            S::check("y is back", C::Eq(i.ida_phi[[0, 0]], y0));
            if !first {
                for j in 0..6 {
                    S::check("the history is back", C::Eq(i.ida_phi[[j, 0]], phi[j]));
                }
                for j in 0..i.ida_kk {
                    S::check("psi is back", C::Eq(i.ida_psi[j], psi0[j]));
                }
            }
        }
    }
}
/// an accepted step has passed the error test; the estimate is left in ee
fn c24_step<S: IS>(kk: usize) {
    let p = Prob::<S>::new(1, 0);
    let mut i = ida(&p, &[S::var("y")], &[S::var("yp")], ones());
    let w = S::var("w");
    S::assume(C::Lt(z(), w));
    i.nlp.ida_ewt = Array1::from_vec(vec![w]);
    i.ida_maxnef = 2;
    i.ida_maxncf = 1;
    let h = S::var("h");
    signed(h, S::flag("backwards"));
    i.ida_hh = h;
    i.ida_hused = h;
    i.counters.ida_nst = 3;
    i.ida_kk = kk;
    i.ida_kused = kk;
    i.ida_ns = 1;
    i.nlp.lp.ida_cj = S::var("cj");
    i.nlp.lp.ida_cjold = S::num(1.0);
    for j in 0..=kk {
        i.ida_psi[j] = h * S::num(j as f64 + 1.0);
    }
    for j in 1..6 {
        i.ida_phi[[j, 0]] = S::var(&format!("phi{j}"));
    }
    let es = Rc::new(RefCell::new(vec![]));
    let e2 = es.clone();
    i.nls.act = Box::new(move |c| {
        let e = S::var(&format!("e{c}"));
        if c > 0 && kk > 2 {
            return Act::Fail(failure::err_msg("enough"));
        }
        e2.borrow_mut().push(e);
        Act::Give(vec![e])
    });
    if i.step().is_ok() {
        let last = *es.borrow().last().unwrap();
        let est = i.ida_ee[0];
        S::check("the estimated local error of an accepted step is within the tolerance", C::Le(nrm(est, w), S::num(1.0)));
        // uniform steps of order kk: the estimate is the correction over k+1
        if es.borrow().len() == 1 {
            S::check("and is the correction times the error coefficient", C::Eq(est * S::num(i.ida_kused as f64 + 1.0), last));
        }
    }
}
/// the stop time is never passed
fn c25_step<S: IS>(retry: bool) {
    let p = Prob::<S>::new(1, 0);
    let mut i = ida(&p, &[S::var("y")], &[S::var("yp")], ones());
    i.nlp.ida_ewt = Array1::from_vec(vec![S::num(1.0)]);
    let back = S::flag("backwards");
    let h = S::var("h");
    signed(h, back);
    i.ida_hh = h;
    i.ida_maxncf = 3;
    i.ida_maxnef = 3;
    let (tn, ts) = (S::var("tn"), S::var("tstop"));
    S::assume(C::Lt(z(), (ts - tn) * h));
    i.nlp.ida_tn = tn;
    i.ida_tstop = Some(ts);
    if S::flag("later") {
        i.counters.ida_nst = 3;
        i.ida_kk = 1;
        i.ida_kused = 1;
        i.ida_hused = h;
        i.ida_psi[0] = h;
        i.ida_psi[1] = h + h;
        i.ida_ns = 1;
        i.nlp.lp.ida_cj = S::num(1.0) / h;
        i.nlp.lp.ida_cjold = i.nlp.lp.ida_cj;
    }
    let seen = Rc::new(RefCell::new(vec![]));
    let s2 = seen.clone();
    p.on_res(move |t, _, _| {
        s2.borrow_mut().push(t);
        vec![z()]
    });
    i.nls.act = Box::new(move |c| if retry && c == 0 { Act::Fail(failure_of(Kind::Rec(2))) } else { Act::Solve(vec![z()]) });
    S::check_b("the step succeeds", i.step().is_ok());
    S::observe("t", i.nlp.ida_tn);
    let past = |t: S| C::Le((t - ts) * h, z());
    S::check("t does not pass the stop time", past(i.nlp.ida_tn));
    for t in seen.borrow().iter() {
        S::check("no residual is evaluated past the stop time", past(*t));
    }
    S::check_b("the residual was evaluated", !seen.borrow().is_empty());
}
/// stop tests: a step that would pass the stop time is shortened to reach it
fn c25_tests<S: IS>(second: bool) {
    let p = Prob::<S>::new(1, 0);
    let mut i = ida(&p, &[S::var("y")], &[S::var("yp")], ones());
    let back = S::flag("backwards");
    let (h, hu) = (S::var("h"), S::var("hused"));
    signed(h, back);
    signed(hu, back);
    i.ida_hh = h;
    i.ida_hused = hu;
    i.counters.ida_nst = 3;
    i.ida_kk = 1;
    i.ida_kused = 1;
    i.ida_psi[0] = hu;
    i.ida_psi[1] = hu + hu;
    let (tn, ts, tout, tl) = (S::var("tn"), S::var("tstop"), S::var("tout"), S::var("tretlast"));
    i.nlp.ida_tn = tn;
    i.ida_tstop = Some(ts);
    i.ida_tretlast = tl;
    let task = if S::flag("onestep") { crate::IdaTask::OneStep } else { crate::IdaTask::Normal };
    let one = matches!(task, crate::IdaTask::OneStep);
    // step() leaves tn at or before tstop
    if second {
        S::assume(C::Le((tn - ts) * h, z()));
    }
    let mut tret = S::var("tret");
    // before a step the tests are those of solve(), which then tries a step
    let tried: Rc<RefCell<Option<S>>> = Rc::new(RefCell::new(None));
    let r = if second {
        i.stop_test2(tout, &mut tret, task)
    } else {
        S::assume(C::Le(i.ida_phi[[0, 0]].absv(), S::num(1e3)));
        let t2 = tried.clone();
        p.on_res(move |t, _, _| {
            *t2.borrow_mut() = Some(t);
            vec![z()]
        });
        i.nls.act = Box::new(|_| Act::Probe(failure::err_msg("probe")));
        let r = i.solve(tout, &mut tret, task);
        if tried.borrow().is_some() {
            S::check_b("the error comes back", r.is_err());
            Ok(crate::IdaSolveStatus::ContinueSteps)
        } else {
            r
        }
    };
    if let Some(t) = *tried.borrow() {
        S::check("no residual beyond the stop time", C::Le((t - ts) * h, z()));
        S::check("the residual is asked for at the end of the step", C::Le((tn + i.ida_hh - t).absv(), S::num(1e-14) * (tn.absv() + ts.absv())));
    }
    let near = (tn - ts).absv();
    let slack = S::num(1e-10) * (tn.absv() + h.absv());
    match r {
        Err(e) => {
            let e = e.downcast_ref::<IdaError>();
            match e {
                Some(IdaError::BadStopTime { .. }) => S::check("BadStopTime only when t is past the stop time", C::Lt(z(), (tn - ts) * h).or(C::Le(near, slack))),
                Some(IdaError::BadTimeValue { .. }) => S::check("BadTimeValue only for a tout or stop time before the last step", C::Lt((tout - (tn - hu)) * h, z()).or(C::Lt((ts - (tn - hu)) * h, z()))),
                _ => S::fail("an unexpected error"),
            }
        }
        Ok(crate::IdaSolveStatus::TStop) => {
            S::check("TStop at the stop time", C::Eq(tret, ts).and(C::Le(near, slack)));
            S::check("tretlast", C::Eq(i.ida_tretlast, ts));
            S::check_b("the stop time is used up", i.ida_tstop.is_none());
        }
        Ok(crate::IdaSolveStatus::ContinueSteps) => {
            S::check("not past the stop time", C::Le((tn - ts) * h, z()));
            S::check("the next step does not pass the stop time", C::Le((tn + i.ida_hh - ts) * h, z()));
            S::check("the step is only shortened", C::Le(z(), (h - i.ida_hh) * h).and(C::Lt(z(), i.ida_hh * h)));
            S::check("a shortened step reaches it", C::Eq(i.ida_hh, h).or(C::Le((ts - (tn + i.ida_hh)).absv(), S::num(1e-14) * (ts - tn).absv())));
            S::check_b("the stop time stays", i.ida_tstop.is_some());
            S::check_b("one-step mode returns after a step", !(second && one));
        }
        Ok(crate::IdaSolveStatus::Success) => {
            if one {
                S::check("one-step mode returns t", C::Eq(tret, tn));
            } else {
                S::check("normal mode returns tout", C::Eq(tret, tout));
                S::check("which has been reached", C::Le(z(), (tn - tout) * h).or(C::B(!second).and(C::Eq(tout, tl))));
            }
            S::check("tretlast", C::Eq(i.ida_tretlast, tret));
        }
        Ok(_) => S::fail("an unexpected status"),
    }
}

pub fn register(v: &mut Vec<Harness>) {
    for maxord in 1..=5 {
        for kk in 1..=maxord {
            for ph in [0, 1] {
                let x = h!("C22", format!("select-{kk}-{maxord}-{ph}"), Real, c22, kk, maxord, ph, false, false)
                    .bound(format!("order {kk} of at most {maxord}, phase {ph}; last order within 1 of {kk}, {kk}..{} equal steps", kk + 2));
                v.push(if maxord == 5 || maxord == 1 || kk == maxord { x } else { x.thorough() });
                v.push(h!("C22", format!("select-all-{kk}-{maxord}-{ph}"), Real, c22, kk, maxord, ph, true, false).bound(format!("order {kk} of at most {maxord}, phase {ph}; any last order and count")).thorough());
            }
        }
    }
    for kk in 1..5 {
        let x = h!("C22", format!("select-twice-{kk}"), Real, c22, kk, 5, 1, false, true).bound(format!("order {kk} of at most 5 after a step of that order and size"));
        v.push(if kk < 3 { x } else { x.thorough() });
    }
    for kk in 1..=5 {
        for kind in 0..=6 {
            v.push(h!("C23", format!("flag-{kk}-{kind}"), Real, c23_flag, kk, kind).bound(format!("order {kk}, failure kind {kind}")));
        }
        v.push(h!("C24", format!("test-{kk}"), Real, c24, kk, 1).bound(format!("order {kk}, one component")));
        v.push(h!("C24", format!("accepted-{kk}"), Real, c24_step, kk).bound(format!("order {kk}, equal steps before, {} attempts", if kk > 2 { 1 } else { 2 })));
    }
    v.push(h!("C23", "first-step-2", Real, c23_step, 1, true, 2, 9).bound("first step, 1 convergence failure and 2 error test failures retried"));
    v.push(h!("C23", "step-1", Real, c23_step, 1, false, 2, 9).bound("later step, order 1, 1 convergence failure and 2 error test failures retried"));
    v.push(h!("C23", "step-2", Real, c23_step, 2, false, 2, 2).bound("later step, order 2, two attempts"));
    v.push(h!("C23", "step-2-all", Real, c23_step, 2, false, 2, 9).bound("later step, order 2, 1 convergence failure and 2 error test failures retried").thorough());
    v.push(h!("C23", "step-3", Real, c23_step, 3, false, 2, 2).bound("later step, order 3, two attempts").thorough());
    for kk in 2..=4 {
        let x = h!("C24", format!("test-{kk}-masked"), Real, c24, kk, 2).bound(format!("order {kk}, two components, any mask"));
        v.push(if kk < 4 { x } else { x.thorough() });
    }
    for (ku, kk, s) in interp::cases(5) {
        v.push(h!("C24", format!("ck-{ku}-{kk}-{s}"), Real, c24_ck, ku, kk, s));
    }
    for r in [false, true] {
        v.push(h!("C25", format!("step-{}", if r { "retry" } else { "plain" }), Real, c25_step, r));
        v.push(h!("C25", format!("stop-test-{}", if r { 2 } else { 1 }), Real, c25_tests, r));
    }
}
