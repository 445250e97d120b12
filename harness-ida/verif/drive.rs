//! the driver: what a call to solve() returns and leaves behind; the first step; the weights
use super::*;
use crate::error::IdaError;
use crate::{IdaSolveStatus, IdaTask};
use symx::h;

fn z<S: IS>() -> S {
    S::num(0.0)
}
fn between<S: IS>(a: f64, x: S, b: f64) {
    S::assume(C::Le(S::num(a), x).and(C::Le(x, S::num(b))));
}
fn is<T>(r: &Result<T, failure::Error>, f: impl Fn(&IdaError) -> bool) -> bool {
    match r {
        Ok(_) => false,
        Err(e) => e.downcast_ref::<IdaError>().map_or(false, |e| f(e)),
    }
}
/// the solution is a straight line (the corrector always answers zero)
struct Line<S> {
    t0: S,
    y0: S,
    yp0: S,
}
impl<S: IS> Line<S> {
    fn at(&self, t: S) -> S {
        self.y0 + self.yp0 * (t - self.t0)
    }
}
fn line<S: IS>(nr: usize, mx: u64) -> (I<S>, Line<S>, S) {
    let l = Line { t0: S::var("t0"), y0: S::var("y0"), yp0: S::var("yp0") };
    between(-1e3, l.t0, 1e3);
    between(-1e3, l.y0, 1e3);
    between(-1e3, l.yp0, 1e3);
    let p = Prob::<S>::new(1, nr);
    let mut i = ida(&p, &[l.y0], &[l.yp0], ones());
    let h = S::var("h");
    let back = S::flag("backwards");
    between(1e-3, if back { z::<S>() - h } else { h }, 1e3);
    i.nlp.ida_tn = l.t0;
    i.ida_hin = h;
    i.ida_mxstep = mx;
    (i, l, h)
}
/// any sequence of calls, in either mode, with or without a stop time
fn c26_calls<S: IS>(calls: usize, mx: u64, stop: bool, tasks: usize) {
    let (mut i, l, h) = line::<S>(0, mx);
    let mut ts = None;
    if stop {
        let t = S::var("tstop");
        between(-1e4, t, 1e4);
        i.ida_tstop = Some(t);
        ts = Some(t);
    }
    let mut reached = l.t0; // the furthest point reached
    for c in 0..calls {
        let tout = S::var(&format!("tout{c}"));
        between(-1e4, tout, 1e4);
        if c == 0 {
            // towards tout, not at once: C27
            S::assume(C::Le(S::num(1e-3), (tout - l.t0) * h));
            if let Some(t) = ts {
                S::assume(C::Le(S::num(1e-3), (t - l.t0) * h));
            }
        }
        let one = if tasks == 2 { S::flag("onestep") } else { tasks == 1 };
        let task = if one { IdaTask::OneStep } else { IdaTask::Normal };
        let (n0, last) = (i.counters.ida_nst, i.ida_tretlast);
        let mut tret = S::var("unset");
        let r = i.solve(tout, &mut tret, task);
        let (tn, n) = (i.nlp.ida_tn, i.counters.ida_nst - n0);
        S::observe("t", tn);
        S::check_b("at most mxstep steps", n as u64 <= mx);
        S::check_b("the counter is the number of steps", i.get_num_steps() == n0 + n);
        S::check("time only moves forward", C::Le(z(), (tn - reached) * h));
        if n == 0 {
            S::check("no step, no movement", C::Eq(tn, reached));
        } else {
            S::check("get_last_step reaches from inside", C::Le(z(), (tn - i.get_last_step() - reached) * h));
        }
        reached = tn;
        S::check("get_current_time", C::Eq(i.get_current_time(), tn));
        if let Some(t) = ts {
            S::check("never past the stop time", C::Le((tn - t) * h, z()));
        }
        let (yy, yp) = (i.get_yy().to_vec()[0], i.get_yp().to_vec()[0]);
        let solution = |t: S| {
            S::check("y returned is the solution at tret", C::Eq(yy, l.at(t)));
            S::check("y' returned is its derivative", C::Eq(yp, l.yp0));
        };
        match r {
            Ok(IdaSolveStatus::Success) if one => {
                S::check("one-step mode returns the time reached", C::Eq(tret, tn));
                S::check_b("after one step at most", n <= 1);
                if n == 0 {
                    S::check("without a step only if that time was not yet returned", C::Lt(z(), (tn - last) * h));
                }
                solution(tn);
            }
            Ok(IdaSolveStatus::Success) => {
                S::check("normal mode returns tout", C::Eq(tret, tout));
                S::check("which has been reached", C::Le(z(), (tn - tout) * h).or(C::Eq(tout, last).and(C::B(n == 0))));
                if n > 0 {
                    S::check("and not a step earlier", C::Lt((tn - i.get_last_step() - tout) * h, z()));
                }
                if c == 0 || n > 0 {
                    solution(tout);
                } else {
                    S::check("y returned is the solution at tret", C::Eq(yy, l.at(tout)));
                }
            }
            Ok(IdaSolveStatus::TStop) => match ts {
                None => S::fail("TStop without a stop time"),
                Some(t) => {
                    S::check("the stop time is returned", C::Eq(tret, t));
                    S::check("and has been reached", C::Le((tn - t).absv(), S::num(1e-9) * (tn.absv() + i.ida_hh.absv())));
                    S::check_b("once", i.ida_tstop.is_none());
                    solution(t);
                    ts = None;
                }
            },
            Ok(_) => S::fail("a status nobody asked for"),
            Err(_) if is(&r, |e| matches!(e, IdaError::IllegalInput { .. })) => {
                S::check_b("giving up only after mxstep steps", n as u64 == mx);
                S::check("short of tout", C::Lt((tn - tout) * h, z()).or(C::B(one)));
                S::check("the time reached is returned", C::Eq(tret, tn));
                solution(tn);
                // the next call carries on
            }
            Err(_) if is(&r, |e| matches!(e, IdaError::BadTimeValue { .. } | IdaError::BadStopTime { .. })) => {
                let before = C::Lt((tout - (tn - i.get_last_step())) * h, z());
                S::check_b("an impossible request costs no step", n == 0);
                S::check("refused only for a tout before the last step", before);
                return;
            }
            Err(_) => {
                S::fail("an unexpected error");
                return;
            }
        }
        S::check("tretlast", C::Eq(i.ida_tretlast, tret));
    }
}
/// with arbitrary corrections: the solution returned is the interpolant at tret
fn c26_interp<S: IS>(one: bool) {
    let (mut i, _l, h) = line::<S>(0, 1);
    let tout = S::var("tout");
    between(-1e4, tout, 1e4);
    S::assume(C::Le(S::num(1e-3), (tout - i.nlp.ida_tn) * h));
    i.nls.act = Box::new(move |c| {
        if c > 0 {
            S::prune();
        }
        Act::Give(vec![S::var("e")])
    });
    let mut tret = S::var("unset");
    let r = i.solve(tout, &mut tret, if one { IdaTask::OneStep } else { IdaTask::Normal });
    let (yy, yp) = (i.get_yy().to_vec(), i.get_yp().to_vec());
    S::observe("y", yy[0]);
    let mut d = Array1::from_vec(vec![z::<S>()]);
    let t = if r.is_ok() { tret } else { i.nlp.ida_tn };
    S::check_b("t is legal", i.get_dky(t, 0, &mut d).is_ok());
    S::check("y", C::Eq(d[0], yy[0]));
    S::check_b("t is legal", i.get_dky(t, 1, &mut d).is_ok());
    S::check("y'", C::Eq(d[0], yp[0]));
}
/// a step that fails: the error comes back with the solution at the last good point
fn c26_fail<S: IS>(after: usize) {
    let (mut i, l, h) = line::<S>(0, 5);
    let tout = S::var("tout");
    between(-1e4, tout, 1e4);
    S::assume(C::Le(S::num(1e-3), (tout - l.t0) * h));
    i.nls.act = Box::new(move |c| if c < after { Act::Give(vec![z()]) } else { Act::GiveFail(vec![S::num(3.0)], failure::err_msg("broken")) });
    let mut tret = S::var("unset");
    match i.solve(tout, &mut tret, IdaTask::Normal) {
        Ok(_) => {
            S::check("success only by reaching tout", C::Le(z(), (i.nlp.ida_tn - tout) * h));
            S::check_b("and before the failure", i.counters.ida_nst <= after);
        }
        Err(e) => {
            S::check_b("the error is passed on", format!("{}", e).contains("broken"));
            S::check_b("one attempt", i.nls.calls.len() == after + 1);
            S::check("the time reached is returned", C::Eq(tret, i.nlp.ida_tn));
            S::check("y is the solution there", C::Eq(i.get_yy().to_vec()[0], l.at(tret)));
            S::check("y' is the derivative there", C::Eq(i.get_yp().to_vec()[0], l.yp0));
            S::check_b("steps", i.counters.ida_nst == after);
        }
    }
}
/// bad weights and impossible accuracy stop the integration before the step
fn c26_weights<S: IS>(later: bool) {
    let (l0, l1) = (S::var("y0"), S::var("yp0"));
    between(-1e30, l0, 1e30);
    between(-1.0, l1, 1.0);
    let p = Prob::<S>::new(2, 0);
    let w = S::vars("w", 2);
    for x in &w {
        between(-1e3, *x, 1e3);
    }
    let w2 = w.clone();
    let cnt = Rc::new(RefCell::new(0));
    let c2 = cnt.clone();
    let tol = Tol {
        f: Box::new(move |_| {
            *c2.borrow_mut() += 1;
            if later && *c2.borrow() == 1 {
                vec![S::num(1e-20); 2]
            } else {
                w2.clone()
            }
        }),
    };
    let mut i = ida(&p, &[l0, z()], &[l1, z()], tol);
    i.ida_hin = S::num(1.0);
    let mut tret = z();
    if later {
        S::check_b("first step", i.solve(S::num(10.0), &mut tret, IdaTask::OneStep).is_ok());
    }
    let n0 = i.nls.calls.len();
    let good = C::all(w.iter().map(|x| C::Lt(z(), *x)));
    let y = if later { l0 + l1 } else { l0 };
    let nrm = y.absv() * w[0].absv();
    // eps * |y w| / sqrt(2) > 1
    let lim = S::num(f64::EPSILON) * nrm;
    let fine = C::Le(lim * lim, S::num(2.0));
    let r = i.solve(S::num(10.0), &mut tret, IdaTask::OneStep);
    if i.nls.calls.len() > n0 {
        S::check("a step is only tried with positive weights", good);
        S::check("and with an attainable accuracy", fine);
        return;
    }
    S::check_b("refusing is an error", r.is_err());
    let much = is(&r, |e| matches!(e, IdaError::TooMuchAccuracy { .. }));
    if much {
        S::check("TooMuchAccuracy only if the tolerances are below the roundoff of y", fine.not());
        let s = i.get_tol_scale_factor();
        S::check("the suggested factor makes them attainable", C::Eq(s * s * S::num(2.0), S::num(100.0) * (lim * lim)));
    } else {
        S::check("refused only for a weight that is not positive", good.not());
    }
    S::check("the time reached is returned", C::Eq(tret, i.nlp.ida_tn).or(C::B(!later)));
}
/// in double precision, with the library's own tolerances: no step with weights that are not
/// positive and finite
fn c26_tol<S: IS>(vector: bool) {
    let (rt, at, y) = (S::var("rtol"), S::var("atol"), S::var("y0"));
    let p = Prob::<S>::new(1, 0);
    S::assume(C::finite(rt).and(C::finite(at)).and(C::finite(y)));
    fn go<S: IS, T: TolControl<S>>(p: &Prob<S>, y: S, t: T) -> (bool, bool, S) {
        ls_reset::<S>(LSolverType::Direct);
        let mut i: Ida<Prob<S>, Ls, Nls<S>, T> = Ida::new(p.clone(), Array::from_vec(vec![y]), Array::from_vec(vec![S::num(0.0)]), t);
        i.ida_hin = S::num(1.0);
        i.nls.act = Box::new(|_| Act::Fail(failure::err_msg("stop")));
        let mut tret = S::num(0.0);
        let r = i.solve(S::num(10.0), &mut tret, IdaTask::OneStep);
        (i.nls.calls.len() > 0, r.is_err(), i.nlp.ida_ewt[0])
    }
    let (tried, err, w) = if vector {
        go(&p, y, crate::tol_control::TolControlSV::new(rt, Array::from_vec(vec![at])))
    } else {
        go(&p, y, crate::tol_control::TolControlSS::new(rt, at))
    };
    if tried {
        S::check("positive", C::Lt(S::num(0.0), w));
        S::check("finite", C::finite(w));
    } else {
        S::check_b("an error otherwise", err);
    }
}
/// the first step: direction, size, limits
fn c27<S: IS>(n: usize, hin: bool, stop: bool) {
    let p = Prob::<S>::new(n, 0);
    let (y0, yp0, w) = (S::vars("y", n), S::vars("yp", n), S::vars("w", n));
    for j in 0..n {
        between(-1.0, y0[j], 1.0);
        S::assume(C::Lt(z(), w[j]));
        between(0.0, w[j], 1e3);
    }
    let w2 = w.clone();
    let mut i = ida(&p, &y0, &yp0, Tol { f: Box::new(move |_| w2.clone()) });
    let mask: Vec<bool> = (0..n).map(|q| n > 1 && S::flag(&format!("id{q}"))).collect();
    let sup = n > 1 && S::flag("suppressalg");
    i.ida_suppressalg = sup;
    i.ida_id = Array1::from_vec(mask.clone());
    let (t0, tout, hm) = (S::var("t0"), S::var("tout"), S::var("hmax_inv"));
    S::assume(C::Le(z(), hm));
    i.nlp.ida_tn = t0;
    i.ida_hmax_inv = hm;
    let h = if hin { S::var("hin") } else { z() };
    i.ida_hin = h;
    let ts = S::var("tstop");
    if stop {
        i.ida_tstop = Some(ts);
    }
    i.nls.act = Box::new(|_| Act::Fail(failure::err_msg("broken")));
    let mut tret = z();
    let r = i.solve(tout, &mut tret, if S::flag("onestep") { IdaTask::OneStep } else { IdaTask::Normal });
    S::check_b("an error either way", r.is_err());
    let d = tout - t0;
    let near = C::Eq(d, z()).or(C::Lt(d.absv(), S::num(2.0 * f64::EPSILON) * (t0.absv() + tout.absv())));
    let wrong = C::Lt(d * h, z());
    let behind = if stop { C::Le((ts - t0) * d, z()) } else { C::B(false) };
    if i.nls.calls.is_empty() {
        S::check_b("refused as illegal input", is(&r, |e| matches!(e, IdaError::IllegalInput { .. })));
        S::check("refused only if tout is at t0, the step points away, or the stop time lies behind", near.or(wrong).or(behind));
        return;
    }
    S::check("started only with tout away from t0", near.not());
    S::check("started only towards tout", wrong.not());
    S::check("started only with the stop time ahead", behind.not());
    let h0 = i.get_actual_init_step();
    S::observe("h0", h0);
    S::check("towards tout", C::Lt(z(), h0 * d));
    S::check("at most hmax", C::Le(h0.absv() * hm, S::num(1.0)));
    if stop {
        S::check("not past the stop time", C::Le((t0 + h0 - ts) * h0, z()));
    }
    for j in 0..n {
        S::check("the first difference is h y'", C::Eq(i.ida_phi[[1, j]], h0 * yp0[j]));
        S::check("y is the initial value", C::Eq(i.ida_phi[[0, j]], y0[j]));
    }
    // what it would be without limits
    let capped = C::Eq(h0.absv() * hm, S::num(1.0));
    let capped = if stop { capped.or(C::Le((t0 + h0 - ts).absv(), S::num(1e-14) * (ts - t0).absv())) } else { capped };
    if hin {
        S::check("the user's step, unless zero", C::Eq(h0, h).or(C::Eq(h, z())).or(capped.clone()));
        S::check("never longer than the user's step", C::Le(h0.absv(), h.absv()).or(C::Eq(h, z())));
        S::assume(C::Eq(h, z()));
    }
    let mut s = z::<S>();
    for q in 0..n {
        if !sup || mask[q] {
            s = s + yp0[q] * w[q] * (yp0[q] * w[q]);
        }
    }
    // 4 h^2 |y'|^2 <= 1
    let q = S::num(4.0) * (h0 * h0) * (s / S::num(n as f64));
    let big = S::num(0.001) * d.absv();
    S::check("at most a thousandth of the way", C::Le(h0.absv(), big));
    S::check("y moves by half a tolerance at most", C::Le(q, S::num(1.0)));
    S::check("the largest such step", C::Eq(h0.absv(), big).or(C::Eq(q, S::num(1.0))).or(capped));
}

pub fn register(v: &mut Vec<Harness>) {
    v.push(h!("C26", "normal", Real, c26_calls, 2, 2, false, 0).bound("two calls, at most 2 steps each"));
    v.push(h!("C26", "one-step", Real, c26_calls, 2, 1, false, 1).bound("two calls"));
    v.push(h!("C26", "mixed", Real, c26_calls, 2, 2, false, 2).bound("two calls, at most 2 steps each"));
    v.push(h!("C26", "stop-time", Real, c26_calls, 1, 2, true, 2).bound("one call, at most 2 steps"));
    v.push(h!("C26", "stop-time-2", Real, c26_calls, 2, 1, true, 2).bound("two calls, at most 1 step each"));
    v.push(h!("C25", "once", Real, c26_calls, 1, 2, true, 2).bound("one call, at most 2 steps"));
    v.push(h!("C25", "once-2", Real, c26_calls, 2, 1, true, 2).bound("two calls, at most 1 step each"));
    v.push(h!("C26", "mixed-3", Real, c26_calls, 3, 2, false, 2).bound("three calls, at most 2 steps each").thorough());
    v.push(h!("C26", "stop-time-3", Real, c26_calls, 3, 1, true, 2).bound("three calls, at most 1 step each").thorough());
    for a in 0..3 {
        v.push(h!("C26", format!("failure-after-{a}"), Real, c26_fail, a));
    }
    for one in [false, true] {
        v.push(h!("C26", format!("interpolant-{}", if one { "one-step" } else { "normal" }), Real, c26_interp, one).bound("first step, one attempt, any correction"));
    }
    v.push(h!("C31", "weights-first", Real, c26_weights, false));
    v.push(h!("C31", "weights-later", Real, c26_weights, true));
    v.push(h!("C31", "tolerances-scalar", Fp, c26_tol, false));
    v.push(h!("C31", "tolerances-vector", Fp, c26_tol, true));
    for hin in [false, true] {
        for stop in [false, true] {
            v.push(h!("C27", format!("first-{}{}", if hin { "user" } else { "auto" }, if stop { "-stop" } else { "" }), Real, c27, 1, hin, stop));
        }
    }
    v.push(h!("C27", "first-masked", Real, c27, 2, false, false).bound("two components, any mask"));
}
