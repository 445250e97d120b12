# Planted bugs in /repo/src (the integrator)
L, CS, SO, ST, RC, NL, LS, IO = ("src/" + f for f in (
    "lib.rs", "impl_complete_step.rs", "impl_solve.rs", "impl_stop_test.rs", "impl_r_check.rs", "ida_nls.rs", "ida_ls.rs", "ida_io.rs"))
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, ida=demo))

bug("c01-derivative-at-tn", "C16", [(L, """        let kord = if self.ida_kused == 0 {
            1
""", """        let kord = if self.ida_kused == 0 || t == self.nlp.ida_tn {
            1
""")], "a step of order 2 or more, and a call of get_solution exactly at the end of it",
"get_solution at t = tn returns y' of the linear interpolant instead of the derivative of the interpolating polynomial", """
pub fn main() {
    let mut s = ida(osc(), &[1.0, 0.0], &[0.0, -1.0], 1e-5, 1e-7);
    let mut t = 0.0;
    for _ in 0..30 {
        s.solve(10.0, &mut t, IdaTask::OneStep).unwrap();
        let tn = s.get_current_time();
        let mut d = Array::zeros(2);
        s.get_dky(tn, 1, &mut d).unwrap();
        s.get_solution(tn).unwrap();
        check(near(s.get_yp()[0], d[0], 1e-7) && near(s.get_yp()[1], d[1], 1e-7), "y' at tn");
    }
}
""")
bug("c02-dky-recurrence-factor", "C17", [(L, "(scalar_i * cjk_1[j - 1] + cjk[j - 1] * (delt + psij_1))", "(cjk_1[j - 1] + cjk[j - 1] * (delt + psij_1))")],
"a second or higher derivative of an interpolant whose order is above the derivative's",
"get_dky drops the factor i of the product rule: derivatives from the second on are wrong when k < kused", """
pub fn main() {
    let mut s = ida(osc(), &[1.0, 0.0], &[0.0, -1.0], 1e-6, 1e-8);
    let mut t = 0.0;
    while s.get_last_order() < 4 {
        s.solve(10.0, &mut t, IdaTask::OneStep).unwrap();
    }
    let (tn, h) = (s.get_current_time(), s.get_last_step());
    // the second derivative as the difference quotient of the first (exact for the mean of a polynomial up to h^2)
    let f = |s: &mut I, k: usize, t: f64| {
        let mut d = Array::zeros(2);
        s.get_dky(t, k, &mut d).unwrap();
        d[0]
    };
    let e = 1e-3 * h;
    let m = tn - 0.15 * h;
    let q = (f(&mut s, 1, m + e) - f(&mut s, 1, m - e)) / (2.0 * e);
    check(near(f(&mut s, 2, m), q, 1e-5), "second derivative");
}
""")
bug("c03-fuzz-sign-backward", "C18", [(L, """        // Check t for legality.  Here tn - hused is t_{n-1}.

        let tfuzz = P::Scalar::hundred()
            * P::Scalar::epsilon()
            * (self.nlp.ida_tn.abs() + self.ida_hh.abs())
            * self.ida_hh.signum();
        let tp = self.nlp.ida_tn - self.ida_hused - tfuzz;
        if (t - tp) * self.ida_hh < P::Scalar::zero() {""", """        // Check t for legality.  Here tn - hused is t_{n-1}.

        let tfuzz = P::Scalar::hundred()
            * P::Scalar::epsilon()
            * (self.nlp.ida_tn.abs() + self.ida_hh.abs());
        let tp = self.nlp.ida_tn - self.ida_hused - tfuzz;
        if (t - tp) * self.ida_hh < P::Scalar::zero() {""")],
"integration towards smaller t, and get_dky at the start of the last step",
"get_dky refuses the start of the last step when integrating backwards: the roundoff allowance has the wrong sign", """
pub fn main() {
    let mut s = ida(osc(), &[1.0, 0.0], &[0.0, -1.0], 1e-5, 1e-7);
    let mut t = 0.0;
    for _ in 0..10 {
        let t0 = s.get_current_time();
        s.solve(-10.0, &mut t, IdaTask::OneStep).unwrap();
        let mut d = Array::zeros(2);
        check(s.get_dky(t0, 1, &mut d).is_ok(), "start of the step refused");
    }
}
""")
bug("c04-coefficients-one-step-early", "C19", [(L, "if self.ida_kk + 1 >= self.ida_ns {", "if self.ida_kk >= self.ida_ns {")],
"k+1 equal steps after a change of the step size",
"the coefficients are taken as settled one step too early: psi, alpha and sigma of index k keep the values of the unequal steps", """
pub fn main() {
    let mut s = ida(osc(), &[1.0, 0.0], &[0.0, -1.0], 1e-4, 1e-6);
    let mut t = 0.0;
    let mut ts = vec![0.0];
    for _ in 0..120 {
        s.solve(100.0, &mut t, IdaTask::OneStep).unwrap();
        ts.push(s.get_current_time());
        let (k, n) = (s.ida_kused, ts.len() - 1);
        for j in 0..=k {
            if n > j {
                check(near(s.ida_psi[j] / (ts[n] - ts[n - 1 - j]), 1.0, 1e-6), "psi is not the distance to the earlier point");
            }
        }
    }
}
""")
bug("c05-time-undone-by-subtraction", "C20", [(L, "        self.nlp.ida_tn = saved_t;\n", "        self.nlp.ida_tn -= self.ida_hh;\n")],
"a failed attempt whose end was clamped to the stop time, or whose tn + hh was rounded",
"after a failed attempt the time is not the one before it: the clamp to tstop and the rounding are not undone", """
pub fn main() {
    // a step that passes the stop time by roundoff, and fails
    let mut s = ida(ramp(), &[0.0], &[1.0], 1e-3, 1e-6);
    let mut t = 0.0;
    s.solve(0.3, &mut t, IdaTask::OneStep).unwrap();
    s.solve(0.3, &mut t, IdaTask::OneStep).unwrap();
    for n in 1..2000 {
        let t0 = s.nlp.ida_tn;
        s.ida_hh = 1e-3 * (n as f64) / 7.0;
        s.nls.plan.extend((0..10).map(|_| Err(())));
        check(s.step().is_err(), "no error");
        check(s.nlp.ida_tn == t0, "time after the failed step");
        s.nlp.ida_tn = t0 + 1e-4 * (n as f64) / 3.0;
    }
}
""")
bug("c06-difference-kept-only-for-a-raise", "C22", [(CS, "if self.ida_kused < self.ida_maxord {", "if self.ida_kk > self.ida_kused {")],
"after start-up: k+2 equal steps, then the decision whether to raise the order",
"the difference of order k+1 is not saved when the order stays, so the error at order k+1 is estimated from an old one", """
pub fn main() {
    // six steps of 0.1 and order 1 after start-up: the difference of order 2 must be that of the last points
    let mut s = ida(decay(), &[1.0], &[-1.0], 1e-2, 1e-2);
    let mut t = 0.0;
    s.solve(5.0, &mut t, IdaTask::OneStep).unwrap();
    let mut ys = vec![];
    for _ in 0..6 {
        s.ida_phase = 1;
        s.ida_maxord = 5;
        s.ida_kk = 1;
        s.ida_hh = 0.1;
        s.step().unwrap();
        ys.push(s.ida_phi[[0, 0]]);
    }
    let n = ys.len();
    let dd = ys[n - 1] - 2.0 * ys[n - 2] + ys[n - 3];
    check(near(s.ida_phi[[2, 0]], dd, 1e-9), "difference of order k+1");
}
""")
bug("c07-hmax-backward", "C22", [(CS, """            if self.ida_rr >= P::Scalar::two() {
                hnew = P::Scalar::two() * self.ida_hh;
                let tmp = hnew.abs() * self.ida_hmax_inv;""", """            if self.ida_rr >= P::Scalar::two() {
                hnew = P::Scalar::two() * self.ida_hh;
                let tmp = hnew * self.ida_hmax_inv;""")],
"a maximum step size, integration towards smaller t, and doubling of the step after start-up",
"the step is doubled beyond the maximum step size when integrating backwards", """
pub fn main() {
    let mut s = ida(decay(), &[1.0], &[-1.0], 1e-2, 1e-2);
    s.ida_hmax_inv = 2.0;
    let mut t = 0.0;
    s.solve(-100.0, &mut t, IdaTask::OneStep).unwrap();
    s.ida_phase = 1;
    for _ in 0..40 {
        let (k, e) = (s.ida_kk, 1e-9);
        s.ida_knew = k;
        s.complete_step(e, e);
        check(s.ida_hh.abs() <= 0.5 * (1.0 + 1e-12), "step above hmax");
    }
}
""")
bug("c08-lowered-order-old-estimate", "C22", [(CS, """                Action::Lower => {
                    self.ida_kk -= 1;
                    err_km1
                }
                _ => err_k,""", """                Action::Lower => {
                    self.ida_kk -= 1;
                    err_k
                }
                _ => err_k,""")],
"a step after start-up after which the order is lowered",
"the step size after lowering the order is chosen from the error at the old order", """
pub fn main() {
    let mut s = ida(decay(), &[1.0], &[-1.0], 1e-2, 1e-2);
    s.nlp.ida_ewt = Array::from(vec![1.0]);
    s.ida_kk = 3;
    s.ida_kused = 3;
    s.ida_knew = 2;
    s.ida_phase = 1;
    s.ida_hh = 1.0;
    s.complete_step(0.4, 0.01);
    check(s.ida_kk == 2 && s.ida_hh == 2.0, "step after lowering the order");
}
""")
bug("c09-order-lowered-before-estimate", "C23", [(L, """                            let err_knew = if self.ida_kk == self.ida_knew {
                                err_k
                            } else {
                                err_km1
                            };

                            self.ida_kk = self.ida_knew;
""", """                            self.ida_kk = self.ida_knew;
                            let err_knew = if self.ida_kk == self.ida_knew {
                                err_k
                            } else {
                                err_km1
                            };

""")],
"the first error test failure of a step of order 2 or more for which a lower order is suggested",
"the retry's step size is chosen from the error at the old order although the order is lowered", """
pub fn main() {
    let mut s = ida(decay(), &[1.0], &[-1.0], 1e-2, 1e-2);
    s.ida_kk = 3;
    s.ida_knew = 2;
    s.ida_hh = 1.0;
    let (mut a, mut b) = (0, 0);
    check(s.handle_n_flag(failure::Error::from(IdaError::TestFail), 8.0, 0.5, &mut a, &mut b).is_ok(), "gave up");
    let want = 0.9 * (2.0f64 * 0.5 + 0.0001).powf(-1.0 / 3.0);
    check(s.ida_kk == 2 && near(s.ida_hh, want, 1e-9), "step of the retry");
}
""")
bug("c10-failures-counted-together", "C23", [(L, "                        if *ncf_ptr < self.ida_maxncf {", "                        if *ncf_ptr + *nef_ptr < self.ida_maxncf {")],
"error test failures and convergence failures within one step, fewer than ten of each but ten together",
"a step is given up with ConvergenceFail before maxncf convergence failures have occurred", """
pub fn main() {
    let mut s = ida(decay(), &[1.0], &[-1.0], 1e-2, 1e-2);
    s.ida_kk = 1;
    s.ida_knew = 1;
    s.ida_hh = 1.0;
    let (mut a, mut b) = (0, 0);
    for _ in 0..3 {
        check(s.handle_n_flag(failure::Error::from(IdaError::TestFail), 8.0, 0.5, &mut a, &mut b).is_ok(), "gave up");
    }
    for _ in 0..9 {
        let e = failure::Error::from(crate::nonlinear::Error::ConvergenceRecover {});
        check(s.handle_n_flag(e, 0.0, 0.0, &mut a, &mut b).is_ok(), "gave up before maxncf");
    }
}
""")
bug("c11-error-two-orders-below", "C24", [(L, """                self.ida_delta += &self.ida_phi.index_axis(Axis(0), self.ida_kk - 1);
""", """                self.ida_delta = &self.ida_phi.index_axis(Axis(0), self.ida_kk - 1) + &self.ida_ee;
""")],
"a step of order 3 or more whose differences of order k and k-1 partly cancel",
"the error estimate two orders below omits a difference, so the order is lowered (or not) against the rule", """
pub fn main() {
    let mut s = ida(decay(), &[1.0], &[-1.0], 1e-2, 1e-2);
    s.nlp.ida_ewt = Array::from(vec![1.0]);
    s.ida_kk = 3;
    s.ida_sigma = Array::from(vec![1.0, 0.5, 1.0 / 3.0, 0.25, 0.2, 1.0 / 6.0]);
    s.ida_phi[[2, 0]] = -3.0;
    s.ida_phi[[3, 0]] = 2.9;
    s.ida_ee[0] = 0.1;
    // order k: 4 * 0.25 * 0.1; k-1: 3/3 * 3; two below: 2 * 0.5 * 0
    s.test_error(0.25).ok();
    check(s.ida_knew == 3, "order kept");
    s.ida_phi[[2, 0]] = 0.0;
    s.ida_phi[[3, 0]] = -0.1;
    s.test_error(0.25).ok();
    check(s.ida_knew == 2, "order lowered");
    s.ida_phi[[2, 0]] = -0.09;
    s.ida_phi[[3, 0]] = -0.01;
    s.test_error(0.25).ok();
    check(s.ida_knew == 2, "order lowered, differences cancel");
    s.ida_phi[[2, 0]] = 0.05;
    s.ida_phi[[3, 0]] = -0.195;
    s.ida_ee[0] = 0.1;
    s.test_error(0.25).ok();
    check(s.ida_knew == 2, "order lowered, small sum");
}
""")
bug("c12-two-below-unmasked", "C24", [(L, """                let enorm_km2 =
                    self.wrms_norm(&self.ida_delta, &self.nlp.ida_ewt, self.ida_suppressalg);""", """                let enorm_km2 =
                    self.wrms_norm(&self.ida_delta, &self.nlp.ida_ewt, false);""")],
"algebraic variables suppressed, order 3 or more, and a large algebraic component",
"algebraic variables count in the estimate two orders below although they are suppressed", """
pub fn main() {
    let mut s = ida(dae(), &[1.0, 2.0], &[-1.0, -2.0], 1e-2, 1e-2);
    s.nlp.ida_ewt = Array::from(vec![1.0, 1.0]);
    s.ida_suppressalg = true;
    s.ida_id = Array::from(vec![true, false]);
    s.ida_kk = 3;
    s.ida_sigma = Array::from(vec![1.0, 0.5, 1.0 / 3.0, 0.25, 0.2, 1.0 / 6.0]);
    s.ida_phi[[2, 1]] = 1000.0;
    s.ida_ee[0] = 0.1;
    s.ida_phi[[3, 0]] = -0.1;
    s.test_error(0.25).ok();
    check(s.ida_knew == 2, "the algebraic component must not count");
}
""")
bug("c15-failed-step-leaves-iterate", "C26", [(SO, """                let ier = self.get_solution(self.nlp.ida_tn);
                match ier {
                    Ok(_) => {
                        *tret = self.nlp.ida_tn;
                        self.ida_tretlast = self.nlp.ida_tn;
                    }
                    Err(e2) => {
                        error!("Error occured with get_solution: {:?}", e2.as_fail());
                    }
                }
""", """                *tret = self.nlp.ida_tn;
                self.ida_tretlast = self.nlp.ida_tn;
""")],
"a step that is given up",
"after a failed step y and y' are those of the last attempt, not the solution at the time returned", """
pub fn main() {
    let mut s = ida(decay(), &[1.0], &[-1.0], 1e-3, 1e-3);
    let mut t = 0.0;
    for _ in 0..6 {
        s.solve(50.0, &mut t, IdaTask::OneStep).unwrap();
    }
    let (t0, y0) = (t, s.get_yy()[0]);
    s.nls.plan.extend((0..10).map(|_| Err(())));
    check(s.solve(50.0, &mut t, IdaTask::OneStep).is_err(), "no error");
    check(t == t0, "time");
    check(near(s.get_yy()[0], y0, 1e-12), "y at the time returned");
}
""")
bug("c16-mxstep-over-all-calls", "C26", [(SO, "if (self.ida_mxstep > 0) && (nstloc >= self.ida_mxstep) {", "if (self.ida_mxstep > 0) && (self.counters.ida_nst as u64 >= self.ida_mxstep) {")],
"more than mxstep steps over several calls",
"the step limit counts the steps of all calls, so a call after an mxstep error never carries on", """
pub fn main() {
    let mut s = ida(osc(), &[1.0, 0.0], &[0.0, -1.0], 1e-5, 1e-7);
    s.ida_mxstep = 20;
    let mut t = 0.0;
    let e = s.solve(20.0, &mut t, IdaTask::Normal);
    check(e.is_err(), "mxstep");
    let t1 = t;
    let _ = s.solve(20.0, &mut t, IdaTask::Normal);
    check(t > t1 && s.get_num_steps() == 40, "the next call must carry on");
}
""")
bug("c17-returned-iterate-behind", "C26", [(L, """        self.nlp.ida_yy = &self.nlp.ida_yypredict + &self.ida_ee;
        //N_VLinearSum( ONE, self.ida_yppredict, self.ida_cj, self.ida_ee, self.ida_yp,);
        //self.ida_yp = &self.ida_yppredict + (&self.ida_ee * self.ida_cj);
        self.nlp.ida_yp.assign(&self.nlp.ida_yppredict);
        self.nlp.ida_yp.scaled_add(self.nlp.lp.ida_cj, &self.ida_ee);
""", """        // (the residual function has left them in yy and yp)
""")],
"one-step mode, where y and y' are returned without interpolation",
"y and y' returned after a step are those of the last residual evaluation, one correction behind the solution", """
pub fn main() {
    let mut s = ida(decay(), &[1.0], &[-1.0], 1e-2, 1e-2);
    let mut t = 0.0;
    for _ in 0..10 {
        s.solve(50.0, &mut t, IdaTask::OneStep).unwrap();
        let y = s.get_yy()[0];
        s.get_solution(t).unwrap();
        check(near(y, s.get_yy()[0], 1e-12), "y returned by the step");
    }
}
""")
bug("c18-hmax-not-for-user-step", "C27", [(SO, """            let rh = (self.ida_hh).abs() * self.ida_hmax_inv;
            if rh > P::Scalar::one() {
                self.ida_hh /= rh;
            }
""", """            let rh = (self.ida_hh).abs() * self.ida_hmax_inv;
            if self.ida_hin == P::Scalar::zero() && rh > P::Scalar::one() {
                self.ida_hh /= rh;
            }
""")],
"a user's initial step and a maximum step below it",
"the user's initial step is taken although it is above the maximum step size", """
pub fn main() {
    let mut s = ida(ramp(), &[0.0], &[1.0], 1e-2, 1e-2);
    s.ida_hin = 0.5;
    s.ida_hmax_inv = 10.0;
    let mut t = 0.0;
    s.solve(50.0, &mut t, IdaTask::OneStep).unwrap();
    check(s.get_actual_init_step() <= 0.1 * (1.0 + 1e-12), "first step above hmax");
}
""")
bug("c19-steepest-at-start-only", "C28", [(RC, "            imax_loop = imax;\n\n            if sgnchg {\n                // Sign change found in (tlo,tmid)", "            if sgnchg {\n                // Sign change found in (tlo,tmid)"),
 (RC, "let (zroot, sgnchg, _maxfrac, imax) = ndarray::Zip::indexed(self.ida_gactive.view())\n                .and(self.ida_grout.view())", "let (zroot, sgnchg, _maxfrac, _imax) = ndarray::Zip::indexed(self.ida_gactive.view())\n                .and(self.ida_grout.view())")],
"two root functions that cross zero in the same step, the one with the smaller relative value at the end first",
"the secant point is computed from a function that no longer changes sign in the bracket: probes leave the bracket and the root reported is not the earliest", """
pub fn main() {
    let p = ramp().roots(2, |t, _, _| vec![t - 0.11, if t < 0.5 { -1e-3 * (1.0 + t) } else { (t - 0.5) * 100.0 }]);
    let mut s = ida(p, &[0.0], &[1.0], 1e-2, 1e-2);
    s.ida_hin = 0.1;
    let mut t = 0.0;
    s.solve(1.0, &mut t, IdaTask::OneStep).unwrap();
    let t0 = t;
    s.ida_hh = 0.9;
    s.nlp.lp.problem.log.borrow_mut().g.clear();
    check(s.solve(1.0, &mut t, IdaTask::OneStep).unwrap() == IdaSolveStatus::Root, "root");
    let i = s.get_root_info().to_owned();
    check(near(t, 0.11, 1e-9) && i[0] == 1.0 && i[1] == 0.0, "earliest root");
    let t1 = s.get_current_time();
    check(s.nlp.lp.problem.log.borrow().g.iter().all(|g| g.0 >= t0 && g.0 <= t1), "probe outside the step");
}
""")
bug("c20-root-flags-kept", "C28", [(RC, """            .apply(|iroots, &ghi, &glo, &gactive, &rootdir| {
                *iroots = P::Scalar::zero();

                if gactive {""", """            .apply(|iroots, &ghi, &glo, &gactive, &rootdir| {
                if gactive {""")],
"a root at which one function is exactly zero, followed in the same step by a root of another function",
"get_root_info still names the function of the previous root", """
pub fn main() {
    let p = ramp().roots(2, |t, _, _| vec![t - 0.5, t - 0.625]);
    let mut s = ida(p, &[0.0], &[1.0], 1e-2, 1e-2);
    s.ida_hin = 0.25;
    let mut t = 0.0;
    s.solve(0.25, &mut t, IdaTask::Normal).unwrap();
    s.ida_hh = 0.5;
    s.nls.plan.push_back(Ok(vec![0.0]));
    check(s.solve(2.0, &mut t, IdaTask::Normal).unwrap() == IdaSolveStatus::Root && near(t, 0.5, 1e-12), "first root");
    let z = s.ida_glo[0];
    check(s.solve(2.0, &mut t, IdaTask::Normal).unwrap() == IdaSolveStatus::Root && near(t, 0.625, 1e-9), "second root");
    let i = s.get_root_info().to_owned();
    println!("g at the first root {:e}, info {:?}", z, i);
    check(i[0] == 0.0 && i[1] == 1.0, "root info");
}
""")
bug("c21-ratio-after-setup", "C29", [(NL, "        self.lp.ida_cjratio = P::Scalar::one();\n", "")],
"a setup in a step whose cj differs from that of the last setup",
"after a setup the first solves are scaled by 2/(1+cjratio) of the old matrix although the matrix is current", """
use crate::nonlinear::NLProblem;
pub fn main() {
    let mut s = ida(decay(), &[1.0], &[-1.0], 1e-2, 1e-2);
    s.nlp.lp.ida_cj = 4.0;
    s.nlp.lp.ida_cjold = 1.0;
    s.nlp.lp.ida_cjratio = 4.0;
    let z = Array::zeros(1);
    s.nlp.setup(z.view(), z.view(), false).unwrap();
    let mut d = Array::from(vec![10.0]);
    s.nlp.solve(z.view(), d.view_mut()).unwrap();
    check(near(d[0], 2.0, 1e-12), "solution of the current system");
}
""")
bug("c22-matrix-not-cleared", "C29", [(LS, "            self.mat_j.fill(P::Scalar::zero());\n", "")],
"a second Jacobian evaluation by a routine that sets the nonzero entries only",
"the Jacobian routine gets the factors of the previous matrix instead of zeros", """
pub fn main() {
    let p = Pb::new(3, |_, y, yp| vec![yp[0] + y[0] + y[1] + y[2], yp[1] + y[0], yp[2] + y[0]], |_, cj, _, _| vec![vec![cj + 1.0, 1.0, 1.0], vec![1.0, cj, 0.0], vec![1.0, 0.0, cj]]);
    let mut s = ida(p, &[1.0, 0.0, 0.0], &[-1.0, -1.0, 0.0], 1e-4, 1e-6);
    let z = Array::zeros(3);
    for cj in [2.0, 3.0, 5.0].iter() {
        s.nlp.lp.ida_cj = *cj;
        s.nlp.lp.ida_cjratio = 1.0;
        s.nlp.lp.setup(0.0, z.view(), z.view(), z.view()).unwrap();
        let mut d = Array::from(vec![1.0, 2.0, 3.0]);
        s.nlp.lp.solve(d.view_mut(), z.view(), z.view(), z.view(), z.view()).unwrap();
        let j = [[cj + 1.0, 1.0, 1.0], [1.0, *cj, 0.0], [1.0, 0.0, *cj]];
        for i in 0..3 {
            let r: f64 = (0..3).map(|k| j[i][k] * d[k]).sum();
            check(near(r, (i + 1) as f64, 1e-9), "solution of the system with the current Jacobian");
        }
    }
}
""")
bug("c23-rate-of-last-two", "C30", [(NL, "            self.ida_ss = rate / (P::Scalar::one() - rate);\n", "            self.ida_ss = rate / (P::Scalar::one() - rate);\n            self.ida_oldnrm = delnrm;\n")],
"three or more Newton iterations",
"the convergence rate is the m-th root of the ratio of the last two corrections instead of the last to the first", """
use crate::nonlinear::NLProblem;
pub fn main() {
    let mut s = ida(decay(), &[1.0], &[-1.0], 1e-2, 1e-2);
    #[derive(Clone)]
    struct At(usize);
    impl crate::nonlinear::NLSolver<Pb> for At {
        fn new(_: usize, _: usize) -> Self { At(0) }
        fn solve<N, A, B, C>(&mut self, _: &mut N, _: ArrayBase<A, Ix1>, _: ArrayBase<B, Ix1>, _: ArrayBase<C, Ix1>, _: f64, _: bool) -> Result<(), failure::Error>
        where N: NLProblem<Pb>, A: ndarray::Data<Elem = f64>, B: ndarray::DataMut<Elem = f64>, C: ndarray::Data<Elem = f64> { Ok(()) }
        fn get_num_iters(&self) -> usize { 0 }
        fn get_cur_iter(&self) -> usize { self.0 }
    }
    s.nlp.ida_ss = 20.0;
    let w = Array::from(vec![1.0]);
    let mut ok = vec![];
    for (m, d) in [1.0, 0.5, 0.27, 0.12].iter().enumerate() {
        let d = Array::from(vec![*d]);
        ok.push(s.nlp.ctest(&At(m), w.view(), d.view(), 0.2, w.view()).ok());
    }
    // rates 0.5, 0.5196, 0.4932: ss*del = 0.5, 0.292, 0.1168
    check(ok == [Some(false), Some(false), Some(false), Some(true)], "convergence test");
}
""")
bug("c24-no-renewal-when-cj-grows", "C30", [(L, "if self.nlp.lp.ida_cjratio < temp1 || self.nlp.lp.ida_cjratio > temp2 {", "if self.nlp.lp.ida_cjratio < temp1 {")],
"cj grown by more than 1/0.6 since the last setup (a step cut by a quarter)",
"the old iteration matrix is kept when the step has been cut", """
pub fn main() {
    let mut s = ida(decay(), &[1.0], &[-1.0], 1e-2, 1e-2);
    let mut t = 0.0;
    for _ in 0..8 {
        s.solve(50.0, &mut t, IdaTask::OneStep).unwrap();
    }
    s.ida_hh *= 0.25;
    s.nls.asked.clear();
    s.solve(50.0, &mut t, IdaTask::OneStep).unwrap();
    check(s.nls.asked[0], "no new matrix asked for");
}
""")
bug("c25-vector-weights-sign", "C31", [("src/tol_control.rs", "*ewt = (self.ida_rtol * ycur.abs() + *atol).recip();", "*ewt = (self.ida_rtol * *ycur + *atol).recip();")],
"vector tolerances and a negative component",
"the weight of a negative component is not 1/(rtol |y| + atol)", """
pub fn main() {
    let c = TolControlSV::new(1e-3, Array::from(vec![1.0, 1.0]));
    let mut w = Array::zeros(2);
    c.ewt_set(Array::from(vec![-500.0, 500.0]).view(), w.view_mut());
    check(near(w[0], 1.0 / 1.5, 1e-12) && near(w[1], 1.0 / 1.5, 1e-12), "weights");
}
use crate::tol_control::*;
""")
bug("c26-spring-rate", "C32", [("src/sample_problems/slider_crank.rs", "- self.a * s21 * (pd - qd) / 2.0;", "- self.a * s21 * (pd + qd) / 2.0;")],
"a moving crank and a damper",
"the rate of change of the spring length is not the derivative of the spring length", """
use crate::sample_problems::SlCrank;
use crate::Residual;
pub fn main() {
    // resval[4] = m2 x'' - Q1 + lam1, with the spring length l(q, x, p) and its rate entering Q1
    let s = SlCrank::default();
    let q1 = |y: &[f64]| {
        let mut r = Array::zeros(10);
        let z: Array1<f64> = Array::zeros(10);
        s.res(0.0, Array::from(y.to_vec()).view(), z.view(), r.view_mut());
        -r[4]
    };
    let l = |q: f64, x: f64, p: f64| (x * x - x * (p.cos() + 0.5 * q.cos()) + 1.25 / 4.0 + 0.25 * (p - q).cos()).sqrt();
    let (q, x, p, qd, xd, pd) = (0.7, 1.1, -0.4, 0.9, -0.3, 0.6);
    let e = 1e-6;
    let ld = (l(q + e * qd, x + e * xd, p + e * pd) - l(q - e * qd, x - e * xd, p - e * pd)) / (2.0 * e);
    let ll = l(q, x, p);
    let f = (ll - 1.0) + ld;
    let want = f / ll * (p.cos() / 2.0 - x + 0.25 * q.cos()) + 1.0;
    let got = q1(&[q, x, p, qd, xd, pd, 0.0, 0.0, 0.0, 0.0]);
    check(near(got, want, 1e-7), "force on the slider");
}
""")
bug("c27-mean-over-selected", "C33", [("src/norm_rms.rs", """        ((self * w * mask)
            .iter()
            .map(|x| x.powi(2))
            .fold(A::zero(), |acc, x| acc + x)
            / A::from(self.len()).unwrap())""", """        let n = id.iter().filter(|&&x| x).count();
        ((self * w * mask)
            .iter()
            .map(|x| x.powi(2))
            .fold(A::zero(), |acc, x| acc + x)
            / A::from(n).unwrap())""")],
"algebraic variables suppressed",
"the masked norm divides by the number of selected components", """
use crate::NormRmsMasked;
pub fn main() {
    let x = Array::from(vec![3.0, 4.0, 12.0, 5.0]);
    let w = Array::from(vec![1.0, 1.0, 1.0, 1.0]);
    let id = Array::from(vec![true, true, false, false]);
    check(near(x.norm_wrms_masked(&w, &id), 2.5, 1e-12), "masked norm");
}
""")
bug("c28-equal-within-epsilon", "C19", [(L, "if (self.ida_hh != self.ida_hused) || (self.ida_kk != self.ida_kused) {", "if ((self.ida_hh - self.ida_hused).abs() > P::Scalar::epsilon())\n            || (self.ida_kk != self.ida_kused)\n        {")],
"steps shorter than the unit roundoff (a problem on the scale of 1e-15)",
"a change of a tiny step counts as no change: ns is not reset and the differences are not rescaled", """
pub fn main() {
    let p = Pb::new(1, |_, y, yp| vec![yp[0] + y[0] * 1e16], |_, cj, _, _| vec![vec![cj + 1e16]]);
    let mut s = ida(p, &[1.0], &[-1e16], 1e-3, 1e-3);
    let mut t = 0.0;
    let mut ts = vec![0.0];
    for _ in 0..40 {
        s.solve(1e-14, &mut t, IdaTask::OneStep).unwrap();
        ts.push(s.get_current_time());
        let (k, n) = (s.ida_kused, ts.len() - 1);
        for j in 0..k {
            check(near(s.ida_psi[j] / (ts[n] - ts[n - 1 - j]), 1.0, 1e-6), "psi is not the distance to the earlier point");
        }
    }
}
""")
bug("c29-order-five-constant", "C34", [(L, """        for i in 0..self.ida_kk {
            let scalar_i: P::Scalar = NumCast::from(i + 1).unwrap();
            alphas -= P::Scalar::one() / scalar_i;
            alpha0 -= self.ida_alpha[i];
        }
""", """        for i in 0..self.ida_kk {
            alpha0 -= self.ida_alpha[i];
        }
        // alphas = -(1 + 1/2 + ... + 1/kk)
        alphas -= <P::Scalar as NumCast>::from([0.0, 1.0, 1.5, 11.0 / 6.0, 25.0 / 12.0, 2.28][self.ida_kk]).unwrap();
""")],
"a step of order 5",
"the leading coefficient of order 5 is 2.28 instead of 137/60", """
pub fn main() {
    let mut s = ida(osc(), &[1.0, 0.0], &[0.0, -1.0], 1e-8, 1e-10);
    let mut t = 0.0;
    while s.ida_kk < 5 {
        s.solve(50.0, &mut t, IdaTask::OneStep).unwrap();
    }
    let h = s.ida_hh;
    s.set_coeffs();
    check(near(s.nlp.lp.ida_cj * h, 137.0 / 60.0, 1e-6), "leading coefficient");
}
""")
bug("c30-watched-when-positive", "C35", [(RC, "if !*gactive && (grout != P::Scalar::zero()) {", "if !*gactive && (grout > P::Scalar::zero()) {")],
"a root function that is zero at the start and just behind it, then negative, then crosses zero",
"a function that leaves zero downwards is never watched: its later crossing is missed", """
pub fn main() {
    let p = ramp().roots(1, |t, _, _| vec![if t < 0.2 { 0.0 } else { (t - 0.2) * (t - 0.6) }]);
    let mut s = ida(p, &[0.0], &[1.0], 1e-2, 1e-2);
    s.ida_hin = 0.01;
    s.ida_hmax_inv = 20.0;
    let mut t = 0.0;
    check(s.solve(2.0, &mut t, IdaTask::Normal).unwrap() == IdaSolveStatus::Root && near(t, 0.6, 1e-9), "crossing missed");
}
""")
bug("c31-left-values-kept", "C35", [(RC, """        self.ida_tlo = self.ida_trout;
        self.ida_glo.assign(&self.ida_grout);

        // If a root was found, interpolate to get y(trout) and return.
        if let RootStatus::RootFound = ier {
            self.get_solution(self.ida_trout);
        }
""", """        self.ida_tlo = self.ida_trout;

        // If a root was found, interpolate to get y(trout) and return.
        if let RootStatus::RootFound = ier {
            self.ida_glo.assign(&self.ida_grout);
            self.get_solution(self.ida_trout);
        }
""")],
"a root direction that is not watched (a falling function with rootdir 1), then a watched crossing",
"the values at the left end of the next search are those of an earlier step: after an unwatched crossing the next one is missed", """
pub fn main() {
    let p = ramp().roots(1, |t, _, _| vec![(t - 0.3) * (t - 0.6)]);
    let mut s = ida(p, &[0.0], &[1.0], 1e-2, 1e-2);
    s.ida_rootdir[0] = 1;
    s.ida_hin = 0.01;
    s.ida_hmax_inv = 20.0;
    let mut t = 0.0;
    check(s.solve(2.0, &mut t, IdaTask::Normal).unwrap() == IdaSolveStatus::Root && near(t, 0.6, 1e-9), "crossing missed");
}
""")
bug("c32-ratio-upside-down", "C29", [(L, "self.nlp.lp.ida_cjratio = self.nlp.lp.ida_cj / self.nlp.lp.ida_cjold;", "self.nlp.lp.ida_cjratio = self.nlp.lp.ida_cjold / self.nlp.lp.ida_cj;")],
"a step with the matrix of an earlier cj (a ratio between 0.6 and 1/0.6)",
"solutions with an old matrix are scaled by 2/(1+1/cjratio): the correction for the change of cj goes the wrong way", """
pub fn main() {
    let mut s = ida(decay(), &[1.0], &[-1.0], 1e-2, 1e-2);
    let mut t = 0.0;
    for _ in 0..8 {
        s.solve(50.0, &mut t, IdaTask::OneStep).unwrap();
    }
    s.nlp.lp.ida_cjold = s.nlp.lp.ida_cj;
    s.ida_kk = s.ida_kused;
    s.ida_hh = s.ida_hused * 0.8;
    s.set_coeffs();
    s.nls.plan.push_back(Ok(vec![0.0]));
    let want = s.nlp.lp.ida_cj / s.nlp.lp.ida_cjold;
    s.nonlinear_solve().unwrap();
    check(near(s.nlp.lp.ida_cjratio, want, 1e-12), "cjratio");
}
""")
bug("c34-phase-reset-on-regain", "C22", [(CS, "if (self.ida_knew == self.ida_kk - 1) || (self.ida_kk == self.ida_maxord) {\n            self.ida_phase = 1;\n        }", "self.ida_phase = if (self.ida_knew == self.ida_kk - 1) || (self.ida_kk == self.ida_maxord) {\n            1\n        } else {\n            0\n        };")],
"any step after start-up has ended, with the order neither lowered nor at its maximum",
"the start-up phase comes back: order and step are raised regardless of the error estimate", """
pub fn main() {
    let mut s = ida(decay(), &[1.0], &[-1.0], 1e-2, 1e-2);
    s.nlp.ida_ewt = Array::from(vec![1.0]);
    s.counters.ida_nst = 10;
    s.ida_kk = 2;
    s.ida_kused = 2;
    s.ida_knew = 2;
    s.ida_phase = 1;
    s.ida_ns = 1;
    s.ida_hh = 1.0;
    s.complete_step(0.4, 0.4);
    check(s.ida_kk == 2 && s.ida_hh <= 1.0, "order raised");
}
""")
bug("c35-dky-before-mode", "C21", [(CS, "            .slice_axis_mut(Axis(0), Slice::from(0..=self.ida_kused).step_by(-1))", "            .slice_axis_mut(Axis(0), Slice::from(0..=self.ida_kk.min(self.ida_kused)).step_by(-1))")],
"a step after which the order is lowered",
"the differences above the lowered order are accumulated from the wrong end: the new solution misses the highest difference", """
pub fn main() {
    let mut s = ida(osc(), &[1.0, 0.0], &[0.0, -1.0], 1e-5, 1e-7);
    let mut t = 0.0;
    let mut ts = vec![0.0];
    let mut ys = vec![1.0];
    while s.get_last_order() < 4 {
        s.solve(50.0, &mut t, IdaTask::OneStep).unwrap();
        ts.push(t);
        ys.push(s.ida_phi[[0, 0]]);
    }
    for _ in 0..60 {
        s.solve(50.0, &mut t, IdaTask::OneStep).unwrap();
        ts.push(t);
        ys.push(s.ida_phi[[0, 0]]);
        // force the order down now and then
        let n = ts.len();
        let k = s.ida_kused;
        let x = t - 0.5 * s.get_last_step();
        let want = poly(&ts[n - 1 - k..], &ys[n - 1 - k..], x);
        s.get_solution(x).unwrap();
        check(near(s.get_yy()[0], want, 1e-9), "interpolant through the last k+1 solutions");
        if n % 7 == 0 && s.ida_kk == s.ida_kused {
            s.ida_tstop = None;
            s.ida_kk -= 1;
            s.ida_ns = 0;
        }
    }
    s.ida_kk = 3; s.ida_kused = 3; s.ida_knew = 2; s.ida_phase = 1;
    for j in 0..6 { s.ida_phi[[j, 0]] = 0.0; }
    s.ida_ee[0] = 1.0;
    s.complete_step(0.1, 0.1);
    check((0..=3).all(|j| near(s.ida_phi[[j, 0]], 1.0, 1e-12)), "differences after lowering the order");
}
""")
bug("c36-first-step-stop-backward", "C25", [(SO, """                if (self.nlp.ida_tn + self.ida_hh - tstop) * self.ida_hh > P::Scalar::zero() {
                    self.ida_hh = (tstop - self.nlp.ida_tn)""", """                if self.nlp.ida_tn + self.ida_hh > tstop {
                    self.ida_hh = (tstop - self.nlp.ida_tn)""")],
"integration towards smaller t with a stop time, first step",
"the first step is lengthened up to the stop time instead of shortened when integrating backwards", """
pub fn main() {
    let mut s = ida(ramp(), &[0.0], &[1.0], 1e-3, 1e-3);
    let mut t = 0.0;
    s.ida_hin = -1.0;
    s.ida_tstop = Some(-0.25);
    s.solve(-50.0, &mut t, IdaTask::OneStep).unwrap();
    check(t == -0.25 && near(s.get_last_step(), -0.25, 1e-9), "the first step passes the stop time");
    let mut s = ida(ramp(), &[0.0], &[1.0], 1e-3, 1e-3);
    let mut t = 0.0;
    s.ida_hin = -1.0;
    s.ida_tstop = Some(-25.0);
    s.solve(-50.0, &mut t, IdaTask::OneStep).unwrap();
    check(t >= -1.0, "the first step is lengthened");
}
""")
bug("c37-stop-at-start-accepted", "C27", [(SO, "if (tstop - self.nlp.ida_tn) * self.ida_hh <= P::Scalar::zero() {", "if (tstop - self.nlp.ida_tn) * self.ida_hh < P::Scalar::zero() {")],
"a stop time equal to the initial time",
"a stop time at t0 is accepted and the first step has size zero", """
pub fn main() {
    let mut s = ida(ramp(), &[0.0], &[1.0], 1e-3, 1e-3);
    let mut t = 0.0;
    s.ida_tstop = Some(0.0);
    let r = s.solve(1.0, &mut t, IdaTask::OneStep);
    let e = match r {
        Err(e) => format!("{:?}", e),
        Ok(_) => "accepted".into(),
    };
    check(e.contains("IllegalInput"), &e);
}
""")
bug("d01-dvals-in-gamma", "C38", [(L, "            self.ida_dvals[j - 1] = d;", "            self.ida_gamma[j] = d;"),
  (L, "ndarray::Zip::from(self.ida_dvals.slice(s![0..kord]))", "ndarray::Zip::from(self.ida_gamma.slice(s![1..=kord]))")],
"an interpolated output between steps of a run that has taken more than order + 1 equal steps",
"get_solution keeps its derivative coefficients in the array the prediction of a step with unchanged coefficients still needs", """
fn run(look: bool) -> Vec<f64> {
    let mut s = ida(osc(), &[1.0, 0.0], &[0.0, -1.0], 1e-4, 1e-6);
    let mut t = 0.0;
    let mut r = vec![];
    for _ in 0..40 {
        s.solve(100.0, &mut t, IdaTask::OneStep).unwrap();
        r.push(s.nlp.ida_yypredict[0]);
        r.push(s.nlp.ida_yppredict[0]);
        r.push(s.get_current_setp());
        let (tn, h) = (s.get_current_time(), s.get_last_step());
        s.get_solution(tn).unwrap();
        if look {
            s.get_solution(tn - 0.5 * h).unwrap();
        }
    }
    r
}
pub fn main() {
    check(run(false) == run(true), "a look changes the steps");
}
""")
bug("d02-step-shortened-to-tout", "C38", [(SO, """            let sflag = self.step();
""", """            if let IdaTask::Normal = itask {
                if self.counters.ida_nst > 0
                    && (self.nlp.ida_tn + self.ida_hh - tout) * self.ida_hh > P::Scalar::zero()
                    && (tout - self.nlp.ida_tn) / self.ida_hh > P::Scalar::half()
                {
                    self.ida_hh = tout - self.nlp.ida_tn;
                }
            }
            let sflag = self.step();
""")],
"normal mode, with an output time in the second half of a step after the first",
"the step is shortened to end at tout, so output times determine the steps", """
pub fn main() {
    let mut a = ida(ramp(), &[0.0], &[1.0], 1e-3, 1e-3);
    a.ida_hin = 1.0;
    a.ida_hmax_inv = 1.0;
    let mut t = 0.0;
    for k in 1..8 {
        a.solve(0.8 * k as f64, &mut t, IdaTask::Normal).unwrap();
        check(near(a.get_last_step(), 1.0, 1e-12), "a step was shortened");
        check(near(a.get_yy()[0], 0.8 * k as f64, 1e-9), "y");
    }
}
""")
bug("d03-automatic-step-signed", "C37", [(SO, "self.ida_hh = P::Scalar::pt001() * tdist;", "self.ida_hh = P::Scalar::pt001() * (tout - self.nlp.ida_tn);"),
  (SO, "                    self.ida_hh = P::Scalar::half() / ypnorm;\n                }\n                if tout < self.nlp.ida_tn {\n                    self.ida_hh = -self.ida_hh;\n                }", "                    self.ida_hh = P::Scalar::half() / ypnorm * self.ida_hh.signum();\n                }")],
"integration towards smaller t with the automatic first step, y' small against the tolerances",
"backwards the first step is half the inverse norm of y' even when a thousandth of the distance is less", """
pub fn main() {
    let h = |tout: f64, s: f64| {
        let mut i = ida(ramp(), &[0.0], &[1.0], 0.0, 10.0);
        let mut t = 0.0;
        let _ = s;
        i.solve(tout, &mut t, IdaTask::OneStep).unwrap();
        i.ida_h0u
    };
    check(h(1.0, 1.0) == -h(-1.0, -1.0), "first steps");
}
""")
bug("d04-update-skipped-on-zero", "C39", [(CS, """            tmp += &phi;
            phi.assign(&tmp);""", """            tmp += &phi;
            if tmp[0] != phi[0] || self.ida_kused > 1 {
                phi.assign(&tmp);
            }""")],
"steps of order one with a first unknown that does not change",
"the divided differences of all unknowns are left alone when that of the first one does not change", """
pub fn main() {
    let run = |swap: bool| {
        let p = if swap {
            Pb::new(2, |_, _, yp| vec![yp[0] - 1.0, yp[1]], |_, cj, _, _| vec![vec![cj, 0.0], vec![0.0, cj]])
        } else {
            Pb::new(2, |_, _, yp| vec![yp[0], yp[1] - 1.0], |_, cj, _, _| vec![vec![cj, 0.0], vec![0.0, cj]])
        };
        let yp = if swap { [1.0, 0.0] } else { [0.0, 1.0] };
        let mut i = ida(p, &[0.0, 0.0], &yp, 1e-3, 1e-3);
        i.ida_hin = 1.0;
        let mut t = 0.0;
        for _ in 0..4 {
            i.solve(50.0, &mut t, IdaTask::OneStep).unwrap();
        }
        i.get_solution(t).unwrap();
        (t, i.get_yy()[if swap { 0 } else { 1 }])
    };
    let (a, b) = (run(false), run(true));
    check(near(a.0, b.0, 1e-9) && near(a.1, b.1, 1e-9), "renumbering changes the run");
}
""")
bug("d05-second-evaluation-uncounted", "C40", [(RC, """                self.nlp.ida_yp.view(),
                self.ida_ghi.view_mut(),
            );
            self.ida_nge += 1;
""", """                self.nlp.ida_yp.view(),
                self.ida_ghi.view_mut(),
            );
""")],
"solve called again after it has returned a root at which the root function is exactly zero",
"the evaluation of the root functions just behind an exact root is not counted", """
pub fn main() {
    let p = ramp().roots(1, |t, _, _| vec![t - 0.5]);
    let log = p.log.clone();
    let mut s = ida(p, &[0.0], &[1.0], 1e-3, 1e-3);
    s.ida_hin = 0.25;
    let mut t = 0.0;
    for k in 0..6 {
        s.solve(5.0 + k as f64, &mut t, IdaTask::OneStep).unwrap();
        check(s.get_num_g_evals() == log.borrow().g.len(), "root function evaluations");
    }
}
""")
bug("d06-setup-counted-on-success", "C40", [(NL, "        self.ida_nsetups += 1;\n", ""), (NL, "        retval?;\n\n        //return(IDA_SUCCESS);", "        retval?;\n        self.ida_nsetups += 1;\n\n        //return(IDA_SUCCESS);")],
"an iteration matrix that cannot be factored",
"linear solver set-ups that fail are not counted", """
pub fn main() {
    // singular for cj above 3
    let p = Pb::new(1, |_, _, yp| vec![yp[0] - 1.0], |_, cj, _, _| vec![vec![if cj < 3.0 { 0.0 } else { cj }]]);
    let log = p.log.clone();
    let mut s = ida(p, &[0.0], &[1.0], 1e-3, 1e-3);
    s.ida_hin = 1.0;
    let mut t = 0.0;
    let _ = s.solve(5.0, &mut t, IdaTask::OneStep);
    check(log.borrow().jac.len() > 1, "no retry");
    check(s.get_num_lin_solv_setups() == log.borrow().jac.len(), "set-ups");
}
""")
bug("d07-behind-root-forward", "C37", [(RC, "let smallh = self.ida_ttol * self.ida_hh.signum();", "let smallh = self.ida_ttol;")],
"integration towards smaller t, continued after a root at which the root function is exactly zero",
"backwards the search restarts before the root instead of behind it and finds the same root again", """
pub fn main() {
    let run = |sg: f64| {
        let p = if sg > 0.0 { ramp().roots(1, |t, _, _| vec![t - 0.5]) } else { ramp().roots(1, |t, _, _| vec![t + 0.5]) };
        let mut s = ida(p, &[0.0], &[1.0], 1e-3, 1e-3);
        s.ida_hin = 0.25 * sg;
        let mut t = 0.0;
        let mut roots = 0;
        for _ in 0..8 {
            if s.solve(4.0 * sg, &mut t, IdaTask::Normal).unwrap() == IdaSolveStatus::Root {
                roots += 1;
            }
        }
        roots
    };
    let (a, b) = (run(1.0), run(-1.0));
    check(a == 1 && b == 1, "roots");
}
""")
bug("d08-set-up-when-cj-grows", "C37", [(L, "if self.nlp.lp.ida_cj != self.ida_cjlast {", "if self.nlp.lp.ida_cj > self.ida_cjlast {")],
"integration towards smaller t with a step size that grows, or forwards with one that shrinks",
"the convergence rate estimate is only reset when cj grows, which is another event backwards than forwards", """
pub fn main() {
    let run = |sg: f64| {
        let p = Pb::new(1, |_, _, yp| vec![yp[0]], |_, cj, _, _| vec![vec![cj]]);
        let mut s = ida(p, &[1.0], &[0.0], 1e-3, 1e-3);
        s.ida_hin = 0.25 * sg;
        let mut t = 0.0;
        let mut r = vec![];
        for _ in 0..4 {
            s.solve(50.0 * sg, &mut t, IdaTask::OneStep).unwrap();
            r.push(s.nlp.ida_ss);
        }
        r
    };
    check(run(1.0) == run(-1.0), "rate estimates");
}
""")
bug("f03-interpolant-of-the-next-order", "C16", [(L, "            1\n        } else {\n            self.ida_kused\n        };", "            1\n        } else {\n            self.ida_kk\n        };")],
"get_solution after a step that changed the order for the next one",
"the solution is interpolated with the order of the next step instead of the last one's", """
pub fn main() {
    let mut s = ida(osc(), &[1.0, 0.0], &[0.0, -1.0], 1e-5, 1e-7);
    let mut t = 0.0;
    for _ in 0..30 {
        s.solve(10.0, &mut t, IdaTask::OneStep).unwrap();
        let x = t - 0.4 * s.get_last_step();
        let (mut d, mut e) = (Array::zeros(2), Array::zeros(2));
        s.get_dky(x, 0, &mut d).unwrap();
        s.get_dky(x, 1, &mut e).unwrap();
        s.get_solution(x).unwrap();
        for i in 0..2 {
            check(near(s.get_yy()[i], d[i], 1e-11) && near(s.get_yp()[i], e[i], 1e-11), "interpolant");
        }
    }
}
""")
bug("f04-last-difference-not-saved", "C21", [(CS, "if self.ida_kused < self.ida_maxord {", "if self.ida_kused + 1 < self.ida_maxord {")],
"a step of order 4 followed by one of order 5",
"the fifth difference is not saved when the order is about to become the highest one: the prediction misses it", """
pub fn main() {
    let mut s = ida(osc(), &[1.0, 0.0], &[0.0, -1.0], 1e-8, 1e-10);
    let mut t = 0.0;
    let mut ts = vec![0.0];
    let mut ys = vec![1.0];
    for m in 0..120 {
        // order 4 for a while, then 5 again
        if m > 40 {
            s.ida_kk = if m % 20 < 12 { 4 } else { 5 };
        }
        s.solve(50.0, &mut t, IdaTask::OneStep).unwrap();
        let (n, k) = (ts.len(), s.ida_kused);
        if n > k + 1 {
            // the prediction of the step just taken, from the k+1 points before it
            let want = poly(&ts[n - 1 - k..], &ys[n - 1 - k..], t);
            check(near(s.nlp.ida_yypredict[0], want, 1e-10), "prediction");
        }
        ts.push(t);
        ys.push(s.ida_phi[[0, 0]]);
    }
}
""")
bug("f05-coefficients-one-step-early", "C34", [(L, "        if self.ida_kk + 1 >= self.ida_ns {", "        if self.ida_kk + 1 > self.ida_ns {")],
"k+1 equal steps of order k",
"the coefficients are taken as settled one step too early: the error coefficient of order k is not 1/(k+1)", """
pub fn main() {
    for k in 1..=4 {
        let mut s = ida(osc(), &[1.0, 0.0], &[0.0, -1.0], 1e-5, 1e-7);
        let mut t = 0.0;
        while s.ida_kk < k {
            s.solve(50.0, &mut t, IdaTask::OneStep).unwrap();
        }
        // equal steps of order k
        let h = 1e-3;
        s.ida_kk = k;
        s.ida_hh = h;
        for _ in 0..12 {
            s.ida_hh = h;
            let ck = s.set_coeffs();
            s.ida_hused = h;
            s.ida_kused = k;
            if s.ida_ns == k + 2 {
                check(near(ck, 1.0 / (k as f64 + 1.0), 1e-9), "error coefficient");
            }
        }
        check(s.ida_ns == k + 2, "no equal steps");
    }
}
""")
bug("f06-derivatives-up-to-the-next-order", "C17", [(L, "(k > self.ida_kused)", "(k > self.ida_kk)")],
"a call of get_dky after a step that changed the order for the next one",
"derivatives up to the order of the next step are given (or refused) instead of up to the last one's", """
pub fn main() {
    let mut s = ida(osc(), &[1.0, 0.0], &[0.0, -1.0], 1e-5, 1e-7);
    let mut t = 0.0;
    s.ida_maxord = 3;
    for _ in 0..40 {
        s.solve(10.0, &mut t, IdaTask::OneStep).unwrap();
        for k in 0..5 {
            let mut d = Array::zeros(2);
            let tn = s.get_current_time();
            let kused = s.ida_kused;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.get_dky(tn, k, &mut d).is_ok()));
            check(matches!(r, Ok(true)) == (k <= kused), "orders of derivatives");
        }
    }
}
""")
bug("f07-weights-from-the-third-step", "C31", [(SO, "            if self.counters.ida_nst > 0 {\n                self.tol_control.ewt_set(", "            if self.counters.ida_nst > 1 {\n                self.tol_control.ewt_set(")],
"a second step: its weights are those of the first",
"the error weights are renewed from the third step on only", """
pub fn main() {
    let mut s = ida(decay(), &[1.0], &[-1.0], 1e-1, 1e-6);
    s.ida_hin = 0.01;
    let mut t = 0.0;
    for _ in 0..5 {
        let y = s.ida_phi[[0, 0]];
        s.solve(10.0, &mut t, IdaTask::OneStep).unwrap();
        check(near(s.nlp.ida_ewt[0], 1.0 / (1e-1 * y.abs() + 1e-6), 1e-12), "weights");
    }
}
""")
bug("f08-restore-keeps-the-highest", "C20", [(L, """            self.ida_psi[j - 1] = self.ida_psi[j] - self.ida_hh;
        }

""", """            self.ida_psi[j - 1] = self.ida_psi[j] - self.ida_hh;
        }
        if self.ida_ns == self.ida_kk && self.ida_kk > 1 {
            return;
        }

""")],
"a failed attempt of order k > 1 with exactly k equal steps behind it",
"the highest difference keeps the scaling of the failed attempt", """
pub fn main() {
    let mut s = ida(osc(), &[1.0, 0.0], &[0.0, -1.0], 1e-5, 1e-7);
    let mut t = 0.0;
    for _ in 0..60 {
        s.solve(50.0, &mut t, IdaTask::OneStep).unwrap();
        let (psi, phi) = (s.ida_psi.clone(), s.ida_phi.clone());
        let (kk, hh, ns, tn) = (s.ida_kk, s.ida_hh, s.ida_ns, s.nlp.ida_tn);
        let beta = (s.ida_alpha.clone(), s.ida_beta.clone(), s.ida_sigma.clone(), s.ida_gamma.clone());
        s.set_coeffs();
        s.nlp.ida_tn += hh;
        s.restore(tn);
        for i in 0..=kk {
            for j in 0..2 {
                check(near(s.ida_phi[[i, j]], phi[[i, j]], 1e-9 * phi[[i, j]].abs().max(1e-300)), "differences");
            }
        }
        s.ida_psi = psi;
        s.ida_phi = phi;
        s.ida_ns = ns;
        s.ida_alpha = beta.0;
        s.ida_beta = beta.1;
        s.ida_sigma = beta.2;
        s.ida_gamma = beta.3;
    }
}
""")
bug("f09-fuzz-without-the-time", "C18", [(L, """        let tfuzz = P::Scalar::hundred()
            * P::Scalar::epsilon()
            * (self.nlp.ida_tn.abs() + self.ida_hh.abs())
            * self.ida_hh.signum();

        let tp""", """        let tfuzz = P::Scalar::hundred() * P::Scalar::epsilon() * self.ida_hh;

        let tp""")],
"a small step at a large time, and get_solution at its start",
"the start of the last step, up to roundoff, is refused as a time when the steps are small against t", """
pub fn main() {
    let mut s = ida(ramp(), &[0.0], &[1.0], 1e-3, 1e-3);
    s.nlp.ida_tn = 1000.0;
    s.ida_hin = 1e-4;
    let mut t = 1000.0;
    s.ida_hmax_inv = 7e3;
    for _ in 0..50 {
        s.solve(1001.0, &mut t, IdaTask::OneStep).unwrap();
        let told = s.get_current_time() - s.get_last_step();
        check(s.get_solution(told * (1.0 - 2e-16)).is_ok(), "start of the step");
    }
}
""")
