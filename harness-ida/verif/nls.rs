//! the nonlinear problem of a step, its linear systems and convergence test; steps with the
//! repository's own Newton iteration and LU solver
use super::real::{Lu, New};
use super::*;
use crate::error::{IdaError, Recoverable};
use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, DimNameAdd, U1, U2};
use std::cell::Cell;
use symx::h;

fn z<S: IS>() -> S {
    S::num(0.0)
}
fn one<S: IS>() -> S {
    S::num(1.0)
}
fn arr<S: IS>(x: &[S]) -> Array1<S> {
    Array1::from_vec(x.to_vec())
}
struct St<S: IS> {
    i: I<S>,
    n: usize,
    tn: S,
    cj: S,
    yyp: Vec<S>,
    ypp: Vec<S>,
    ewt: Vec<S>,
}
/// an arbitrary state inside a nonlinear solve
fn state<S: IS>(n: usize) -> St<S> {
    let p = Prob::<S>::new(n, 0);
    let mut i = ida(&p, &S::vars("y0", n), &S::vars("yp0", n), ones());
    let (tn, cj) = (S::var("tn"), S::var("cj"));
    S::assume(C::Eq(cj, z()).not());
    let (yyp, ypp, ewt) = (S::vars("ypred", n), S::vars("yppred", n), S::vars("ewt", n));
    for w in &ewt {
        S::assume(C::Lt(z(), *w));
    }
    i.nlp.ida_tn = tn;
    i.nlp.lp.ida_cj = cj;
    i.nlp.lp.ida_cjold = cj;
    i.nlp.lp.ida_cjratio = one();
    i.nlp.ida_yypredict = arr(&yyp);
    i.nlp.ida_yppredict = arr(&ypp);
    i.nlp.ida_ewt = arr(&ewt);
    St { i, n, tn, cj, yyp, ypp, ewt }
}
/// the system: the residual at the predicted values plus the correction
fn c29_sys<S: IS>(n: usize, calls: usize) {
    let mut s = state::<S>(n);
    let seen = Rc::new(RefCell::new(vec![]));
    let s2 = seen.clone();
    let tn = s.tn;
    let rs: Vec<Vec<S>> = (0..calls).map(|k| S::vars(&format!("r{k}"), n)).collect();
    let r2 = rs.clone();
    s.i.nlp.lp.problem.on_res(move |t, y, yp| {
        S::check("the residual is evaluated at tn", C::Eq(t, tn));
        let k = s2.borrow().len();
        s2.borrow_mut().push((y.to_vec(), yp.to_vec()));
        r2[k].clone()
    });
    for k in 0..calls {
        let cor = S::vars(&format!("cor{k}"), n);
        let mut r = Array1::from_vec(zeros::<S>(n));
        let nre = s.i.get_num_res_evals();
        let ok = s.i.nlp.sys(arr(&cor), r.view_mut()).is_ok();
        S::check_b("succeeds", ok);
        S::check_b("one residual evaluation, counted", seen.borrow().len() == k + 1 && s.i.get_num_res_evals() == nre + 1);
        let want = rs[k].clone();
        let (y, yp) = seen.borrow()[k].clone();
        for q in 0..n {
            S::check("y = predicted y + correction", C::Eq(y[q], s.yyp[q] + cor[q]));
            S::check("y' = predicted y' + cj correction", C::Eq(yp[q], s.ypp[q] + s.cj * cor[q]));
        }
        S::check("the residual is returned", C::eqs(&v(&r), &want));
        S::check("and kept for the linear solver", C::eqs(&v(&s.i.nlp.ida_savres), &want));
        S::check("the iterates are what the user sees", C::eqs(&v(&s.i.nlp.ida_yy), &y).and(C::eqs(&v(&s.i.nlp.ida_yp), &yp)));
    }
}
/// the setup: the user's Jacobian at the current iterate, twice
fn c29_setup<S: IS>(n: usize) {
    let mut s = state::<S>(n);
    let (tn, cj) = (s.tn, Rc::new(Cell::new(s.cj)));
    let cj2 = cj.clone();
    let (yy, yp) = (S::vars("yy", n), S::vars("yp", n));
    s.i.nlp.ida_yy = arr(&yy);
    s.i.nlp.ida_yp = arr(&yp);
    let calls = Rc::new(Cell::new(0));
    let c2 = calls.clone();
    let (y2, p2) = (yy.clone(), yp.clone());
    let rs: Vec<Vec<S>> = (0..2).map(|k| S::vars(&format!("res{k}"), n)).collect();
    let js: Vec<Vec<S>> = (0..2).map(|k| S::vars(&format!("j{k}"), n * n)).collect();
    let (rs2, js2) = (rs.clone(), js.clone());
    s.i.nlp.lp.problem.on_jac(move |t, c, y, yp, r| {
        let k = c2.get();
        c2.set(k + 1);
        S::check("the Jacobian is evaluated at tn", C::Eq(t, tn));
        S::check("with the current cj", C::Eq(c, cj2.get()));
        S::check("at the current y and y'", C::eqs(y, &y2).and(C::eqs(yp, &p2)));
        S::check("with the residual there", C::eqs(r, &rs2[k]));
        js2[k].clone()
    });
    s.i.nlp.lp.ida_cjold = S::var("cjold");
    s.i.nlp.lp.ida_cjratio = S::var("cjratio");
    s.i.nlp.ida_ss = S::var("ss");
    for k in 0..2 {
        if k == 1 {
            let c = S::var("cj later");
            cj.set(c);
            s.i.nlp.lp.ida_cj = c;
        }
        let (nj, ns) = (s.i.get_num_jac_evals(), s.i.get_num_lin_solv_setups());
        let r = s.i.nlp.setup(arr(&S::vars("cor", n)), arr(&rs[k]), S::flag("jbad"));
        S::check_b("succeeds: the Jacobian is current", matches!(r, Ok(true)));
        S::check_b("one Jacobian evaluation, counted", calls.get() == k + 1 && s.i.get_num_jac_evals() == nj + 1 && s.i.get_num_lin_solv_setups() == ns + 1);
        let set = lsc::<S, _>(|c| c.setups.clone());
        S::check_b("one setup of the linear solver", set.len() == k + 1);
        S::check("with that Jacobian", C::eqs(&set[k], &js[k]));
        S::check("cj is remembered", C::Eq(s.i.nlp.lp.ida_cjold, cj.get()));
        S::check("the ratio of cj is 1", C::Eq(s.i.nlp.lp.ida_cjratio, one()));
        S::check("the rate estimate starts over", C::Eq(s.i.nlp.ida_ss, S::num(20.0)));
    }
}
/// the linear solve, its scaling for an old cj, and failures
fn c29_solve<S: IS>(n: usize, kind: LSolverType) {
    let mut s = state::<S>(n);
    let ratio = S::var("ratio");
    S::assume(C::Lt(z(), ratio));
    let j = S::vars("j", n * n);
    let j2 = j.clone();
    s.i.nlp.lp.problem.on_jac(move |_, _, _, _, _| j2.clone());
    S::check_b("setup succeeds", s.i.nlp.setup(arr(&S::vars("cor", n)), arr(&S::vars("res", n)), false).is_ok());
    s.i.nlp.lp.ida_cjratio = ratio;
    let x = S::vars("x", n);
    let fails = S::flag("fails");
    lsc::<S, _>(|c| {
        c.kind = kind;
        c.x = x.clone();
        c.solve_fails = fails;
        c.iters = 3;
    });
    let b = S::vars("b", n);
    let mut d = arr(&b);
    let r = s.i.nlp.solve(arr(&S::vars("cor", n)), d.view_mut());
    let calls = lsc::<S, _>(|c| c.solves.clone());
    S::check_b("one linear solve", calls.len() == 1);
    S::check("with the matrix set up", C::eqs(&calls[0].0, &j));
    S::check("for the given right hand side", C::eqs(&calls[0].1, &b));
    let sc = lsc::<S, _>(|c| c.scale.clone());
    S::check_b("the solver gets the scaling", sc.len() == 2);
    S::check("the scaling is the error weights", C::eqs(&sc[0], &s.ewt).and(C::eqs(&sc[1], &s.ewt)));
    if kind == LSolverType::Direct {
        S::check("no tolerance for a direct solver", C::Eq(calls[0].2, z()));
    } else {
        S::check("a positive tolerance for an iterative one", C::Lt(z(), calls[0].2));
        S::check_b("its iterations are counted", s.i.get_num_lin_iters() == 3);
    }
    if fails {
        let e = r.err().map(|e| e.downcast::<IdaError>());
        S::check_b("a failed solve is a recoverable failure", matches!(e, Some(Ok(IdaError::RecoverableFail { rec_type: Recoverable::LSolve }))));
        return;
    }
    S::check_b("succeeds", r.is_ok());
    let f = if kind == LSolverType::Iterative { one() } else { S::num(2.0) / (one::<S>() + ratio) };
    for q in 0..n {
        S::check("the solution, scaled for the change of cj", C::Eq(d[q], x[q] * f));
    }
}
/// a step's own linear solves: the ratio is that of cj to the cj of the last setup
fn c29_ratio<S: IS>(n: usize, kind: LSolverType, later: usize) {
    let mut s = state::<S>(n);
    let x = S::vars("x", n);
    lsc::<S, _>(|c| {
        c.kind = kind;
        c.x = x.clone();
    });
    let mut old = S::var("cj before");
    S::assume(C::Lt(z(), old * s.cj));
    s.i.nlp.lp.ida_cjold = old;
    s.i.counters.ida_nst = if later > 0 { 3 } else { 0 };
    let b = S::vars("b", n);
    s.i.nls.act = Box::new(move |_| Act::Lin(b.clone()));
    for k in 0..=later {
        let cj = if k == 0 { s.cj } else { S::var(&format!("cj{k}")) };
        S::assume(C::Lt(z(), old * cj));
        s.i.nlp.lp.ida_cj = cj;
        S::check_b("solves", s.i.nonlinear_solve().is_ok());
        let set = s.i.nls.calls[k].lsetup;
        if k > 0 {
            s.i.counters.ida_nst += 1;
        }
        if set {
            old = cj;
        }
        let f = if kind == LSolverType::Iterative { one() } else { S::num(2.0) / (one::<S>() + cj / old) };
        for q in 0..n {
            S::check("scaled by 2/(1 + cj/cj of the last setup)", C::Eq(s.i.nls.lin[k][q], x[q] * f));
        }
    }
}
fn c29_setup_fails<S: IS>() {
    let n = 1;
    let mut s = state::<S>(n);
    lsc::<S, _>(|c| c.setup_fails = true);
    let r = s.i.nlp.setup(arr(&[S::var("cor")]), arr(&[S::var("res")]), false);
    let e = r.err().map(|e| e.downcast::<IdaError>());
    S::check_b("a failed setup is a recoverable failure", matches!(e, Some(Ok(IdaError::RecoverableFail { rec_type: Recoverable::LSetup }))));
    S::observe("tn", s.tn + s.ewt[0] * S::num(s.n as f64));
}
/// the convergence test
fn c30_test<S: IS>(n: usize, m: usize) {
    let mut s = state::<S>(n);
    let (del, tol) = (S::vars("del", n), S::var("tol"));
    S::assume(C::Lt(z(), tol));
    let (ss, old, td) = (S::var("ss"), S::var("oldnrm"), S::var("toldel"));
    S::assume(C::Lt(z(), ss).and(C::Lt(z(), old)).and(C::Lt(z(), td)));
    s.i.nlp.ida_ss = ss;
    s.i.nlp.ida_oldnrm = old;
    s.i.nlp.ida_toldel = td;
    let mut nls: Nls<S> = <Nls<S> as NLSolver<Prob<S>>>::new(n, 4);
    nls.cur = m;
    let r = s.i.nlp.ctest(&nls, arr(&S::vars("y", n)), arr(&del), tol, arr(&s.ewt));
    // the weighted norm of the correction: nrm^2 n = sum
    let mut sq = z::<S>();
    for q in 0..n {
        sq = sq + del[q] * s.ewt[q] * (del[q] * s.ewt[q]);
    }
    let nrm = if n == 1 { (del[0] * s.ewt[0]).absv() } else { (sq / S::num(n as f64)).sqrtv() };
    let ss2 = s.i.nlp.ida_ss;
    if m == 0 {
        S::check("the first norm is kept", C::Eq(s.i.nlp.ida_oldnrm, nrm));
        S::check("the rate estimate stays", C::Eq(ss2, ss));
        let direct = C::Le(nrm, S::num(0.0001) * td);
        let conv = direct.or(C::Le(ss * nrm, tol));
        match r {
            Ok(b) => S::check("converged: the correction is tiny, or the estimated error is below the tolerance", C::B(b).iff(conv)),
            Err(_) => S::fail("the first iteration cannot fail"),
        }
        return;
    }
    S::check("the first norm stays", C::Eq(s.i.nlp.ida_oldnrm, old));
    // rate^m = nrm / first norm
    let lim = (0..m).fold(one::<S>(), |a, _| a * S::num(0.9));
    let div = C::Lt(lim * old, nrm);
    match r {
        Err(e) => {
            S::check_b("ConvergenceRecover", matches!(e.downcast_ref::<crate::nonlinear::Error>(), Some(crate::nonlinear::Error::ConvergenceRecover {})));
            S::check("diverging: the rate exceeds 0.9", div);
        }
        Ok(b) => {
            S::check("the rate is at most 0.9", div.not());
            // ss = rate / (1 - rate), so rate = ss / (1 + ss)
            let rate = ss2 / (one::<S>() + ss2);
            let p = (0..m).fold(one::<S>(), |a, _| a * rate);
            S::check("the rate estimate", C::Le(z(), ss2).and(C::Eq(p * old, nrm)));
            S::check("converged: the estimated error is below the tolerance", C::B(b).iff(C::Le(ss2 * nrm, tol)));
        }
    }
}
/// nonlinear_solve: when the Jacobian is set up, and what the solver is given
fn c30_lsetup<S: IS>(n: usize, first: bool) {
    let mut s = state::<S>(n);
    s.i.counters.ida_nst = if first { 0 } else { 1 + S::choose("nst", 2) };
    let (cjold, cjlast, ss, tol) = (S::var("cjold"), S::var("cjlast"), S::var("ss"), S::var("tol"));
    S::assume(C::Lt(z(), cjold * s.cj));
    s.i.nlp.lp.ida_cjold = cjold;
    s.i.ida_cjlast = cjlast;
    s.i.nlp.ida_ss = ss;
    s.i.ida_eps_newt = tol;
    s.i.ida_ee = arr(&S::vars("old e", n));
    let e = S::vars("e", n);
    let ok = S::flag("converges");
    let e2 = e.clone();
    s.i.nls.act = Box::new(move |_| if ok { Act::Give(e2.clone()) } else { Act::GiveFail(e2.clone(), crate::nonlinear::Error::ConvergenceRecover {}.into()) });
    let r = s.i.nonlinear_solve();
    S::check_b("the outcome of the iteration is reported", r.is_ok() == ok);
    S::check_b("one nonlinear solve", s.i.nls.calls.len() == 1);
    let c = s.i.nls.calls[0].clone();
    S::check("from the predicted values", C::eqs(&c.y0, &zeros(n)));
    S::check("in the norm of the error weights", C::eqs(&c.w, &s.ewt));
    S::check("to the tolerance of the iteration", C::Eq(c.tol, tol));
    if first {
        S::check_b("the Jacobian is set up on the first step", c.lsetup);
    } else {
        // |cj/cjold - 1| within the limits 3/5 and 5/3
        let q = s.cj / cjold;
        let lo = C::Lt(q, S::num(0.6 * (1.0 - 1e-12)));
        let hi = C::Lt(S::num((1.0 + 1e-12) / 0.6), q);
        let inside = C::Lt(S::num(0.6 * (1.0 + 1e-12)), q).and(C::Lt(q, S::num((1.0 - 1e-12) / 0.6)));
        S::check("the Jacobian is set up again when cj changed too much", lo.or(hi).implies(C::B(c.lsetup)));
        S::check("and only then", inside.implies(C::B(!c.lsetup)));
        S::check("the ratio of cj is kept for the scaling", C::Eq(s.i.nlp.lp.ida_cjratio, q));
    }
    let same = C::Eq(s.cj, cjlast);
    let s0 = if first { S::num(20.0) } else { ss };
    S::check("the rate estimate starts over when cj changed", C::Eq(s.i.nlp.ida_ss, S::pick(same, s0, S::num(100.0))));
    for q in 0..n {
        S::check("y is the predicted y plus the correction", C::Eq(s.i.nlp.ida_yy[q], s.yyp[q] + e[q]));
        S::check("y' is the predicted y' plus cj times the correction", C::Eq(s.i.nlp.ida_yp[q], s.ypp[q] + s.cj * e[q]));
    }
}

/// a linear DAE A y' + B y = q: the residual and its Jacobian
fn lin<S: IS>(p: &Prob<S>, a: &[S], b: &[S], q: &[S], cap: usize) -> (Rc<Cell<usize>>, Rc<Cell<usize>>) {
    let n = p.n;
    let (nr, nj) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
    let (r2, j2) = (nr.clone(), nj.clone());
    let (aa, bb, qq) = (a.to_vec(), b.to_vec(), q.to_vec());
    p.on_res(move |_, y, yp| {
        r2.set(r2.get() + 1);
        // a linear system takes two evaluations, the second finds it solved
        if r2.get() > 2 * cap {
            S::prune();
        }
        (0..n).map(|i| (0..n).fold(z::<S>() - qq[i], |s, j| s + aa[i * n + j] * yp[j] + bb[i * n + j] * y[j])).collect()
    });
    let (aa, bb) = (a.to_vec(), b.to_vec());
    p.on_jac(move |_, cj, _, _, _| {
        if j2.get() >= cap {
            S::prune();
        }
        j2.set(j2.get() + 1);
        (0..n * n).map(|k| bb[k] + cj * aa[k]).collect()
    });
    (nr, nj)
}
type Full<S, D> = Ida<Prob<S>, Lu<D>, New<S, D>, Tol<S>>;
/// the first step, with the repository's own Newton iteration and LU solver
fn c36<S: IS, D: DimName + DimNameAdd<D>>(cap: usize, shape: usize)
where
    DefaultAllocator: Allocator<S, D> + Allocator<usize, D> + Allocator<S, D, D>,
{
    let n = D::dim();
    let p = Prob::<S>::new(n, 0);
    let (a, b): (Vec<S>, Vec<S>) = match shape {
        // any 1x1 system, or a semi-explicit pair: y1' + b11 y1 + b12 y2, b21 y1 + b22 y2
        0 => (S::vars("a", n * n), S::vars("b", n * n)),
        _ => (vec![one(), z(), z(), z()], S::vars("b", 4)),
    };
    let q = S::vars("q", n);
    let (nr, nj) = lin(&p, &a, &b, &q, cap);
    let (y0, yp0) = (S::vars("y0_", n), S::vars("yp0_", n));
    let mut i: Full<S, D> = Ida::new(p.clone(), arr(&y0), arr(&yp0), ones());
    i.nlp.ida_ewt = arr(&vec![one(); n]);
    let back = S::flag("backwards");
    let (tn, h) = (S::var("tn"), S::var("h"));
    S::assume(if back { C::Lt(h, z()) } else { C::Lt(z(), h) });
    i.nlp.ida_tn = tn;
    i.ida_hh = h;
    i.ida_eps_newt = i.ida_epcon;
    i.nlp.ida_toldel = S::num(0.0001) * i.ida_eps_newt;
    for k in 0..n {
        i.ida_phi[[1, k]] = h * yp0[k];
    }
    let r = i.step();
    S::check_b("residual evaluations are counted", i.get_num_res_evals() == nr.get());
    S::check_b("Jacobian evaluations are counted", i.get_num_jac_evals() == nj.get() && i.get_num_lin_solv_setups() == nj.get());
    S::check_b("every failed attempt is counted", i.get_num_err_test_fails() + i.get_num_nonlin_solv_conv_fails() + i.get_num_steps() == nj.get());
    match r {
        Ok(_) => {
            S::check_b("one step", i.get_num_steps() == 1);
            let (t1, h1) = (i.get_current_time(), i.get_last_step());
            S::check("the step ends at the new time", C::Eq(t1, tn + h1));
            let y: Vec<S> = (0..n).map(|k| i.ida_phi[[0, k]]).collect();
            S::observe("y", y[0]);
            for k in 0..n {
                // backward Euler: y' is the difference quotient
                let f = (0..n).fold(z::<S>() - q[k], |s, j| s + a[k * n + j] * ((y[j] - y0[j]) / h1) + b[k * n + j] * y[j]);
                S::check("the step solves F(t, y, y') = 0", C::Eq(f, z()));
            }
            for k in 0..n {
                S::check("y is the accepted solution", C::Eq(i.get_yy()[k], y[k]));
            }
        }
        Err(_) => S::check_b("fails only after several attempts", i.get_num_err_test_fails() + i.get_num_nonlin_solv_conv_fails() > 5),
    }
}

/// a later step at order kk after steps of any sizes; the Jacobian is set up again
fn c36_later<S: IS>(kk: usize, cap: usize) {
    let p = Prob::<S>::new(1, 0);
    let (a, b, q) = (S::var("a"), S::var("b"), S::var("q"));
    let (nr, nj) = lin(&p, &[a], &[b], &[q], cap);
    let mut i: Full<S, U1> = Ida::new(p.clone(), arr(&[S::var("y0")]), arr(&[S::var("yp0")]), ones());
    i.nlp.ida_ewt = arr(&[one()]);
    let back = S::flag("backwards");
    let sgn = |x: S| S::assume(if back { C::Lt(x, z()) } else { C::Lt(z(), x) });
    let (tn, h) = (S::var("tn"), S::var("h"));
    sgn(h);
    i.nlp.ida_tn = tn;
    i.ida_hh = h;
    i.ida_eps_newt = i.ida_epcon;
    i.nlp.ida_toldel = S::num(0.0001) * i.ida_eps_newt;
    i.counters.ida_nst = 3;
    i.ida_phase = 1;
    i.ida_kk = kk;
    i.ida_kused = kk;
    let mut t = z::<S>();
    for j in 0..=kk {
        let g = S::var(&format!("g{j}"));
        sgn(g);
        if j == 0 {
            i.ida_hused = g;
        }
        t = t + g;
        i.ida_psi[j] = t;
    }
    S::assume(C::Eq(i.ida_hused, h).not());
    i.nlp.lp.ida_cj = one::<S>() / i.ida_hused;
    i.nlp.lp.ida_cjold = z::<S>() - one::<S>() / h; // of the other sign: too old
    for j in 1..6 {
        i.ida_phi[[j, 0]] = S::var(&format!("phi{j}"));
    }
    let r = i.step();
    S::check_b("residual and Jacobian evaluations are counted", i.get_num_res_evals() == nr.get() && i.get_num_jac_evals() == nj.get());
    match r {
        Ok(_) => {
            S::check_b("one step", i.get_num_steps() == 4);
            S::check("the step ends at the new time", C::Eq(i.get_current_time(), tn + i.get_last_step()));
            let (y, yp) = (i.get_yy()[0], i.get_yp()[0]);
            S::observe("y", y);
            // with an old Jacobian the iteration only comes close
            if nj.get() == 1 + i.get_num_err_test_fails() + i.get_num_nonlin_solv_conv_fails() {
                S::check("the step solves F(t, y, y') = 0", C::Eq(a * yp + b * y, q));
            }
            S::check("y is the accepted solution", C::Eq(i.ida_phi[[0, 0]], y));
        }
        Err(_) => S::check_b("fails only after several attempts", i.get_num_err_test_fails() + i.get_num_nonlin_solv_conv_fails() > 5),
    }
}
fn c36_1<S: IS>(cap: usize, shape: usize) {
    c36::<S, U1>(cap, shape)
}
fn c36_2<S: IS>(cap: usize, shape: usize) {
    c36::<S, U2>(cap, shape)
}

pub fn register(v: &mut Vec<Harness>) {
    for n in 1..=3 {
        v.push(h!("C29", format!("sys-{n}"), Real, c29_sys, n, 2));
        v.push(h!("C29", format!("setup-{n}"), Real, c29_setup, n));
        for (k, name) in [(LSolverType::Direct, "direct"), (LSolverType::MatrixIterative, "matrix-iterative"), (LSolverType::Iterative, "iterative")] {
            v.push(h!("C29", format!("solve-{name}-{n}"), Real, c29_solve, n, k));
        }
    }
    for (k, name) in [(LSolverType::Direct, "direct"), (LSolverType::MatrixIterative, "matrix-iterative"), (LSolverType::Iterative, "iterative")] {
        for l in [0, 1, 2] {
            v.push(h!("C29", format!("ratio-{name}-{l}"), Real, c29_ratio, 1, k, l).bound(format!("one unknown, {} solves with any positive ratios of cj", l + 1)));
        }
    }
    v.push(h!("C29", "setup-fails", Real, c29_setup_fails));
    for m in 0..4 {
        v.push(h!("C30", format!("test-1-{m}"), Real, c30_test, 1, m));
        let x = h!("C30", format!("test-2-{m}"), Real, c30_test, 2, m);
        v.push(if m < 2 { x } else { x.thorough() });
    }
    for n in 1..=2 {
        v.push(h!("C30", format!("setup-first-{n}"), Real, c30_lsetup, n, true));
        v.push(h!("C30", format!("setup-later-{n}"), Real, c30_lsetup, n, false));
    }
    v.push(h!("C36", "first-step-1", Real, c36_1, 2, 0).bound("one unknown, at most 2 Jacobians"));
    v.push(h!("C36", "first-step-2", Real, c36_2, 1, 1).bound("semi-explicit pair, one Jacobian"));
    v.push(h!("C36", "first-step-2-any", Real, c36_2, 1, 0).bound("any linear pair, one Jacobian"));
    v.push(h!("C36", "first-step-1-long", Real, c36_1, 3, 0).bound("one unknown, at most 3 Jacobians").thorough());
    for kk in 1..=4 {
        let x = h!("C36", format!("later-step-{kk}"), Real, c36_later, kk, 1).bound(format!("one unknown, order {kk}, steps of any sizes, one Jacobian"));
        v.push(if kk <= 4 { x } else { x.thorough() });
    }
}
