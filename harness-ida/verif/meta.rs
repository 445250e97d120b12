//! relations between runs: mirrored in time, with other output points, with the unknowns
//! renumbered; and the statistics of a run
use super::*;
use crate::error::{IdaError, Recoverable};
use crate::{IdaSolveStatus, IdaTask};
use symx::h;

fn z<S: IS>() -> S {
    S::num(0.0)
}
fn between<S: IS>(a: f64, x: S, b: f64) {
    S::assume(C::Le(S::num(a), x).and(C::Le(x, S::num(b))));
}
/// what the nonlinear solver answers, attempt by attempt; shared by the runs compared
#[derive(Clone)]
struct Script<S> {
    kind: Vec<usize>,
    e: Vec<Vec<S>>,
}
fn script<S: IS>(n: usize, attempts: usize, fails: bool) -> Script<S> {
    Script {
        kind: (0..attempts).map(|k| if fails { S::choose(&format!("outcome{k}"), 3) } else { 0 }).collect(),
        e: (0..attempts).map(|k| S::vars(&format!("e{k}_"), n)).collect(),
    }
}
impl<S: IS> Script<S> {
    /// the answers, for a run whose unknown j is unknown p[j] of the script
    fn play(&self, p: &[usize]) -> Box<dyn FnMut(usize) -> Act<S>> {
        let (s, p) = (self.clone(), p.to_vec());
        Box::new(move |c| {
            if c >= s.kind.len() {
                S::prune();
            }
            let e: Vec<S> = p.iter().map(|j| s.e[c][*j]).collect();
            match s.kind[c] {
                0 => Act::Give(e),
                1 => Act::GiveFail(e, crate::nonlinear::Error::ConvergenceRecover {}.into()),
                _ => Act::GiveFail(e, failure::Error::from(IdaError::RecoverableFail { rec_type: Recoverable::Residual })),
            }
        })
    }
}
fn status<T>(r: &Result<IdaSolveStatus, T>) -> usize {
    match r {
        Ok(IdaSolveStatus::Success) => 0,
        Ok(IdaSolveStatus::TStop) => 1,
        Ok(IdaSolveStatus::Root) => 2,
        Ok(_) => 3,
        Err(_) => 4,
    }
}
fn kind_of(r: &Result<IdaSolveStatus, failure::Error>) -> Option<std::mem::Discriminant<IdaError>> {
    r.as_ref().err().and_then(|e| e.downcast_ref::<IdaError>()).map(std::mem::discriminant)
}
fn start<S: IS>(nr: usize, y0: &[S], yp0: &[S], w: &[S], t0: S, h: S) -> (I<S>, Prob<S>) {
    let p = Prob::<S>::new(y0.len(), nr);
    let w = w.to_vec();
    let mut i = ida(&p, y0, yp0, Tol { f: Box::new(move |_| w.clone()) });
    i.nlp.ida_tn = t0;
    i.ida_hin = h;
    (i, p)
}
#[derive(Clone, Copy, PartialEq)]
pub enum With {
    Plain,
    Fails,
    Stop,
    Hmax,
    Auto,
    Root,
}
/// what the root function returns, evaluation by evaluation; shared by the runs compared
#[derive(Clone)]
struct Roots<S>(Rc<RefCell<Vec<S>>>, usize);
impl<S: IS> Roots<S> {
    fn new(most: usize) -> Self {
        Roots(Rc::new(RefCell::new(vec![])), most)
    }
    fn at(&self, k: usize) -> S {
        let mut v = self.0.borrow_mut();
        while v.len() <= k {
            if v.len() >= self.1 {
                S::prune();
            }
            let n = v.len();
            v.push(S::num([1.0, -0.5, 0.0][S::choose(&format!("g{n}"), 3)]));
        }
        v[k]
    }
}
/// the same run forwards and mirrored in time
fn c37<S: IS>(calls: usize, attempts: usize, with: With) {
    let nr = if with == With::Root { 1 } else { 0 };
    let (t0, y0, yp0) = (S::var("t0"), S::var("y0"), S::var("yp0"));
    between(-10.0, t0, 10.0);
    between(-10.0, y0, 10.0);
    between(-10.0, yp0, 10.0);
    let h = if with == With::Auto { z() } else { S::var("h") };
    if with != With::Auto {
        between(1e-3, h, 10.0);
    }
    let one = [S::num(1.0)];
    let (mut a, pa) = start(nr, &[y0], &[yp0], &one, t0, h);
    let (mut b, pb) = start(nr, &[y0], &[z::<S>() - yp0], &one, z::<S>() - t0, z::<S>() - h);
    let sc = script::<S>(1, attempts, with == With::Fails);
    a.nls.act = sc.play(&[0]);
    b.nls.act = sc.play(&[0]);
    if with == With::Stop {
        let ts = S::var("tstop");
        between(-100.0, ts, 100.0);
        S::assume(C::Le(S::num(1e-3), ts - t0));
        a.ida_tstop = Some(ts);
        b.ida_tstop = Some(z::<S>() - ts);
    }
    if with == With::Hmax {
        let hm = S::num([0.5, 8.0][S::choose("hmax", 2)]);
        a.ida_hmax_inv = hm;
        b.ida_hmax_inv = hm;
    }
    let (la, lb) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(vec![])));
    if nr > 0 {
        let g = Roots::<S>::new(3 + attempts + calls);
        for (p, l) in [(&pa, &la), (&pb, &lb)] {
            let (l, g): (Rc<RefCell<Vec<S>>>, _) = (l.clone(), g.clone());
            p.on_root(move |t, _, _| {
                l.borrow_mut().push(t);
                vec![g.at(l.borrow().len() - 1)]
            });
        }
    }
    let mut last = t0;
    for c in 0..calls {
        let tout = S::var(&format!("tout{c}"));
        between(-100.0, tout, 100.0);
        S::assume(C::Le(S::num(1e-3), tout - last));
        last = tout;
        let task = |o: bool| if o { IdaTask::OneStep } else { IdaTask::Normal };
        let o = S::flag("onestep");
        let (mut ta, mut tb) = (z::<S>(), z::<S>());
        let ra = a.solve(tout, &mut ta, task(o));
        let rb = b.solve(z::<S>() - tout, &mut tb, task(o));
        S::observe("t", ta);
        S::check_b("the same outcome", status(&ra) == status(&rb) && kind_of(&ra) == kind_of(&rb));
        S::check("the time returned is mirrored", C::Eq(ta, z::<S>() - tb));
        S::check("y is the same", C::Eq(a.get_yy()[0], b.get_yy()[0]));
        S::check("y' is reversed", C::Eq(a.get_yp()[0], z::<S>() - b.get_yp()[0]));
        S::check("the time reached is mirrored", C::Eq(a.get_current_time(), z::<S>() - b.get_current_time()));
        S::check("the steps are reversed", C::Eq(a.get_last_step(), z::<S>() - b.get_last_step()).and(C::Eq(a.get_current_setp(), z::<S>() - b.get_current_setp())));
        S::check_b("the orders are the same", a.get_current_order() == b.get_current_order() && a.get_last_order() == b.get_last_order());
        S::check_b(
            "the statistics are the same",
            a.get_num_steps() == b.get_num_steps() && a.get_num_err_test_fails() == b.get_num_err_test_fails() && a.get_num_nonlin_solv_conv_fails() == b.get_num_nonlin_solv_conv_fails() && a.get_num_g_evals() == b.get_num_g_evals(),
        );
        if nr > 0 {
            let (la, lb) = (la.borrow(), lb.borrow());
            // in the same order along the way, however close
            let order = (1..std::cmp::min(la.len(), lb.len())).all(|i| (la[i - 1] < la[i]) == (lb[i] < lb[i - 1]));
            S::check_b("the root functions are evaluated in the mirrored order", order);
            S::check("the root functions are evaluated at mirrored times", C::all(la.iter().zip(lb.iter()).map(|(x, y)| C::Eq(*x, z::<S>() - *y))));
            S::check("root information is the same", C::B(status(&ra) != 2).or(C::Eq(a.get_root_info()[0], b.get_root_info()[0])));
        }
        if ra.is_err() {
            return;
        }
        let mut da = Array1::from_vec(vec![z::<S>()]);
        let mut db = da.clone();
        for k in 0..=a.get_last_order() {
            let t = a.get_current_time();
            let s = b.get_current_time();
            let same = a.get_dky(t, k, &mut da).is_ok() == b.get_dky(s, k, &mut db).is_ok();
            S::check_b("derivatives alike", same);
            let x = if k % 2 == 0 { db[0] } else { z::<S>() - db[0] };
            S::check("the k-th derivative is mirrored", C::Eq(da[0], x));
        }
    }
}
/// everything a user sees of the internal steps
fn same<S: IS>(a: &mut I<S>, b: &mut I<S>, p: &[usize]) {
    let n = p.len();
    S::check("the same time reached", C::Eq(a.get_current_time(), b.get_current_time()));
    S::check("the same last step", C::Eq(a.get_last_step(), b.get_last_step()));
    S::check("the same next step", C::Eq(a.get_current_setp(), b.get_current_setp()));
    S::check_b("the same orders", a.get_current_order() == b.get_current_order() && a.get_last_order() == b.get_last_order());
    S::check_b("the same failures", a.get_num_err_test_fails() == b.get_num_err_test_fails() && a.get_num_nonlin_solv_conv_fails() == b.get_num_nonlin_solv_conv_fails());
    let mut da = Array1::from_vec(zeros::<S>(n));
    let mut db = da.clone();
    for k in 0..=a.get_last_order() {
        let t = a.get_current_time();
        let same = a.get_dky(t, k, &mut da).is_ok() == b.get_dky(t, k, &mut db).is_ok();
        S::check_b("derivatives alike", same);
        for q in 0..n {
            S::check("the same interpolant", C::Eq(db[q], da[p[q]]));
        }
    }
}
/// in the middle of a run: `ns` equal steps of size h (the last `back` ones before them of other
/// sizes) at order k, differences d of the unknowns' orders 0 to k + 1
fn mid<S: IS>(i: &mut I<S>, k: usize, ns: usize, sg: f64, tn: S, d: &[Vec<S>]) {
    i.ida_setup_done = true;
    i.nlp.ida_tn = tn;
    i.ida_tretlast = tn;
    i.ida_kk = k;
    i.ida_kused = k;
    i.ida_knew = k;
    i.ida_phase = 1;
    i.ida_ns = ns;
    i.counters.ida_nst = 10;
    let h = S::num(sg);
    i.ida_hh = h;
    i.ida_hused = h;
    i.ida_h0u = h;
    let mut t = 0.0;
    for j in 0..6 {
        t += if j <= ns { sg } else { sg * 0.5 };
        i.ida_psi[j] = S::num(t);
    }
    let mut sig = 1.0;
    let mut gam = 0.0;
    let mut t = 0.0;
    for j in 0..6 {
        // the last step's coefficients
        t += if j < ns { sg } else { sg * 0.5 };
        let al = sg / t;
        i.ida_alpha[j] = S::num(al);
        i.ida_beta[j] = S::num(1.0);
        if j > 0 {
            sig *= j as f64 * al;
        }
        i.ida_sigma[j] = S::num(sig);
        i.ida_gamma[j] = S::num(gam);
        gam += al / sg;
    }
    let c: f64 = (1..=k).map(|j| 1.0 / j as f64).sum();
    i.nlp.lp.ida_cj = S::num(c) / h;
    i.nlp.lp.ida_cjold = i.nlp.lp.ida_cj;
    i.ida_eps_newt = S::num(0.33);
    i.nlp.ida_toldel = S::num(0.33e-4);
    i.nlp.ida_ss = S::num(20.0);
    for (j, r) in d.iter().enumerate() {
        for (q, x) in r.iter().enumerate() {
            i.ida_phi[[j, q]] = *x;
        }
    }
}
/// looking at the solution does not influence the steps after it, at any order
fn c38_look<S: IS>(k: usize, steps: usize) {
    let sg = if S::flag("backwards") { -1.0 } else { 1.0 };
    let ns = [k, k + 1, k + 2][S::choose("ns", 3)];
    let tn = S::var("tn");
    between(-10.0, tn, 10.0);
    let d: Vec<Vec<S>> = (0..6).map(|j| vec![if j <= k + 1 { S::num(0.2f64.powi(j as i32)) } else { z() }]).collect();
    let mut go = || {
        let (mut i, _) = start(0, &[z()], &[z()], &[S::num(1.0)], tn, z());
        mid(&mut i, k, ns, sg, tn, &d);
        i
    };
    let (mut a, mut b) = (go(), go());
    let sc = script::<S>(1, steps, false);
    a.nls.act = sc.play(&[0]);
    b.nls.act = sc.play(&[0]);
    let far = tn + S::num(sg * 1e6);
    let th = S::var("theta");
    between(0.0, th, 0.9);
    let mut x = Array1::from_vec(vec![z::<S>()]);
    for _ in 0..steps {
        let t = b.get_current_time() - th * b.get_last_step();
        let _ = b.get_solution(t);
        for m in 0..=b.get_last_order() {
            let _ = b.get_dky(t, m, &mut x);
        }
        let (mut ta, mut tb) = (z::<S>(), z::<S>());
        let ra = a.solve(far, &mut ta, IdaTask::OneStep);
        let rb = b.solve(far, &mut tb, IdaTask::OneStep);
        S::observe("t", tb);
        S::check_b("the same outcome", status(&ra) == status(&rb));
        if ra.is_err() {
            return;
        }
        S::check("the same time", C::Eq(ta, tb));
        S::check("the same y and y'", C::Eq(a.get_yy()[0], b.get_yy()[0]).and(C::Eq(a.get_yp()[0], b.get_yp()[0])));
        same(&mut a, &mut b, &[0]);
    }
}
/// forwards and mirrored, from the middle of a run
fn c37_mid<S: IS>(k: usize, steps: usize, fails: bool, nr: usize) {
    let ns = [1, k + 1, k + 2][S::choose("ns", 3)];
    let tn = S::var("tn");
    between(-10.0, tn, 10.0);
    let d: Vec<Vec<S>> = (0..6).map(|j| vec![if j <= k + 1 { S::num(0.2f64.powi(j as i32)) } else { z() }]).collect();
    let (mut a, pa) = start(nr, &[z()], &[z()], &[S::num(1.0)], tn, z());
    let (mut b, pb) = start(nr, &[z()], &[z()], &[S::num(1.0)], z::<S>() - tn, z());
    mid(&mut a, k, ns, 1.0, tn, &d);
    mid(&mut b, k, ns, -1.0, z::<S>() - tn, &d);
    let mut sc = script::<S>(1, if fails { steps + 1 } else { steps }, false);
    if fails {
        sc.kind[0] = 1 + S::choose("failure", 2);
    }
    a.nls.act = sc.play(&[0]);
    b.nls.act = sc.play(&[0]);
    let g = Roots::<S>::new(3 + steps);
    let (la, lb) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(vec![])));
    if nr > 0 {
        for (i, p, l) in [(&mut a, &pa, &la), (&mut b, &pb, &lb)] {
            i.ida_tlo = i.nlp.ida_tn;
            i.ida_glo[0] = S::num(1.0);
            let (l, g): (Rc<RefCell<Vec<S>>>, _) = (l.clone(), g.clone());
            p.on_root(move |t, _, _| {
                l.borrow_mut().push(t);
                vec![g.at(l.borrow().len() - 1)]
            });
        }
    }
    for c in 0..steps {
        let dt = S::var(&format!("tout{c}"));
        between(0.001, dt, 10.0);
        let o = nr == 0 && S::flag("onestep");
        let task = || if o { IdaTask::OneStep } else { IdaTask::Normal };
        let (mut ta, mut tb) = (z::<S>(), z::<S>());
        let last = a.get_current_time();
        let ra = a.solve(last + dt, &mut ta, task());
        let rb = b.solve(z::<S>() - (last + dt), &mut tb, task());
        S::observe("t", ta);
        S::check_b("the same outcome", status(&ra) == status(&rb) && kind_of(&ra) == kind_of(&rb));
        if ra.is_err() {
            return;
        }
        S::check("the time returned is mirrored", C::Eq(ta, z::<S>() - tb));
        S::check("y is the same", C::Eq(a.get_yy()[0], b.get_yy()[0]));
        S::check("y' is reversed", C::Eq(a.get_yp()[0], z::<S>() - b.get_yp()[0]));
        S::check("the time reached is mirrored", C::Eq(a.get_current_time(), z::<S>() - b.get_current_time()));
        S::check("the steps are reversed", C::Eq(a.get_last_step(), z::<S>() - b.get_last_step()).and(C::Eq(a.get_current_setp(), z::<S>() - b.get_current_setp())));
        S::check_b("the orders are the same", a.get_current_order() == b.get_current_order() && a.get_last_order() == b.get_last_order());
        S::check_b("the counts are the same", a.get_num_steps() == b.get_num_steps() && a.get_num_err_test_fails() == b.get_num_err_test_fails() && a.get_num_nonlin_solv_conv_fails() == b.get_num_nonlin_solv_conv_fails());
        S::check("the estimate of the convergence rate is the same", C::Eq(a.nlp.ida_ss, b.nlp.ida_ss));
        S::check_b("a new iteration matrix alike", a.nls.calls.iter().zip(b.nls.calls.iter()).all(|(x, y)| x.lsetup == y.lsetup));
        {
            let (la, lb) = (la.borrow(), lb.borrow());
            S::check_b("as many evaluations of the root function", la.len() == lb.len());
            S::check("at mirrored times", C::all(la.iter().zip(lb.iter()).map(|(x, y)| C::Eq(*x, z::<S>() - *y))));
        }
        let (mut da, mut db) = (Array1::from_vec(vec![z::<S>()]), Array1::from_vec(vec![z::<S>()]));
        for m in 0..=a.get_last_order() {
            let (t, s) = (a.get_current_time(), b.get_current_time());
            let same = a.get_dky(t, m, &mut da).is_ok() == b.get_dky(s, m, &mut db).is_ok();
            S::check_b("derivatives alike", same);
            let x = if m % 2 == 0 { db[0] } else { z::<S>() - db[0] };
            S::check("the derivatives are mirrored", C::Eq(da[0], x));
        }
    }
}
/// renumbered, from the middle of a run
fn c39_mid<S: IS>(k: usize, p: &[usize], steps: usize, fails: bool) {
    let n = p.len();
    let ns = if k > 2 { k + 2 } else { [1, k + 1, k + 2][S::choose("ns", 3)] };
    let d: Vec<Vec<S>> = (0..6)
        .map(|j| {
            if j > k + 1 {
                return zeros(n);
            }
            if k > 2 {
                return (0..n).map(|q| S::num(0.5 + 0.25 * (j * n + q) as f64)).collect();
            }
            let r: Vec<S> = S::vars(&format!("d{j}_"), n);
            for x in &r {
                between(-10.0, *x, 10.0);
            }
            r
        })
        .collect();
    let pick = |x: &[S]| -> Vec<S> { p.iter().map(|j| x[*j]).collect() };
    let w: Vec<S> = (0..n).map(|q| S::num([1.0, 0.5, 2.0][q % 3])).collect();
    let id: Vec<bool> = (0..n).map(|q| if k > 2 { q > 0 } else { S::flag(&format!("id{q}")) }).collect();
    let (mut a, _) = start(0, &zeros(n), &zeros(n), &w, z(), z());
    let (mut b, _) = start(0, &zeros(n), &zeros(n), &pick(&w), z(), z());
    mid(&mut a, k, ns, 1.0, z(), &d);
    mid(&mut b, k, ns, 1.0, z(), &d.iter().map(|r| pick(r)).collect::<Vec<_>>());
    a.ida_suppressalg = true;
    b.ida_suppressalg = true;
    b.ida_id = Array1::from_vec(p.iter().map(|j| id[*j]).collect());
    a.ida_id = Array1::from_vec(id);
    let mut sc = script::<S>(n, if fails { steps + 1 } else { steps }, false);
    if fails {
        sc.kind[0] = 1 + S::choose("failure", 2);
    }
    a.nls.act = sc.play(&(0..n).collect::<Vec<_>>());
    b.nls.act = sc.play(p);
    for _ in 0..steps {
        let (mut ta, mut tb) = (z::<S>(), z::<S>());
        let ra = a.solve(S::num(1e6), &mut ta, IdaTask::OneStep);
        let rb = b.solve(S::num(1e6), &mut tb, IdaTask::OneStep);
        S::observe("t", ta);
        S::check_b("the same outcome", status(&ra) == status(&rb) && kind_of(&ra) == kind_of(&rb));
        if ra.is_err() {
            return;
        }
        for q in 0..n {
            S::check("y is renumbered", C::Eq(b.get_yy()[q], a.get_yy()[p[q]]));
            S::check("y' is renumbered", C::Eq(b.get_yp()[q], a.get_yp()[p[q]]));
        }
        same(&mut a, &mut b, p);
    }
}
/// outputs (touts, interpolation, root functions) do not influence the steps
fn c38<S: IS>(calls: usize, attempts: usize, fails: bool, nr: usize) {
    let (t0, y0, yp0, h) = (S::var("t0"), S::var("y0"), S::var("yp0"), S::var("h"));
    between(-10.0, t0, 10.0);
    between(-10.0, y0, 10.0);
    between(-10.0, yp0, 10.0);
    between(1e-3, h, 10.0);
    let back = nr == 0 && S::flag("backwards");
    let sg = S::num(if back { -1.0 } else { 1.0 });
    let one = [S::num(1.0)];
    let (mut a, _) = start(0, &[y0], &[yp0], &one, t0, sg * h);
    let (mut b, pb) = start(nr, &[y0], &[yp0], &one, t0, sg * h);
    let sc = script::<S>(1, attempts, fails);
    a.nls.act = sc.play(&[0]);
    b.nls.act = sc.play(&[0]);
    if nr > 0 {
        let (g, k) = (Roots::<S>::new(2 + attempts), std::cell::Cell::new(0));
        pb.on_root(move |_, _, _| {
            k.set(k.get() + 1);
            vec![g.at(k.get() - 1)]
        });
    }
    let far = t0 + sg * S::num(1e6);
    let mut last = S::num(1e-3);
    for c in 0..calls {
        let d = S::var(&format!("tout{c}"));
        S::assume(C::Le(last, d).and(C::Le(d, S::num(100.0))));
        last = d + S::num(1e-3);
        let mut tb = z::<S>();
        let r = b.solve(t0 + sg * d, &mut tb, IdaTask::Normal);
        S::observe("t", tb);
        if r.is_err() {
            return;
        }
        // the user looks around in the last step
        let mut x = Array1::from_vec(vec![z::<S>()]);
        if c == 0 {
            let mid = b.get_current_time() - S::num(0.5) * b.get_last_step();
            S::check_b("a look at the middle of the step", b.get_solution(mid).is_ok() && b.get_dky(mid, 1, &mut x).is_ok());
        }
        let mut ta = z::<S>();
        while a.get_num_steps() < b.get_num_steps() {
            let n = a.get_num_steps();
            let r = a.solve(far, &mut ta, IdaTask::OneStep);
            S::check_b("a step", r.is_ok() && a.get_num_steps() == n + 1);
            if r.is_err() || a.get_num_steps() != n + 1 {
                return;
            }
        }
        same(&mut a, &mut b, &[0]);
    }
}
/// renumbering the unknowns renumbers the results
fn c39<S: IS>(n: usize, p: &[usize], steps: usize, attempts: usize, fails: bool, masked: bool) {
    let (t0, h) = (S::var("t0"), S::var("h"));
    let (y0, yp0) = (S::vars("y", n), S::vars("yp", n));
    let w: Vec<S> = if masked { vec![S::num(1.0); n] } else { S::vars("w", n) };
    for q in 0..n {
        between(-10.0, y0[q], 10.0);
        between(-10.0, yp0[q], 10.0);
        between(0.1, w[q], 10.0);
    }
    between(-10.0, t0, 10.0);
    between(1e-3, h, 10.0);
    let pick = |x: &[S]| -> Vec<S> { p.iter().map(|j| x[*j]).collect() };
    let (mut a, _) = start(0, &y0, &yp0, &w, t0, h);
    let (mut b, _) = start(0, &pick(&y0), &pick(&yp0), &pick(&w), t0, h);
    if masked {
        let id: Vec<bool> = (0..n).map(|q| S::flag(&format!("id{q}"))).collect();
        a.ida_suppressalg = true;
        b.ida_suppressalg = true;
        b.ida_id = Array1::from_vec(p.iter().map(|j| id[*j]).collect());
        a.ida_id = Array1::from_vec(id);
    }
    let sc = script::<S>(n, attempts, fails);
    a.nls.act = sc.play(&(0..n).collect::<Vec<_>>());
    b.nls.act = sc.play(p);
    let far = t0 + S::num(1e6);
    for _ in 0..steps {
        let (mut ta, mut tb) = (z::<S>(), z::<S>());
        let ra = a.solve(far, &mut ta, IdaTask::OneStep);
        let rb = b.solve(far, &mut tb, IdaTask::OneStep);
        S::observe("t", ta);
        S::check_b("the same outcome", status(&ra) == status(&rb) && kind_of(&ra) == kind_of(&rb));
        S::check("the same time returned", C::Eq(ta, tb));
        for q in 0..n {
            S::check("y is renumbered", C::Eq(b.get_yy()[q], a.get_yy()[p[q]]));
            S::check("y' is renumbered", C::Eq(b.get_yp()[q], a.get_yp()[p[q]]));
        }
        if ra.is_err() {
            return;
        }
        same(&mut a, &mut b, p);
    }
}
/// the statistics are the true counts
fn c40<S: IS>(calls: usize, attempts: usize, nr: usize) {
    let (y0, yp0) = (S::var("y0"), S::num(0.5));
    between(-10.0, y0, 10.0);
    let p = Prob::<S>::new(1, nr);
    let mut i = ida(&p, &[y0], &[yp0], ones());
    i.ida_hin = S::num(1.0);
    let cnt: Rc<RefCell<[usize; 5]>> = Rc::new(RefCell::new([0; 5])); // residuals, Jacobians, root functions
    let (c1, c2, c3) = (cnt.clone(), cnt.clone(), cnt.clone());
    p.on_res(move |_, _, _| {
        c1.borrow_mut()[0] += 1;
        vec![S::num(0.0)]
    });
    p.on_jac(move |_, _, _, _, _| {
        c2.borrow_mut()[1] += 1;
        vec![S::num(1.0)]
    });
    let g = Roots::<S>::new(attempts + 2 * calls);
    p.on_root(move |_, _, _| {
        c3.borrow_mut()[2] += 1;
        let x = g.at(c3.borrow()[2] - 1);
        (0..nr).map(|q| if q == 0 { x } else { S::num(1.0) }).collect()
    });
    // what happens in each attempt: solved with 0 to 2 linear solves, rejected, not converged
    let out: Vec<usize> = (0..attempts).map(|k| if nr > 0 { [1, 2][S::choose(&format!("outcome{k}"), 2)] } else { S::choose(&format!("outcome{k}"), 5) }).collect();
    let kind = if nr > 0 { LSolverType::Direct } else { [LSolverType::Direct, LSolverType::Iterative][S::choose("solver", 2)] };
    lsc::<S, _>(|c| {
        c.kind = kind;
        c.iters = 3;
        c.x = vec![z()];
    });
    let o2 = out.clone();
    i.nls.act = Box::new(move |k| {
        if k >= o2.len() {
            S::prune();
        }
        lsc::<S, _>(|c| {
            c.setup_fails = o2[k] == 4;
            c.solve_fails = o2[k] == 4;
        });
        match o2[k] {
            0 => Act::Give(vec![z()]),
            1 => Act::Lin(vec![S::num(1.0)]),
            2 => Act::Give(vec![S::num(1e6)]), // fails the error test
            3 => Act::Probe(crate::nonlinear::Error::ConvergenceRecover {}.into()),
            _ => Act::Lin(vec![S::num(1.0)]), // the set-up, or else the solve, fails
        }
    });
    for c in 0..calls {
        let d = S::var(&format!("tout{c}"));
        between(0.01, d, 100.0);
        let mut t = z();
        let r = i.solve(d, &mut t, if S::flag("onestep") { IdaTask::OneStep } else { IdaTask::Normal });
        S::observe("t", t);
        let tried = &out[..i.nls.calls.len()];
        let n = |f: &dyn Fn(usize) -> bool| tried.iter().filter(|o| f(**o)).count();
        let k = cnt.borrow();
        S::check_b("steps", i.get_num_steps() == n(&|o| o <= 1));
        S::check_b("error test failures", i.get_num_err_test_fails() == n(&|o| o == 2));
        S::check_b("convergence failures", i.get_num_nonlin_solv_conv_fails() == n(&|o| o >= 3));
        S::check_b("residual evaluations", i.get_num_res_evals() == k[0]);
        S::check_b("Jacobian evaluations", i.get_num_jac_evals() == k[1]);
        S::check_b("set-ups of the linear solver", i.get_num_lin_solv_setups() == lsc::<S, _>(|c| c.setups.len()));
        let ls = lsc::<S, _>(|c| c.solves.len());
        S::check_b("linear iterations", i.get_num_lin_iters() == if kind == LSolverType::Iterative { 3 * ls } else { 0 });
        S::check_b("root function evaluations", i.get_num_g_evals() == k[2]);
        S::check_b("nonlinear iterations", i.get_num_nonlin_solv_iters() == tried.len());
        S::check_b("no residual evaluations for difference quotients", i.get_num_lin_res_evals() == 0);
        if r.is_err() {
            return;
        }
    }
}

pub fn register(v: &mut Vec<Harness>) {
    use With::*;
    let t = |b: bool, h: Harness| if b { h.thorough() } else { h };
    for (th, w, name, calls, att) in [
        (false, Plain, "plain", 2, 2),
        (false, Fails, "failures", 1, 2),
        (false, Stop, "stop-time", 2, 2),
        (false, Hmax, "hmax", 1, 2),
        (false, Auto, "automatic-step", 1, 2),
        (false, Root, "root", 2, 1),
        (true, Plain, "plain", 2, 3),
        (true, Plain, "plain", 3, 3),
        (true, Fails, "failures", 2, 3),
        (true, Stop, "stop-time", 3, 3),
        (true, Hmax, "hmax", 2, 3),
        (true, Auto, "automatic-step", 2, 3),
        (true, Root, "root", 2, 2),
    ] {
        v.push(t(th, h!("C37", format!("{name}-{calls}-{att}"), Real, c37, calls, att, w).bound(format!("{calls} call(s), at most {att} attempt(s)"))));
    }
    for k in 1..=5 {
        for (th, n, f, nr) in [(false, 1, false, 0), (false, 1, true, 0), (k > 2, 1, false, 1), (true, 2, false, 0), (true, 2, true, 0), (true, 2, false, 1)] {
            v.push(t(th, h!("C37", format!("later-{k}-{n}-{nr}{}", if f { "-failures" } else { "" }), Real, c37_mid, k, n, f, nr).bound(format!("order {k} with 1, k+1 or k+2 equal steps before, {n} call(s), {nr} root function(s)"))));
        }
        for (th, n, p, f) in [(false, 1, &[1usize, 0][..], false), (true, 2, &[1, 0], false), (true, 1, &[1, 0], true), (true, 1, &[1, 2, 0], false)] {
            v.push(t(th, h!("C39", format!("later-{k}-{n}-{}{}", p.len(), if f { "-failures" } else { "" }), Real, c39_mid, k, p, n, f).bound(format!("order {k} with 1, k+1 or k+2 equal steps before, {} unknowns with a mask, {n} step(s)", p.len()))));
        }
    }
    for (th, calls, att, f, nr) in [(false, 2, 2, false, 0), (false, 1, 2, true, 0), (false, 1, 2, false, 1), (true, 2, 3, false, 0), (true, 2, 3, true, 0), (true, 2, 2, false, 1), (true, 3, 4, false, 0)] {
        v.push(t(th, h!("C38", format!("outputs-{calls}-{att}-{nr}{}", if f { "-failures" } else { "" }), Real, c38, calls, att, f, nr).bound(format!("{calls} call(s), at most {att} attempts, {nr} root function(s)"))));
    }
    for (th, k, n) in (1..=5).map(|k| (false, k, if k < 3 { 2 } else { 1 })).chain((1..=5).map(|k| (true, k, if k < 3 { 3 } else { 2 }))) {
        v.push(t(th, h!("C38", format!("look-{k}-{n}"), Real, c38_look, k, n).bound(format!("order {k} with k to k+2 equal steps before, {n} further attempts with interpolation at any time before each"))));
    }
    for (th, n, p, steps, att, f, m) in [
        (false, 2usize, &[1usize, 0][..], 2, 2, false, false),
        (false, 2, &[1, 0], 1, 2, true, false),
        (false, 2, &[1, 0], 2, 2, false, true),
        (false, 3, &[1, 2, 0], 1, 1, false, false),
        (true, 2, &[1, 0], 3, 3, false, false),
        (true, 2, &[1, 0], 2, 3, true, false),
        (true, 3, &[1, 2, 0], 2, 2, false, true),
    ] {
        v.push(t(th, h!("C39", format!("renumbered-{n}-{steps}-{att}{}{}", if f { "-failures" } else { "" }, if m { "-masked" } else { "" }), Real, c39, n, p, steps, att, f, m).bound(format!("{n} unknowns, {steps} step(s), at most {att} attempt(s)"))));
    }
    for (th, calls, att, nr) in [(false, 1, 3, 0), (false, 2, 2, 0), (false, 2, 1, 1), (true, 2, 2, 1), (true, 2, 4, 0), (true, 3, 3, 2)] {
        v.push(t(th, h!("C40", format!("counts-{calls}-{att}-{nr}"), Real, c40, calls, att, nr).bound(format!("{calls} call(s), at most {att} attempts, {nr} root function(s)"))));
    }
}
