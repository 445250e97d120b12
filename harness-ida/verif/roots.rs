//! rootfinding
use super::*;
use crate::error::IdaError;
use crate::impl_r_check::RootStatus;
use crate::{IdaSolveStatus, IdaTask};
use symx::h;

fn z<S: IS>() -> S {
    S::num(0.0)
}
fn between<S: IS>(a: f64, x: S, b: f64) {
    S::assume(C::Le(S::num(a), x).and(C::Le(x, S::num(b))));
}
/// set a direction, if the type of the field can hold it
fn dir<T: num_traits::NumCast>(slot: &mut T, d: i32) -> bool {
    match num_traits::cast(d) {
        Some(x) => {
            *slot = x;
            true
        }
        None => false,
    }
}
/// a state after a step from tn - hused to tn on a straight line
fn state<S: IS>(nr: usize, ahead: bool) -> (I<S>, S, S, S, S) {
    let (tn, y, yp, h) = (S::var("tn"), S::var("y"), S::var("yp"), S::var("h"));
    between(-1e3, tn, 1e3);
    let back = !ahead && S::flag("backwards");
    between(1e-3, if back { z::<S>() - h } else { h }, 1e3);
    let p = Prob::<S>::new(1, nr);
    let mut i = ida(&p, &[y], &[yp], ones());
    i.nlp.ida_tn = tn;
    i.ida_hh = h;
    i.ida_hused = h;
    i.ida_kk = 1;
    i.ida_kused = 1;
    i.counters.ida_nst = 3;
    i.ida_psi[0] = h;
    i.ida_psi[1] = h + h;
    i.ida_phi[[1, 0]] = yp * h;
    (i, tn, y, yp, h)
}
struct Ev<S> {
    t: S,
    g: Vec<S>,
}
/// the search in one step, whatever the root functions return
fn c28_search<S: IS>(nr: usize, evals: usize, dirs: bool, small: bool) {
    let (mut i, tn, y, yp, h) = state::<S>(nr, small);
    let (mut act, mut ds) = (vec![], vec![]);
    for q in 0..nr {
        act.push(small || S::flag(&format!("active{q}")));
        i.ida_gactive[q] = act[q];
        let d = if dirs { [0, 1, -1][S::choose(&format!("dir{q}"), 3)] } else { 0 };
        if !dir(&mut i.ida_rootdir[q], d) {
            S::prune();
        }
        ds.push(d);
    }
    let tlo = S::var("tlo");
    S::assume(C::Lt(z(), (tn - tlo) * h).and(C::Le(z(), (tlo - tn + h) * h)));
    i.ida_tlo = tlo;
    let glo = S::vars("glo", nr);
    for q in 0..nr {
        if act[q] {
            S::assume(C::Eq(glo[q], z()).not());
        }
        i.ida_glo[q] = glo[q];
    }
    // normal mode with a tout in the step searches up to tout only
    let tout = S::var("tout");
    let one = small || S::flag("onestep");
    S::assume(C::Lt(z(), (tout - tlo) * h));
    i.ida_taskc = if one { IdaTask::OneStep } else { IdaTask::Normal };
    i.ida_toutc = tout;
    let end = if one { tn } else { S::pick(C::Le(z(), (tout - tn) * h), tn, tout) };
    let log: Rc<RefCell<Vec<Ev<S>>>> = Rc::new(RefCell::new(vec![]));
    let l2 = log.clone();
    i.nlp.lp.problem.on_root(move |t, yy, yyp| {
        let k = l2.borrow().len();
        if k >= evals {
            S::prune();
        }
        let g = S::vars(&format!("g{k}"), nr);
        S::check("g is evaluated on the solution", C::Eq(yy[0], y + yp * (t - tn)));
        S::check("g is evaluated on the derivative", C::Eq(yyp[0], yp));
        l2.borrow_mut().push(Ev { t, g: g.clone() });
        g
    });
    for q in 0..nr {
        i.ida_iroots[q] = S::num(7.0);
    }
    let nge = i.ida_nge;
    let r = i.r_check3();
    let log = log.borrow();
    let tr = i.ida_trout;
    S::observe("t", tr);
    S::check_b("every evaluation is counted", i.ida_nge == nge + log.len() && i.get_num_g_evals() == i.ida_nge);
    S::check("the first evaluation is at the end of the interval", C::Eq(log[0].t, end));
    // which components count, and whether they changed sign since tlo
    let on = |q: usize| C::B(act[q]).and(C::B(ds[q] == 0).or(C::Lt(S::num(ds[q] as f64) * glo[q], z())));
    let crossed = |g: &[S], q: usize| on(q).and(C::Le(glo[q] * g[q], z()));
    let any = |g: &[S]| C::any((0..nr).map(|q| crossed(g, q)));
    let ttol = S::num(100.0) * S::num(f64::EPSILON) * (tn.absv() + h.absv());
    match r {
        Err(_) => S::fail("no error is possible"),
        Ok(RootStatus::Continue) => {
            S::check_b("one evaluation if nothing is found", log.len() == 1);
            S::check("nothing to find", any(&log[0].g).not());
            S::check("the interval is done", C::Eq(i.ida_tlo, end));
            S::check("g there is kept", C::eqs(&v(&i.ida_glo), &log[0].g));
            for q in 0..nr {
                S::check("a function that moved off zero is watched again", C::B(i.ida_gactive[q]).or(C::Eq(log[0].g[q], z())));
                S::check_b("no function is dropped", !act[q] || i.ida_gactive[q]);
                S::check("one that stays zero is not watched", C::B(act[q] || !i.ida_gactive[q]).or(C::Eq(log[0].g[q], z()).not()));
            }
        }
        Ok(RootStatus::RootFound) => {
            S::check("found only if something changed sign", any(&log[0].g));
            S::check("the root lies in the interval", C::Le(z(), (tr - tlo) * h).and(C::Le(z(), (end - tr) * h)));
            S::check("the search goes on behind it", C::Eq(i.ida_tlo, tr));
            let g = v(&i.ida_grout);
            S::check_any("g at the root was evaluated there", log.iter().map(|e| C::Eq(e.t, tr).and(C::eqs(&e.g, &g))).collect());
            S::check("a component changed sign up to there", any(&g));
            // nothing has changed sign at an evaluation before the root
            for e in log.iter() {
                S::check("no sign change at an earlier evaluation", C::Lt((e.t - tr) * h, z()).implies(any(&e.g).not()));
            }
            // an exact zero, or a bracket of at most the tolerance whose low end is tlo or an evaluation
            let mut alts: Vec<C<S>> = (0..nr).map(|q| on(q).and(C::Eq(g[q], z()))).collect();
            alts.push(C::Le((tr - tlo).absv(), ttol));
            for e in log.iter() {
                alts.push(C::Le((tr - e.t).absv(), ttol).and(C::Lt((e.t - tr) * h, z())));
            }
            S::check("located to the tolerance", C::any(alts));
            let info = i.get_root_info().to_vec();
            for q in 0..nr {
                let up = C::Lt(glo[q], z());
                S::check(
                    "get_root_info: 1 rising, -1 falling, 0 no root",
                    crossed(&g, q).and(up.clone()).and(C::Eq(info[q], S::num(1.0))).or(crossed(&g, q).and(up.not()).and(C::Eq(info[q], S::num(-1.0)))).or(crossed(&g, q).not().and(C::Eq(info[q], z()))),
                );
            }
            S::check("y is the solution at the root", C::Eq(i.get_yy().to_vec()[0], y + yp * (tr - tn)));
            S::check("y' is the derivative at the root", C::Eq(i.get_yp().to_vec()[0], yp));
        }
    }
}
/// every probe lies strictly inside the bracket left by the ones before
fn c28_bracket<S: IS>(evals: usize, tame: bool) {
    let (mut i, tn, _y, _yp, h) = state::<S>(1, false);
    i.ida_gactive[0] = true;
    let tlo = S::var("tlo");
    S::assume(C::Lt(z(), (tn - tlo) * h).and(C::Le(z(), (tlo - tn + h) * h)));
    i.ida_tlo = tlo;
    let glo = S::var("glo");
    S::assume(C::Lt(glo, z()));
    let (mut tn, mut tlo, mut h) = (tn, tlo, h);
    if tame {
        // a bracket from 1 to 2 and values of similar size: the probes stay away from the ends
        (tn, tlo, h) = (S::num(2.0), S::num(1.0), S::num(1.0));
        i.nlp.ida_tn = tn;
        i.ida_hh = h;
        i.ida_hused = h;
        i.ida_psi[0] = h;
        i.ida_tlo = tlo;
        S::assume(C::Le(S::num(-2.0), glo).and(C::Le(glo, S::num(-1.0))));
    }
    i.ida_glo[0] = glo;
    i.ida_taskc = IdaTask::OneStep;
    // (t, g) of the ends of the bracket, and the side replaced last and the time before
    let st = Rc::new(RefCell::new(((tlo, glo), (tn, z::<S>()), 0usize, 0usize, 0usize, S::num(1.0))));
    let s2 = st.clone();
    let ttol = S::num(100.0) * S::num(f64::EPSILON) * (tn.absv() + h.absv());
    i.nlp.lp.problem.on_root(move |t, _, _| {
        let (lo, hi, k, s1, s0, alpha) = *s2.borrow();
        if k >= evals {
            S::prune();
        }
        let g = S::var(&format!("g{k}"));
        if tame && k + 1 < evals {
            between(1.0, g.absv(), 2.0);
        }
        if k == 0 {
            S::assume(C::Lt(z(), g));
            *s2.borrow_mut() = (lo, (t, g), 1, 0, 0, alpha);
            return vec![g];
        }
        S::check("inside the bracket", C::Lt(z(), (t - lo.0) * h).and(C::Lt(z(), (hi.0 - t) * h)));
        // Illinois: the weight of the low end doubles (halves) with every further move of the low (high) end
        let w = if s1 != 0 && s1 == s0 { alpha * S::num(if s1 == 2 { 2.0 } else { 0.5 }) } else { S::num(1.0) };
        let sec = hi.0 - (hi.0 - lo.0) * hi.1 / (hi.1 - w * lo.1);
        let near = S::num(0.5) * ttol;
        let away = C::Le(near, (sec - lo.0).absv()).and(C::Le(near, (hi.0 - sec).absv()));
        S::check("the Illinois point, unless that is too close to an end", away.clone().implies(C::Eq(t, sec)));
        let ten = S::num(0.1 - 1e-9) * (hi.0 - lo.0).absv();
        let five = S::num(5.0) * ttol;
        let inner = C::Le(ten, (t - lo.0).absv()).and(C::Le(ten, (hi.0 - t).absv()));
        S::check("too close: moved in by a tenth", C::any(vec![away, C::Le((hi.0 - lo.0).absv(), five), inner]));
        let low = S::flag("low side");
        let zero = if tame { k + 1 == evals } else { S::flag("zero") };
        if zero {
            S::assume(C::Eq(g, z()));
            *s2.borrow_mut() = (lo, (t, g), 99, 1, s1, w);
        } else if low {
            S::assume(C::Lt(z(), g));
            *s2.borrow_mut() = (lo, (t, g), k + 1, 1, s1, w);
        } else {
            S::assume(C::Lt(g, z()));
            *s2.borrow_mut() = ((t, g), hi, k + 1, 2, s1, w);
        }
        vec![g]
    });
    let r = i.r_check3();
    S::check_b("a root", matches!(r, Ok(RootStatus::RootFound)));
    let (lo, hi, ..) = *st.borrow();
    S::check("the root is the far end of the last bracket", C::Eq(i.ida_trout, hi.0));
    S::check("which is short, or the root is exact", C::Le((hi.0 - lo.0).absv(), ttol).or(C::Eq(hi.1, z())));
}
/// two functions: every probe lies in the bracket and at the secant point of one that changes sign in it
fn c28_bracket_two<S: IS>(evals: usize) {
    let (mut i, ..) = state::<S>(2, true);
    let one = S::num(1.0);
    i.nlp.ida_tn = S::num(2.0);
    i.ida_hh = one;
    i.ida_hused = one;
    i.ida_psi[0] = one;
    i.ida_tlo = one;
    i.ida_taskc = IdaTask::OneStep;
    let glo = S::vars("glo", 2);
    for q in 0..2 {
        i.ida_gactive[q] = true;
        between(-2.0, glo[q], -1.0);
        i.ida_glo[q] = glo[q];
    }
    let st = Rc::new(RefCell::new(((one, glo), (S::num(2.0), zeros::<S>(2)), 0usize, 0)));
    let s2 = st.clone();
    i.nlp.lp.problem.on_root(move |t, _, _| {
        let (lo, hi, k, side) = s2.borrow().clone();
        if k >= evals {
            S::prune();
        }
        let last = k + 1 == evals;
        let g = if last { zeros(2) } else { S::vars(&format!("g{k}"), 2) };
        for q in 0..if last { 0 } else { 2 } {
            between(1.0, g[q].absv(), 2.0);
        }
        let up: Vec<bool> = (0..2)
            .map(|q| {
                if last {
                    return true;
                }
                let u = S::flag(&format!("positive {k} {q}"));
                S::assume(if u { C::Lt(z(), g[q]) } else { C::Lt(g[q], z()) });
                u
            })
            .collect();
        let hit = up[0] || up[1];
        if k == 0 {
            if !hit {
                S::prune();
            }
            *s2.borrow_mut() = (lo, (t, g.clone()), 1, 0);
            return g;
        }
        S::check("inside the bracket", C::Lt(lo.0, t).and(C::Lt(t, hi.0)));
        let frac = |q: usize| (hi.1[q] / (hi.1[q] - lo.1[q])).absv();
        let ch = |q: usize| C::Lt(lo.1[q] * hi.1[q], z());
        // with a bracket end replaced twice in a row the weights change
        let sec = |q: usize| hi.0 - (hi.0 - lo.0) * hi.1[q] / (hi.1[q] - lo.1[q]);
        let best = |q: usize| ch(q).and(ch(1 - q).not().or(C::Le(frac(1 - q), frac(q)))).and(C::Eq(t, sec(q)));
        if k <= 2 {
            S::check("the secant point of a function that changes sign", C::any((0..2).map(|q| ch(q).and(C::Eq(t, sec(q))))));
        }
        if k == 1 || (k == 2 && side == 1) {
            S::check("of the one that crosses first, by its values", best(0).or(best(1)));
        }
        *s2.borrow_mut() = if hit { (lo, (t, g.clone()), k + 1, 1) } else { ((t, g.clone()), hi, k + 1, 2) };
        g
    });
    let r = i.r_check3();
    S::check_b("a root", matches!(r, Ok(RootStatus::RootFound)));
    S::check("at the zero", C::Eq(i.ida_trout, st.borrow().1 .0));
}
/// linear root functions along the whole way: every crossing is reported once, in order
fn c28_all<S: IS>(nr: usize, one: bool) {
    let p = Prob::<S>::new(1, nr);
    let (y0, yp0) = (S::var("y0"), S::var("yp0"));
    between(-1e3, y0, 1e3);
    between(-1e3, yp0, 1e3);
    let t0 = S::var("t0");
    between(-10.0, t0, 10.0);
    let mut i = ida(&p, &[y0], &[yp0], ones());
    i.nlp.ida_tn = t0;
    let back = S::flag("backwards");
    let sg = S::num(if back { -1.0 } else { 1.0 });
    let d = S::var("distance");
    between(1.0, d, 10.0);
    let tout = t0 + sg * d;
    // one step goes past tout
    let h = S::var("h");
    S::assume(C::Le(d, h).and(C::Le(h, S::num(12.0))));
    i.ida_hin = sg * h;
    i.ida_mxstep = 1;
    let (sl, rt) = (S::vars("slope", nr), S::vars("root", nr));
    let mut pos = vec![];
    for q in 0..nr {
        between(1e-3, sl[q].absv(), 1e3);
        between(-20.0, rt[q], 20.0);
        // how far along the root is; not closer to another mark than 0.01, or exactly there
        let x = (rt[q] - t0) * sg;
        let apart = |a: S, b: S| C::Eq(a, b).or(C::Le(S::num(0.01), (a - b).absv()));
        S::assume(apart(x, z()).and(apart(x, d)).and(apart(x, h)));
        for w in &pos {
            S::assume(apart(x, *w));
        }
        pos.push(x);
    }
    let (s2, r2) = (sl.clone(), rt.clone());
    p.on_root(move |t, _, _| (0..nr).map(|q| s2[q] * (t - r2[q])).collect());
    let mut at = z::<S>(); // progress so far
    let len = if one { h } else { d };
    for _ in 0..nr + 1 {
        if one {
            // a root at the end of the step: the next call takes another step
            let end = S::flag("root at the end");
            S::assume(C::B(end).iff(C::Eq(at, len)));
            if end {
                return;
            }
        }
        let mut tret = z();
        let r = i.solve(tout, &mut tret, if one { IdaTask::OneStep } else { IdaTask::Normal });
        let x = (tret - t0) * sg;
        let info = i.get_root_info().to_vec();
        match r {
            Ok(IdaSolveStatus::Root) => {
                S::observe("root", tret);
                S::check("later than the last one", C::Lt(at, x));
                S::check("within reach", C::Le(x, len));
                for q in 0..nr {
                    let here = C::Eq(pos[q], x);
                    S::check("no root is passed over", C::Le(pos[q], at).or(C::Le(x, pos[q])));
                    let d = S::pick(C::Lt(z(), sl[q]), sg, z::<S>() - sg);
                    S::check("get_root_info", C::Eq(info[q], S::pick(here, d, z())));
                }
                S::check("one of the functions is zero there", C::any((0..nr).map(|q| C::Eq(pos[q], x))));
                S::check("y is the solution there", C::Eq(i.get_yy().to_vec()[0], y0 + yp0 * (tret - t0)));
                at = x;
            }
            Ok(IdaSolveStatus::Success) => {
                S::check("tout is reached", C::Eq(x, len));
                for q in 0..nr {
                    S::check("no root is left behind", C::Le(pos[q], at).or(C::Lt(len, pos[q])));
                }
                // a root at tout itself is looked at again, a hair further
                let ttol = S::num(100.0) * S::num(f64::EPSILON) * (i.nlp.ida_tn.absv() + i.ida_hh.absv());
                S::check("y is the solution there", C::Le((i.get_yy().to_vec()[0] - y0 - yp0 * (tret - t0)).absv(), ttol * yp0.absv()));
                return;
            }
            _ => {
                S::fail("neither a root nor tout");
                return;
            }
        }
    }
    // all functions crossed: one call more
    let mut tret = z();
    let r = i.solve(tout, &mut tret, if one { IdaTask::OneStep } else { IdaTask::Normal });
    S::check_b("each root once", matches!(r, Ok(IdaSolveStatus::Success)) || i.counters.ida_nst > 1 || r.is_err());
}
/// the start: functions that are zero at t0
fn c28_start<S: IS>(nr: usize) {
    let (mut i, t0, y, yp, h) = state::<S>(nr, false);
    i.counters.ida_nst = 0;
    i.ida_phi[[1, 0]] = yp;
    let log = Rc::new(RefCell::new(vec![]));
    let l2 = log.clone();
    i.nlp.lp.problem.on_root(move |t, yy, yyp| {
        let k = l2.borrow().len();
        let g = S::vars(&format!("g{k}"), nr);
        S::check("g is evaluated near the start", C::Eq(yy[0], y + yp * (t - t0)).and(C::Eq(yyp[0], yp)));
        S::check("at t0 and up to a tenth of a step later", if k == 0 { C::Eq(t, t0) } else { C::Lt(z(), (t - t0) * h).and(C::Le((t - t0).absv(), S::num(0.1) * h.absv())) });
        l2.borrow_mut().push(g.clone());
        g
    });
    S::check_b("succeeds", i.r_check1().is_ok());
    let log = log.borrow();
    S::check_b("counted", i.ida_nge == log.len());
    S::check("the search begins at t0", C::Eq(i.ida_tlo, t0));
    let zero = C::any(log[0].iter().map(|g| C::Eq(*g, z())));
    S::check("looked at again only if a function is zero", C::B(log.len() == 2).iff(zero));
    for q in 0..nr {
        let g0 = log[0][q];
        let g1 = if log.len() > 1 { log[1][q] } else { g0 };
        let nz = C::Eq(g0, z()).not();
        S::check("a nonzero function is watched", nz.clone().implies(C::B(i.ida_gactive[q]).and(C::Eq(i.ida_glo[q], g0))));
        S::check("one that leaves zero is watched from there", nz.clone().or(C::Eq(g1, z())).or(C::B(i.ida_gactive[q]).and(C::Eq(i.ida_glo[q], g1))));
        S::check("one that stays zero is not", nz.or(C::Eq(g1, z()).not()).or(C::B(!i.ida_gactive[q])));
    }
}
/// root functions of any values at the ends of several steps: what is watched, and from where
fn c35_watch<S: IS>(nr: usize, steps: usize, dirs: bool) {
    let p = Prob::<S>::new(1, nr);
    let mut i = ida(&p, &[S::var("y0")], &[S::num(0.5)], ones());
    between(-1e3, i.ida_phi[[0, 0]], 1e3);
    let back = S::flag("backwards");
    let sg = if back { -1.0 } else { 1.0 };
    i.ida_hin = S::num(sg);
    let mut ds = vec![];
    for q in 0..nr {
        let d = if dirs { [0, 1, -1][S::choose(&format!("dir{q}"), 3)] } else { 0 };
        if !dir(&mut i.ida_rootdir[q], d) {
            S::prune();
        }
        ds.push(d);
    }
    // evaluations so far; those of a search between the ends of a step all give zero
    let log: Rc<RefCell<Vec<Ev<S>>>> = Rc::new(RefCell::new(vec![]));
    let lim = Rc::new(RefCell::new(2usize));
    let (l2, m2) = (log.clone(), lim.clone());
    p.on_root(move |t, _, _| {
        let k = l2.borrow().len();
        let g = if k < *m2.borrow() { S::vars(&format!("g{k}"), nr) } else { zeros(nr) };
        l2.borrow_mut().push(Ev { t, g: g.clone() });
        g
    });
    let mut left: Vec<S> = zeros(nr);
    let mut on = vec![false; nr];
    let is0 = |x: S, n: String| {
        let f = S::flag(&n);
        S::assume(C::B(f).iff(C::Eq(x, z())));
        f
    };
    let mut done = 0;
    for k in 0..steps {
        let mut tret = z();
        *lim.borrow_mut() = if k == 0 { 3 } else { done + 1 };
        let tn0 = i.nlp.ida_tn;
        let r = i.solve(S::num(sg * 1e6), &mut tret, IdaTask::OneStep);
        let tn = i.nlp.ida_tn;
        if k == 0 {
            // the start: at t0 and, if something is zero there, a little later
            let g = log.borrow()[0].g.clone();
            let zs: Vec<bool> = (0..nr).map(|q| is0(g[q], format!("zero at t0 {q}"))).collect();
            done = if zs.iter().any(|x| *x) { 2 } else { 1 };
            if done == 1 {
                // one evaluation at the end of the step; the third is of the search
                *lim.borrow_mut() = 2;
            }
            for q in 0..nr {
                left[q] = if zs[q] { log.borrow()[1].g[q] } else { g[q] };
                on[q] = !is0(left[q], format!("zero behind t0 {q}"));
            }
        }
        S::check_b("the end of the step is looked at", log.borrow().len() > done);
        let (t, g) = {
            let l = log.borrow();
            (l[done].t, l[done].g.clone())
        };
        let n = log.borrow().len();
        S::check("the end of the step is looked at first", C::Eq(t, tn));
        let mut any = false;
        for q in 0..nr {
            let zero = is0(g[q], format!("zero at {k} {q}"));
            let neg = S::flag(&format!("other sign at {k} {q}"));
            S::assume(C::B(neg).iff(C::Lt(left[q] * g[q], z())));
            let wanted = ds[q] == 0 || {
                let f = S::flag(&format!("wanted at {k} {q}"));
                S::assume(C::B(f).iff(C::Le(S::num(ds[q] as f64) * left[q], z())));
                f
            };
            if on[q] && (zero || neg) {
                if wanted {
                    any = true;
                } else if zero {
                    S::prune(); // a zero in the other direction is no value to go on from
                }
            }
            if !zero {
                on[q] = true;
            }
            left[q] = g[q];
        }
        done += 1;
        S::observe("t", tret);
        match r {
            Ok(IdaSolveStatus::Root) => {
                S::check_b("a root only where a watched function changed sign", any);
                S::check("within the step", C::Lt(z(), (tret - tn0) * S::num(sg)).and(C::Le(z(), (tn - tret) * S::num(sg))));
                return;
            }
            Ok(IdaSolveStatus::Success) => {
                S::check_b("no sign change of a watched function is passed over", !any);
                S::check_b("nothing to search for", n == done);
                S::check("the end of the step is returned", C::Eq(tret, tn));
            }
            _ => {
                S::fail("neither a root nor the end of the step");
                return;
            }
        }
    }
}
/// after a root was returned
fn c28_again<S: IS>(nr: usize) {
    let (mut i, tn, y, yp, h) = state::<S>(nr, false);
    let tlo = S::var("tlo");
    S::assume(C::Le(z(), (tn - tlo) * h).and(C::Le(z(), (tlo - tn + h) * h)));
    i.ida_tlo = tlo;
    i.ida_irfnd = S::flag("root before");
    let was = i.ida_irfnd;
    let act: Vec<bool> = (0..nr).map(|q| S::flag(&format!("active{q}"))).collect();
    let old = S::vars("old", nr);
    for q in 0..nr {
        i.ida_gactive[q] = act[q];
        i.ida_glo[q] = old[q];
        i.ida_iroots[q] = S::num(7.0);
    }
    let ttol = S::num(100.0) * S::num(f64::EPSILON) * (tn.absv() + h.absv());
    let log = Rc::new(RefCell::new(vec![]));
    let l2 = log.clone();
    i.nlp.lp.problem.on_root(move |t, yy, yyp| {
        let k = l2.borrow().len();
        S::check("at the last root and just behind it", if k == 0 { C::Eq(t, tlo) } else { C::Lt(z(), (t - tlo) * h).and(C::Le((t - tlo).absv(), ttol)) });
        if k == 0 {
            S::check("g is evaluated on the solution", C::Eq(yy[0], y + yp * (t - tn)).and(C::Eq(yyp[0], yp)));
        } else {
            // beyond tn the solution is continued along y'
            let e = (yy[0] - (y + yp * (t - tn))).absv();
            S::check("g is evaluated on the solution, or its continuation", C::Eq(e, z()).or(C::Le(z(), (t - tn) * h)));
        }
        let g = S::vars(&format!("g{k}"), nr);
        l2.borrow_mut().push(g.clone());
        g
    });
    let r = i.r_check2();
    let log = log.borrow();
    if !was {
        S::check_b("nothing to do if the last return was no root", log.is_empty() && matches!(r, Ok(RootStatus::Continue)));
        S::check("g at tlo is kept", C::eqs(&v(&i.ida_glo), &old));
        return;
    }
    let z0 = |q: usize| C::B(act[q]).and(C::Eq(log[0][q], z()));
    S::check("looked at again only if an active function is zero", C::B(log.len() == 2).iff(C::any((0..nr).map(z0))));
    if log.len() == 1 {
        S::check_b("carry on", matches!(r, Ok(RootStatus::Continue)));
        S::check("g at tlo is new", C::eqs(&v(&i.ida_glo), &log[0]));
        return;
    }
    let z1 = |q: usize| C::B(act[q]).and(C::Eq(log[1][q], z()));
    let close = C::any((0..nr).map(|q| z0(q).and(z1(q))));
    let new = C::any((0..nr).map(|q| z0(q).not().and(z1(q))));
    match r {
        Err(e) => {
            S::check_b("CloseRoots", matches!(e.downcast_ref::<IdaError>(), Some(IdaError::CloseRoots { .. })));
            S::check("a function stays zero behind its root", close);
        }
        Ok(RootStatus::RootFound) => S::check("another function is zero just behind the root", new.and(close.not())),
        Ok(RootStatus::Continue) => {
            S::check("nothing is zero just behind the root", new.or(close).not());
            for q in 0..nr {
                S::check("the search starts from nonzero values", C::B(!act[q]).or(C::Eq(i.ida_glo[q], z()).not()));
                S::check("g at tlo", C::Eq(i.ida_glo[q], S::pick(z0(q), log[1][q], log[0][q])));
            }
        }
    }
}

pub fn register(v: &mut Vec<Harness>) {
    for (nr, e, dirs, small, quick) in [
        (1, 1, true, false, true),
        (1, 2, true, false, true),
        (2, 1, false, false, true),
        (2, 2, false, true, true),
        (1, 3, false, true, true),
        (3, 1, false, true, true),
        (1, 3, true, false, false),
        (1, 4, false, true, false),
        (2, 1, true, false, false),
        (2, 2, false, false, false),
        (2, 2, true, true, false),
        (2, 3, false, true, false),
    ] {
        let x = h!("C28", format!("search-{nr}-{e}{}{}", if dirs { "-directed" } else { "" }, if small { "-ahead" } else { "" }), Real, c28_search, nr, e, dirs, small)
            .bound(format!("{nr} function(s), at most {e} evaluation(s) of any outcome{}", if small { ", forwards, all active, one-step mode" } else { "" }));
        v.push(if quick { x } else { x.thorough() });
    }
    v.push(h!("C28", "bracket", Real, c28_bracket, 2, false).bound("one function, at most one probe"));
    v.push(h!("C28", "bracket-3", Real, c28_bracket, 3, false).bound("one function, at most 2 probes").thorough());
    for e in 3..=5 {
        let x = h!("C28", format!("bracket-tame-{e}"), Real, c28_bracket, e, true).bound(format!("one function, {} probes from a bracket [1,2], 1 <= |g| <= 2", e - 1));
        v.push(if e < 5 { x } else { x.thorough() });
    }
    for e in 2..=4 {
        let x = h!("C28", format!("bracket-two-{e}"), Real, c28_bracket_two, e).bound(format!("two functions, {} probes from a bracket [1,2], 1 <= |g| <= 2", e - 1));
        v.push(if e < 4 { x } else { x.thorough() });
    }
    for (nr, st, d, quick) in [(1, 3, true, true), (2, 2, false, true), (1, 4, true, false), (2, 2, true, false), (2, 3, false, false), (3, 2, false, false)] {
        let x = h!("C35", format!("watch-{nr}-{st}{}", if d { "-directed" } else { "" }), Real, c35_watch, nr, st, d).bound(format!("{nr} function(s) of any values, {st} steps"));
        v.push(if quick { x } else { x.thorough() });
    }
    for nr in 1..=2 {
        v.push(h!("C35", format!("start-{nr}"), Real, c28_start, nr));
        v.push(h!("C35", format!("again-{nr}"), Real, c28_again, nr));
        for one in [false, true] {
            let x = h!("C35", format!("all-{nr}-{}", if one { "one-step" } else { "normal" }), Real, c28_all, nr, one).bound(format!("{nr} linear function(s) along a straight line, one step"));
            v.push(x);
        }
    }
    v.push(h!("C35", "start-3", Real, c28_start, 3));
    v.push(h!("C35", "again-3", Real, c28_again, 3).thorough());
}
