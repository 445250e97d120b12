//! What a harness is written against: the same generic harness runs symbolically (`Sym`) and
//! natively (`f64`, the replay of a model against the real code).
use crate::eng::{stop, with, Stop, B, FALSE, TRUE};
use crate::rat::Rat;
use crate::sym::Sym;
use simba::scalar::RealField;
use std::cell::RefCell;
use std::collections::HashMap;
use std::iter::Sum;

#[derive(Clone, Debug)]
pub enum C<S> {
    B(bool),
    Lt(S, S),
    Le(S, S),
    Eq(S, S),
    /// identical values (NaN = NaN, +0 != -0)
    Same(S, S),
    Nan(S),
    Not(Box<C<S>>),
    And(Vec<C<S>>),
    Or(Vec<C<S>>),
}
impl<S: Sc> C<S> {
    pub fn not(self) -> C<S> {
        C::Not(Box::new(self))
    }
    pub fn and(self, o: C<S>) -> C<S> {
        C::And(vec![self, o])
    }
    pub fn or(self, o: C<S>) -> C<S> {
        C::Or(vec![self, o])
    }
    pub fn implies(self, o: C<S>) -> C<S> {
        C::Or(vec![self.not(), o])
    }
    pub fn iff(self, o: C<S>) -> C<S> {
        C::And(vec![self.clone().implies(o.clone()), o.implies(self)])
    }
    pub fn all(it: impl IntoIterator<Item = C<S>>) -> C<S> {
        C::And(it.into_iter().collect())
    }
    pub fn any(it: impl IntoIterator<Item = C<S>>) -> C<S> {
        C::Or(it.into_iter().collect())
    }
    pub fn finite(x: S) -> C<S> {
        C::Le(x.absv(), S::num(f64::MAX))
    }
    pub fn eqs(a: &[S], b: &[S]) -> C<S> {
        if a.len() != b.len() {
            return C::B(false);
        }
        C::all(a.iter().zip(b).map(|(x, y)| C::Eq(*x, *y)))
    }
}

pub trait Sc:
    RealField + Copy + From<u32> + From<f64> + Sum + num_traits::Float + num_traits::FloatConst + Default + std::fmt::LowerExp
{
    const SYM: bool;
    /// an arbitrary value
    fn var(name: &str) -> Self;
    fn num(x: f64) -> Self;
    fn q(n: i64, d: i64) -> Self;
    /// an arbitrary answer of a stub, one of 0..n
    fn choose(name: &str, n: usize) -> usize;
    fn assume(c: C<Self>);
    fn check(label: &str, c: C<Self>);
    /// one of `alts` holds; the current model picks which one is put to the solver
    fn check_any(label: &str, alts: Vec<C<Self>>) {
        Self::check(label, C::Or(alts))
    }
    fn fail(label: &str);
    /// end this path: outside the claim
    fn prune() -> !;
    fn observe(name: &str, v: Self);
    fn absv(self) -> Self;
    fn sqrtv(self) -> Self;
    fn maxv(self, o: Self) -> Self;
    fn minv(self, o: Self) -> Self;
    fn pick(c: C<Self>, a: Self, b: Self) -> Self;
    fn powq(self, n: i64, d: i64) -> Self;
    fn vars(name: &str, n: usize) -> Vec<Self> {
        (0..n).map(|i| Self::var(&format!("{name}{i}"))).collect()
    }
    fn flag(name: &str) -> bool {
        Self::choose(name, 2) == 1
    }
    fn check_b(label: &str, b: bool) {
        Self::check(label, C::B(b))
    }
}

fn lower(c: &C<Sym>) -> B {
    match c {
        C::B(b) => {
            if *b {
                TRUE
            } else {
                FALSE
            }
        }
        C::Lt(a, b) => with(|e| e.b_lt(a.0, b.0)),
        C::Le(a, b) => with(|e| e.b_le(a.0, b.0)),
        C::Eq(a, b) => with(|e| e.b_eq(a.0, b.0)),
        C::Same(a, b) => with(|e| e.b_same(a.0, b.0)),
        C::Nan(a) => with(|e| e.b_nan(a.0)),
        C::Not(x) => {
            let x = lower(x);
            with(|e| e.b_not(x))
        }
        C::And(l) => {
            let v: Vec<B> = l.iter().map(lower).collect();
            with(|e| e.b_and(v))
        }
        C::Or(l) => {
            let v: Vec<B> = l.iter().map(lower).collect();
            with(|e| e.b_or(v))
        }
    }
}

impl Sc for Sym {
    const SYM: bool = true;
    fn var(name: &str) -> Sym {
        Sym(with(|e| e.var(name)))
    }
    fn num(x: f64) -> Sym {
        Sym::lit(x)
    }
    fn q(n: i64, d: i64) -> Sym {
        Sym(with(|e| e.rat(Rat::new(n as i128, d as i128).unwrap())))
    }
    fn choose(name: &str, n: usize) -> usize {
        with(|e| e.choose(name, n))
    }
    fn assume(c: C<Sym>) {
        let b = lower(&c);
        with(|e| e.assume(b))
    }
    fn check(label: &str, c: C<Sym>) {
        // conjunctions are separate obligations: smaller queries, better witnesses
        if let C::And(l) = c {
            for x in l {
                Self::check(label, x);
            }
            return;
        }
        let b = lower(&c);
        let go = with(|e| {
            e.obligation(label, b);
            e.worth_going_on()
        });
        if !go {
            stop(Stop::Pruned)
        }
    }
    fn check_any(label: &str, alts: Vec<C<Sym>>) {
        let bs: Vec<B> = alts.iter().map(lower).collect();
        let go = with(|e| {
            e.obligation_any(label, bs);
            e.worth_going_on()
        });
        if !go {
            stop(Stop::Pruned)
        }
    }
    fn fail(label: &str) {
        let go = with(|e| {
            e.fail(label);
            e.worth_going_on()
        });
        if !go {
            stop(Stop::Pruned)
        }
    }
    fn prune() -> ! {
        stop(Stop::Pruned)
    }
    fn observe(name: &str, v: Sym) {
        with(|e| e.observed.push((name.to_string(), v.0)))
    }
    fn absv(self) -> Sym {
        self.s_abs()
    }
    fn sqrtv(self) -> Sym {
        self.s_sqrt()
    }
    fn maxv(self, o: Sym) -> Sym {
        self.s_max(o)
    }
    fn minv(self, o: Sym) -> Sym {
        self.s_min(o)
    }
    fn pick(c: C<Sym>, a: Sym, b: Sym) -> Sym {
        let c = lower(&c);
        Sym(with(|e| e.ite(c, a.0, b.0)))
    }
    fn powq(self, n: i64, d: i64) -> Sym {
        self.s_powf(Sym::rat(n as i128, d as i128))
    }
}

#[derive(Default)]
pub struct Nat {
    pub vars: HashMap<String, f64>,
    pub used: HashMap<String, u32>,
    pub choices: Vec<(String, usize)>,
    pub pos: usize,
    pub diverged: bool,
    pub obs: Vec<(String, f64)>,
    pub failed: Vec<String>,
    pub maybe: Vec<String>,
    pub checks: usize,
    pub exact: bool,
}
thread_local! {
    pub static NAT: RefCell<Nat> = RefCell::new(Nat::default());
}
fn nat<R>(f: impl FnOnce(&mut Nat) -> R) -> R {
    NAT.with(|n| f(&mut n.borrow_mut()))
}
/// tolerance of the native evaluation: only a difference that rounding cannot explain counts
const TOL: f64 = 1e-6;
pub fn sep(x: f64, y: f64, exact: bool) -> Option<bool> {
    // Some(true): surely different
    if x.is_nan() || y.is_nan() {
        return Some(true);
    }
    if x == y {
        return Some(false);
    }
    if exact {
        return Some(true);
    }
    if x.is_infinite() || y.is_infinite() {
        return Some(true);
    }
    if (x - y).abs() > TOL * (1e-3 + x.abs().max(y.abs())) {
        Some(true)
    } else {
        None
    }
}
pub fn tri(c: &C<f64>, exact: bool) -> Option<bool> {
    match c {
        C::B(b) => Some(*b),
        C::Lt(a, b) | C::Le(a, b) => {
            if exact {
                return Some(if matches!(c, C::Lt(..)) { a < b } else { a <= b });
            }
            match sep(*a, *b, exact) {
                Some(true) => Some(a < b),
                _ => None,
            }
        }
        C::Eq(a, b) => match sep(*a, *b, exact) {
            Some(true) => Some(false),
            Some(false) => Some(true),
            None => None,
        },
        C::Same(a, b) => Some(a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())),
        C::Nan(a) => Some(a.is_nan()),
        C::Not(x) => tri(x, exact).map(|v| !v),
        C::And(l) => {
            let mut r = Some(true);
            for x in l {
                match tri(x, exact) {
                    Some(false) => return Some(false),
                    None => r = None,
                    _ => {}
                }
            }
            r
        }
        C::Or(l) => {
            let mut r = Some(false);
            for x in l {
                match tri(x, exact) {
                    Some(true) => return Some(true),
                    None => r = None,
                    _ => {}
                }
            }
            r
        }
    }
}
impl Sc for f64 {
    const SYM: bool = false;
    fn var(name: &str) -> f64 {
        nat(|n| {
            let k = n.used.entry(name.to_string()).or_insert(0);
            *k += 1;
            let key = if *k == 1 { name.to_string() } else { format!("{name}~{k}") };
            n.vars.get(&key).copied().unwrap_or(0.0)
        })
    }
    fn num(x: f64) -> f64 {
        x
    }
    fn q(n: i64, d: i64) -> f64 {
        n as f64 / d as f64
    }
    fn choose(name: &str, k: usize) -> usize {
        nat(|n| {
            if n.pos >= 20000 {
                stop(Stop::Budget("native run asked for more than 20000 stub answers".into()));
            }
            let r = match n.choices.get(n.pos) {
                Some((m, v)) if m == name && *v < k.max(1) => *v,
                Some(_) => {
                    n.diverged = true;
                    0
                }
                None => {
                    n.diverged = true;
                    0
                }
            };
            n.pos += 1;
            r
        })
    }
    fn assume(c: C<f64>) {
        let ex = nat(|n| n.exact);
        if tri(&c, ex) == Some(false) {
            stop(Stop::Pruned)
        }
    }
    fn check(label: &str, c: C<f64>) {
        nat(|n| {
            n.checks += 1;
            match tri(&c, n.exact) {
                Some(false) => n.failed.push(label.to_string()),
                None => n.maybe.push(label.to_string()),
                _ => {}
            }
        })
    }
    fn fail(label: &str) {
        nat(|n| n.failed.push(label.to_string()))
    }
    fn prune() -> ! {
        stop(Stop::Pruned)
    }
    fn observe(name: &str, v: f64) {
        nat(|n| n.obs.push((name.to_string(), v)))
    }
    fn absv(self) -> f64 {
        self.abs()
    }
    fn sqrtv(self) -> f64 {
        self.sqrt()
    }
    fn maxv(self, o: f64) -> f64 {
        f64::max(self, o)
    }
    fn minv(self, o: f64) -> f64 {
        f64::min(self, o)
    }
    fn pick(c: C<f64>, a: f64, b: f64) -> f64 {
        if tri(&c, true) == Some(true) {
            a
        } else {
            b
        }
    }
    fn powq(self, n: i64, d: i64) -> f64 {
        self.powf(n as f64 / d as f64)
    }
}
