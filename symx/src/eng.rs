//! Term arena, path engine and SMT emission (all thread-local).
use crate::rat::{Big, Rat};
use crate::smt::{Ans, Kind, Solvers};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

pub type T = u32;
pub type B = u32;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// exact real arithmetic
    Real,
    /// IEEE-754 binary64, round to nearest even
    Fp,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Var(u32),
    Rat(Rat),
    /// a float constant: every constant in FP mode, out-of-range constants in real mode
    Lit(u64),
    Add(T, T),
    Sub(T, T),
    Mul(T, T),
    Div(T, T),
    Neg(T),
    Abs(T),
    Sqrt(T),
    /// x^(p/q), q > 1, x >= 0
    Root(T, i64, i64),
    Floor(T),
    Ite(B, T, T),
    Fun(&'static str, Vec<T>),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BNode {
    True,
    False,
    Lt(T, T),
    Le(T, T),
    Eq(T, T),
    /// identity of values (NaN = NaN, +0 != -0); FP mode only
    Same(T, T),
    Nan(T),
    Not(B),
    And(Vec<B>),
    Or(Vec<B>),
}
pub const TRUE: B = 0;
pub const FALSE: B = 1;

/// why a path stopped early (panic payloads)
pub enum Stop {
    Pruned,
    Unsupported(String),
    Budget(String),
}

#[derive(Clone, Default)]
pub struct WorkItem {
    pub prefix: Vec<u16>,
    /// a (believed) model of the path condition, by variable name
    pub model: Option<Vec<(String, f64)>>,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub decisions: u64,
    pub forks: u64,
    pub obligations: u64,
    pub trivially: u64,
    pub by_solver: u64,
    pub lemma_hits: u64,
    pub div_guarded: u64,
    pub inconclusive: u64,
    pub unknown_branches: u64,
    pub labels: BTreeMap<String, u64>,
    pub discharge_style: BTreeMap<String, u64>,
}

pub struct Candidate {
    pub label: String,
    pub models: Vec<Vec<(String, f64)>>,
    /// per model: the path condition holds and the check fails when evaluated in exact arithmetic
    pub exact: Vec<bool>,
    pub choices: Vec<(String, usize)>,
}

pub struct Eng {
    pub mode: Mode,
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
    pub bnodes: Vec<BNode>,
    bmap: HashMap<BNode, B>,
    pub vars: Vec<String>,
    varmap: HashMap<String, T>,
    cone: HashMap<T, std::rc::Rc<Vec<u32>>>,
    pub solvers: Solvers,
    // ---- path state
    pub prefix: Vec<u16>,
    pub log: Vec<u16>,
    pub forks: Vec<WorkItem>,
    pub pc: Vec<B>,
    pub known: HashMap<B, bool>,
    pub nonzero: HashSet<T>,
    pub nonneg: HashSet<T>,
    pub model: Option<Vec<f64>>,
    pub names_used: HashMap<String, u32>,
    pub choices: Vec<(String, usize)>,
    /// (answer, number of possible answers), in order
    pub answers: Vec<(u16, u16)>,
    pub observed: Vec<(String, T)>,
    pub native_checks: usize,
    pub ops: u64,
    pub max_choices: usize,
    // ---- results
    pub stats: Stats,
    pub candidates: Vec<Candidate>,
    pub inconclusive: Vec<String>,
    pub feas_ms: u64,
    pub obl_ms: u64,
    pub cross: bool,
    /// shorten queries on a path that has a counterexample
    pub hurry: bool,
    pub seed: u64,
    evalc: HashMap<T, f64>,
}

/// a violation was confirmed: no further solver queries
pub static STOP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
thread_local! {
    pub static ENG: RefCell<Eng> = RefCell::new(Eng::new());
}
pub fn with<R>(f: impl FnOnce(&mut Eng) -> R) -> R {
    ENG.with(|e| f(&mut e.borrow_mut()))
}
pub fn stop(s: Stop) -> ! {
    std::panic::panic_any(s)
}

impl Eng {
    pub fn new() -> Eng {
        let mut e = Eng {
            mode: Mode::Real,
            nodes: vec![],
            map: HashMap::new(),
            bnodes: vec![],
            bmap: HashMap::new(),
            vars: vec![],
            varmap: HashMap::new(),
            cone: HashMap::new(),
            solvers: Solvers::default(),
            prefix: vec![],
            log: vec![],
            forks: vec![],
            pc: vec![],
            known: HashMap::new(),
            nonzero: HashSet::new(),
            nonneg: HashSet::new(),
            model: None,
            names_used: HashMap::new(),
            choices: vec![],
            answers: vec![],
            observed: vec![],
            native_checks: 0,
            ops: 0,
            max_choices: 4000,
            stats: Stats::default(),
            candidates: vec![],
            inconclusive: vec![],
            feas_ms: 1000,
            obl_ms: 20000,
            cross: false,
            hurry: true,
            seed: 1,
            evalc: HashMap::new(),
        };
        e.bmk(BNode::True);
        e.bmk(BNode::False);
        e
    }
    /// new arena for another harness
    pub fn reset_arena(&mut self, mode: Mode) {
        let solvers = std::mem::take(&mut self.solvers);
        let seed = self.seed;
        *self = Eng::new();
        self.seed = seed;
        self.solvers = solvers;
        self.mode = mode;
    }
    pub fn begin_path(&mut self, mut w: WorkItem) {
        if w.prefix.is_empty() {
            w.model = Some(vec![]); // nothing is constrained yet
        }
        self.prefix = w.prefix;
        self.model = w.model.map(|m| {
            let ids: Vec<(usize, f64)> = m
                .into_iter()
                .map(|(n, x)| {
                    let t = self.var_exact(&n);
                    match self.nodes[t as usize] {
                        Node::Var(i) => (i as usize, x),
                        _ => unreachable!(),
                    }
                })
                .collect();
            let mut v = vec![];
            self.fill(&mut v);
            for (i, x) in ids {
                v[i] = x;
            }
            v
        });
        self.evalc.clear();
        self.log.clear();
        self.forks.clear();
        self.pc.clear();
        self.known.clear();
        self.nonzero.clear();
        self.nonneg.clear();
        self.names_used.clear();
        self.choices.clear();
        self.answers.clear();
        self.observed.clear();
        self.ops = 0;
    }
    // ------------------------------------------------------------------ terms
    fn mk(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        self.ops += 1;
        let id = self.nodes.len() as T;
        self.nodes.push(n.clone());
        self.map.insert(n, id);
        id
    }
    fn bmk(&mut self, n: BNode) -> B {
        if let Some(&t) = self.bmap.get(&n) {
            return t;
        }
        let id = self.bnodes.len() as B;
        self.bnodes.push(n.clone());
        self.bmap.insert(n, id);
        id
    }
    pub fn rat(&mut self, r: Rat) -> T {
        match self.mode {
            Mode::Real => self.mk(Node::Rat(r)),
            Mode::Fp => self.mk(Node::Lit(r.f64().to_bits())),
        }
    }
    pub fn lit(&mut self, x: f64) -> T {
        match self.mode {
            Mode::Fp => self.mk(Node::Lit(if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() })),
            Mode::Real => match Rat::from_f64(x) {
                Some(r) => self.mk(Node::Rat(r)),
                None => self.mk(Node::Lit(x.to_bits())),
            },
        }
    }
    pub fn var(&mut self, name: &str) -> T {
        let k = self.names_used.entry(name.to_string()).or_insert(0);
        *k += 1;
        let name = if *k == 1 { name.to_string() } else { format!("{name}~{k}") };
        self.var_exact(&name)
    }
    fn var_exact(&mut self, name: &str) -> T {
        if let Some(&t) = self.varmap.get(name) {
            return t;
        }
        let ix = self.vars.len() as u32;
        self.vars.push(name.to_string());
        let t = self.mk(Node::Var(ix));
        self.varmap.insert(name.to_string(), t);
        t
    }
    pub fn get_rat(&self, t: T) -> Option<Rat> {
        match self.nodes[t as usize] {
            Node::Rat(r) => Some(r),
            _ => None,
        }
    }
    fn get_lit(&self, t: T) -> Option<f64> {
        match self.nodes[t as usize] {
            Node::Lit(b) => Some(f64::from_bits(b)),
            _ => None,
        }
    }
    fn is_bits(&self, t: T, x: f64) -> bool {
        self.get_lit(t).is_some_and(|v| v.to_bits() == x.to_bits())
    }
    /// fp: certainly not -0 (a NaN may be)
    fn never_negzero(&self, t: T) -> bool {
        match &self.nodes[t as usize] {
            Node::Lit(b) => *b != (-0.0f64).to_bits(),
            Node::Mul(a, b) => a == b,
            Node::Abs(_) => true,
            Node::Sqrt(a) => self.never_negzero(*a),
            Node::Add(a, b) => self.never_negzero(*a) || self.never_negzero(*b),
            _ => false,
        }
    }
    /// a constant's value, if `t` is one
    pub fn const_f64(&self, t: T) -> Option<f64> {
        self.get_rat(t).map(|r| r.f64()).or_else(|| self.get_lit(t))
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        if self.mode == Mode::Fp {
            if let (Some(x), Some(y)) = (self.get_lit(a), self.get_lit(b)) {
                return self.lit(x + y);
            }
            // identities of IEEE addition that hold for every operand
            for (x, y) in [(a, b), (b, a)] {
                if self.is_bits(x, -0.0) || (self.is_bits(x, 0.0) && self.never_negzero(y)) {
                    return y;
                }
                if let Node::Neg(nx) = self.nodes[x as usize] {
                    return self.sub(y, nx);
                }
            }
            return self.mk(Node::Add(a.min(b), a.max(b)));
        }
        match (self.get_rat(a), self.get_rat(b)) {
            (Some(x), Some(y)) => {
                if let Some(r) = x.add(y) {
                    return self.mk(Node::Rat(r));
                }
            }
            (Some(x), None) if x == Rat::ZERO => return b,
            (None, Some(y)) if y == Rat::ZERO => return a,
            _ => {}
        }
        if let Node::Neg(nb) = self.nodes[b as usize] {
            return self.sub(a, nb);
        }
        if let Node::Neg(na) = self.nodes[a as usize] {
            return self.sub(b, na);
        }
        self.mk(Node::Add(a.min(b), a.max(b)))
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        if self.mode == Mode::Fp {
            if let (Some(x), Some(y)) = (self.get_lit(a), self.get_lit(b)) {
                return self.lit(x - y);
            }
            if self.is_bits(b, 0.0) {
                return a;
            }
            if let Node::Neg(nb) = self.nodes[b as usize] {
                if !matches!(self.nodes[a as usize], Node::Neg(_)) {
                    return self.add(a, nb);
                }
            }
            return self.mk(Node::Sub(a, b));
        }
        if a == b {
            return self.rat(Rat::ZERO);
        }
        match (self.get_rat(a), self.get_rat(b)) {
            (Some(x), Some(y)) => {
                if let Some(r) = x.sub(y) {
                    return self.mk(Node::Rat(r));
                }
            }
            (Some(x), None) if x == Rat::ZERO => return self.neg(b),
            (None, Some(y)) if y == Rat::ZERO => return a,
            _ => {}
        }
        if let Node::Neg(nb) = self.nodes[b as usize] {
            return self.add(a, nb);
        }
        self.mk(Node::Sub(a, b))
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        if self.mode == Mode::Fp {
            if let (Some(x), Some(y)) = (self.get_lit(a), self.get_lit(b)) {
                return self.lit(x * y);
            }
            for (x, y) in [(a, b), (b, a)] {
                if self.is_bits(x, 1.0) {
                    return y;
                }
                if self.is_bits(x, -1.0) {
                    return self.neg(y);
                }
                if let Node::Neg(nx) = self.nodes[x as usize] {
                    let m = self.mul(nx, y);
                    return self.neg(m);
                }
            }
            return self.mk(Node::Mul(a.min(b), a.max(b)));
        }
        match (self.get_rat(a), self.get_rat(b)) {
            (Some(x), Some(y)) => {
                if let Some(r) = x.mul(y) {
                    return self.mk(Node::Rat(r));
                }
            }
            (Some(x), None) => {
                if x == Rat::ZERO {
                    return a;
                }
                if x == Rat::ONE {
                    return b;
                }
                if x == Rat::ONE.neg() {
                    return self.neg(b);
                }
            }
            (None, Some(_)) => return self.mul(b, a),
            _ => {}
        }
        if let Node::Neg(na) = self.nodes[a as usize] {
            let m = self.mul(na, b);
            return self.neg(m);
        }
        if let Node::Neg(nb) = self.nodes[b as usize] {
            let m = self.mul(a, nb);
            return self.neg(m);
        }
        self.mk(Node::Mul(a.min(b), a.max(b)))
    }
    pub fn neg(&mut self, a: T) -> T {
        if self.mode == Mode::Fp {
            if let Some(x) = self.get_lit(a) {
                return self.lit(-x);
            }
            if let Node::Neg(x) = self.nodes[a as usize] {
                return x;
            }
            return self.mk(Node::Neg(a));
        }
        match self.nodes[a as usize] {
            Node::Rat(r) => self.mk(Node::Rat(r.neg())),
            Node::Neg(x) => x,
            Node::Sub(x, y) => self.mk(Node::Sub(y, x)),
            _ => self.mk(Node::Neg(a)),
        }
    }
    pub fn div(&mut self, a: T, b: T) -> T {
        if self.mode == Mode::Fp {
            if let (Some(x), Some(y)) = (self.get_lit(a), self.get_lit(b)) {
                return self.lit(x / y);
            }
            if self.is_bits(b, 1.0) {
                return a;
            }
            if let Node::Neg(na) = self.nodes[a as usize] {
                let q = self.div(na, b);
                return self.neg(q);
            }
            if let Node::Neg(nb) = self.nodes[b as usize] {
                let q = self.div(a, nb);
                return self.neg(q);
            }
            return self.mk(Node::Div(a, b));
        }
        if let Some(y) = self.get_rat(b) {
            if let Some(inv) = y.recip() {
                let i = self.mk(Node::Rat(inv));
                return self.mul(a, i);
            }
            self.stats.div_guarded += 1;
            return self.mk(Node::Div(a, b));
        }
        self.learn_nonzero(b);
        if let Node::Neg(nb) = self.nodes[b as usize] {
            let q = self.div(a, nb);
            return self.neg(q);
        }
        if self.nonzero.contains(&b) {
            if a == b {
                return self.rat(Rat::ONE);
            }
            if self.get_rat(a) == Some(Rat::ZERO) {
                return a;
            }
        }
        self.mk(Node::Div(a, b))
    }
    pub fn abs(&mut self, a: T) -> T {
        match self.nodes[a as usize] {
            Node::Rat(r) => {
                let r = if r.is_neg() { r.neg() } else { r };
                self.mk(Node::Rat(r))
            }
            Node::Lit(b) => self.lit(f64::from_bits(b).abs()),
            Node::Neg(x) => self.abs(x),
            Node::Sub(x, y) if x > y => {
                let s = self.mk(Node::Sub(y, x));
                self.mk(Node::Abs(s))
            }
            Node::Abs(_) => a,
            Node::Sqrt(_) if self.mode == Mode::Real => a,
            _ => self.mk(Node::Abs(a)),
        }
    }
    pub fn sqrt(&mut self, a: T) -> T {
        if let Some(x) = self.const_f64(a) {
            if self.mode == Mode::Fp {
                return self.lit(x.sqrt());
            }
            if let Some(r) = self.get_rat(a) {
                if !r.is_neg() {
                    let (n, d) = ((r.n as f64).sqrt().round() as i128, (r.d as f64).sqrt().round() as i128);
                    if n * n == r.n && d * d == r.d {
                        return self.rat(Rat { n, d });
                    }
                }
            }
        }
        if self.mode == Mode::Real {
            self.learn_nonneg(a);
        }
        self.mk(Node::Sqrt(a))
    }
    pub fn root(&mut self, a: T, p: i64, q: i64) -> T {
        if let Some(r) = self.get_rat(a) {
            if r == Rat::ONE || (r == Rat::ZERO && p > 0) {
                return a;
            }
        }
        self.learn_nonneg(a);
        if p < 0 {
            self.learn_nonzero(a);
        }
        self.mk(Node::Root(a, p, q))
    }
    pub fn floor(&mut self, a: T) -> T {
        if let Some(r) = self.get_rat(a) {
            return self.rat(Rat::int(r.n.div_euclid(r.d)));
        }
        if let Some(x) = self.get_lit(a) {
            return self.lit(x.floor());
        }
        self.mk(Node::Floor(a))
    }
    pub fn ite(&mut self, c: B, a: T, b: T) -> T {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        if let Some(v) = self.lookup(c) {
            return if v { a } else { b };
        }
        if let BNode::Not(n) = self.bnodes[c as usize] {
            return self.mk(Node::Ite(n, b, a));
        }
        self.mk(Node::Ite(c, a, b))
    }
    pub fn fun(&mut self, f: &'static str, args: Vec<T>) -> T {
        let cs: Option<Vec<f64>> = args.iter().map(|&a| self.const_f64(a)).collect();
        if let Some(cs) = cs {
            // only values that are exact in the reals are folded
            let v = fun_eval(f, &cs);
            if v.fract() == 0.0 && cs.iter().all(|c| *c == 0.0 || *c == 1.0) {
                return self.lit(v);
            }
        }
        self.mk(Node::Fun(f, args))
    }
    // --------------------------------------------------------------- booleans
    pub fn b_lt(&mut self, a: T, b: T) -> B {
        if let (Some(x), Some(y)) = (self.get_rat(a), self.get_rat(b)) {
            return if x.lt(y) { TRUE } else { FALSE };
        }
        if let (Some(x), Some(y)) = (self.const_f64(a), self.const_f64(b)) {
            return if x < y { TRUE } else { FALSE };
        }
        if a == b {
            return FALSE;
        }
        if self.mode == Mode::Real {
            if let Some(l) = self.abs_rule(a, b, true) {
                return l;
            }
        }
        self.bmk(BNode::Lt(a, b))
    }
    pub fn b_le(&mut self, a: T, b: T) -> B {
        if self.mode == Mode::Fp {
            if let (Some(x), Some(y)) = (self.get_lit(a), self.get_lit(b)) {
                return if x <= y { TRUE } else { FALSE };
            }
            return self.bmk(BNode::Le(a, b));
        }
        let l = self.b_lt(b, a);
        self.b_not(l)
    }
    fn abs_rule(&mut self, a: T, b: T, _lt: bool) -> Option<B> {
        // |x| < 0 is false
        if let (Node::Abs(_), Some(r)) = (&self.nodes[a as usize], self.get_rat(b)) {
            if r.n <= 0 {
                return Some(FALSE);
            }
        }
        // c < |x| with c < 0 is true
        if let (Some(r), Node::Abs(_)) = (self.get_rat(a), &self.nodes[b as usize]) {
            if r.is_neg() {
                return Some(TRUE);
            }
        }
        None
    }
    pub fn b_eq(&mut self, a: T, b: T) -> B {
        if let (Some(x), Some(y)) = (self.get_rat(a), self.get_rat(b)) {
            return if x == y { TRUE } else { FALSE };
        }
        if let (Some(x), Some(y)) = (self.const_f64(a), self.const_f64(b)) {
            return if x == y { TRUE } else { FALSE };
        }
        if self.mode == Mode::Real {
            if a == b {
                return TRUE;
            }
            // |x| = 0, -x = 0  ->  x = 0 ; a - b = 0 -> a = b
            let zero = self.rat(Rat::ZERO);
            let other = if a == zero { Some(b) } else if b == zero { Some(a) } else { None };
            if let Some(o) = other {
                match self.nodes[o as usize] {
                    Node::Abs(x) | Node::Neg(x) => return self.b_eq(x, zero),
                    _ => {}
                }
            }
        }
        self.bmk(BNode::Eq(a.min(b), a.max(b)))
    }
    pub fn b_same(&mut self, a: T, b: T) -> B {
        if a == b {
            return TRUE;
        }
        if self.mode == Mode::Real {
            return self.b_eq(a, b);
        }
        self.bmk(BNode::Same(a.min(b), a.max(b)))
    }
    pub fn b_nan(&mut self, a: T) -> B {
        if self.mode == Mode::Real {
            return FALSE;
        }
        if let Some(x) = self.get_lit(a) {
            return if x.is_nan() { TRUE } else { FALSE };
        }
        self.bmk(BNode::Nan(a))
    }
    pub fn b_not(&mut self, a: B) -> B {
        match self.bnodes[a as usize].clone() {
            BNode::True => FALSE,
            BNode::False => TRUE,
            BNode::Not(x) => x,
            _ => self.bmk(BNode::Not(a)),
        }
    }
    pub fn b_and(&mut self, v: Vec<B>) -> B {
        let mut o = vec![];
        for b in v {
            match &self.bnodes[b as usize] {
                BNode::True => {}
                BNode::False => return FALSE,
                BNode::And(w) => o.extend(w.clone()),
                _ => o.push(b),
            }
        }
        o.sort();
        o.dedup();
        match o.len() {
            0 => TRUE,
            1 => o[0],
            _ => self.bmk(BNode::And(o)),
        }
    }
    pub fn b_or(&mut self, v: Vec<B>) -> B {
        let mut o = vec![];
        for b in v {
            match &self.bnodes[b as usize] {
                BNode::False => {}
                BNode::True => return TRUE,
                BNode::Or(w) => o.extend(w.clone()),
                _ => o.push(b),
            }
        }
        o.sort();
        o.dedup();
        match o.len() {
            0 => FALSE,
            1 => o[0],
            _ => self.bmk(BNode::Or(o)),
        }
    }
    fn lookup(&self, c: B) -> Option<bool> {
        if c == TRUE {
            return Some(true);
        }
        if c == FALSE {
            return Some(false);
        }
        if let Some(&v) = self.known.get(&c) {
            return Some(v);
        }
        if let BNode::Not(n) = self.bnodes[c as usize] {
            return self.lookup(n).map(|v| !v);
        }
        None
    }
    fn set_known(&mut self, c: B, v: bool) {
        self.known.insert(c, v);
        match self.bnodes[c as usize].clone() {
            BNode::Not(n) => self.set_known(n, !v),
            BNode::And(l) if v => {
                for x in l {
                    self.set_known(x, true);
                }
            }
            BNode::Or(l) if !v => {
                for x in l {
                    self.set_known(x, false);
                }
            }
            BNode::Lt(a, b) if v => {
                // strict order: distinct, and not the other way round
                let e = self.b_eq(a, b);
                self.known.entry(e).or_insert(false);
                let g = self.b_lt(b, a);
                self.known.entry(g).or_insert(false);
                let z = self.rat(Rat::ZERO);
                if self.mode == Mode::Real && (a == z || b == z) {
                    let o = if a == z { b } else { a };
                    self.nonzero.insert(o);
                    if a == z {
                        self.nonneg.insert(o);
                    }
                }
            }
            BNode::Lt(a, b) if !v => {
                let z = self.rat(Rat::ZERO);
                if self.mode == Mode::Real && b == z {
                    self.nonneg.insert(a);
                }
            }
            BNode::Eq(a, b) if !v => {
                let z = self.rat(Rat::ZERO);
                if self.mode == Mode::Real {
                    if a == z {
                        self.nonzero.insert(b);
                    }
                    if b == z {
                        self.nonzero.insert(a);
                    }
                }
            }
            _ => {}
        }
    }
    // ------------------------------------------------------------- path steps
    fn replaying(&self) -> Option<u16> {
        self.prefix.get(self.log.len()).copied()
    }
    fn push_pc(&mut self, c: B) {
        if c != TRUE {
            self.pc.push(c);
        }
        self.set_known(c, true);
    }
    /// the value of a symbolic condition on this path (forks when both are possible).
    /// log entries: 0/1 = forked value (assumed), 2/3 = forced false/true
    pub fn decide(&mut self, c: B) -> bool {
        if let Some(v) = self.lookup(c) {
            return v;
        }
        self.stats.decisions += 1;
        let nc = self.b_not(c);
        if let Some(d) = self.replaying() {
            self.log.push(d);
            match d {
                0 => self.push_pc(nc),
                1 => self.push_pc(c),
                2 => self.set_known(c, false),
                _ => self.set_known(c, true),
            }
            return d & 1 == 1;
        }
        let guess = self.model_says(c);
        let (mut mt, mut mf) = (None, None);
        let ok_t = match guess {
            Some(true) => {
                mt = self.model.clone();
                true
            }
            _ => match self.sat_sliced(&[c]) {
                Ans::Sat(m) => {
                    mt = self.checked_merge(m, c);
                    true
                }
                Ans::Unsat => false,
                Ans::Unknown(_) => {
                    self.stats.unknown_branches += 1;
                    true
                }
            },
        };
        let ok_f = if !ok_t {
            true
        } else {
            match guess {
                Some(false) => {
                    mf = self.model.clone();
                    true
                }
                _ => match self.sat_sliced(&[nc]) {
                    Ans::Sat(m) => {
                        mf = self.checked_merge(m, nc);
                        true
                    }
                    Ans::Unsat => false,
                    Ans::Unknown(_) => {
                        self.stats.unknown_branches += 1;
                        true
                    }
                },
            }
        };
        match (ok_t, ok_f) {
            (true, true) => {
                self.stats.forks += 1;
                let mut alt = self.log.clone();
                alt.push(0);
                self.forks.push(WorkItem { prefix: alt, model: mf.map(|m| self.named(&m)) });
                self.log.push(1);
                self.push_pc(c);
                self.model = mt;
                self.evalc.clear();
                true
            }
            (true, false) => {
                self.log.push(3);
                self.set_known(c, true);
                true
            }
            _ => {
                self.log.push(2);
                self.set_known(c, false);
                false
            }
        }
    }
    /// a nondeterministic stub's answer: one of 0..n
    pub fn choose(&mut self, name: &str, n: usize) -> usize {
        if self.choices.len() >= self.max_choices {
            stop(Stop::Budget(format!("more than {} stub answers on one path", self.max_choices)));
        }
        if n <= 1 {
            self.choices.push((name.to_string(), 0));
            return 0;
        }
        self.stats.decisions += 1;
        let d = if let Some(d) = self.replaying() {
            d
        } else {
            for k in (1..n).rev() {
                self.stats.forks += 1;
                let mut alt = self.log.clone();
                alt.push(k as u16);
                let model = self.model.clone().map(|m| self.named(&m));
                self.forks.push(WorkItem { prefix: alt, model });
            }
            0
        };
        self.log.push(d);
        self.choices.push((name.to_string(), d as usize));
        self.answers.push((d, n as u16));
        d as usize
    }
    pub fn assume(&mut self, c: B) {
        if let Some(v) = self.lookup(c) {
            if !v {
                stop(Stop::Pruned);
            }
            return;
        }
        if let Some(d) = self.replaying() {
            self.log.push(d);
            if d == 0 {
                stop(Stop::Pruned);
            }
            self.push_pc(c);
            return;
        }
        let ok = match self.model_says(c) {
            Some(true) => true,
            _ => match self.sat_sliced(&[c]) {
                Ans::Sat(m) => {
                    let mut m = self.merge(m);
                    // assumptions about further variables: keep the model whole
                    self.fill(&mut m);
                    self.model = Some(m);
                    self.evalc.clear();
                    true
                }
                Ans::Unsat => false,
                Ans::Unknown(_) => {
                    self.model = None;
                    true
                }
            },
        };
        self.log.push(ok as u16);
        if !ok {
            stop(Stop::Pruned);
        }
        self.push_pc(c);
    }
    fn learn(&mut self, c: B) -> bool {
        // is c entailed by the path condition? (recorded for replays; never forks)
        if let Some(v) = self.lookup(c) {
            return v;
        }
        if let Some(d) = self.replaying() {
            self.log.push(d);
            if d == 3 {
                self.set_known(c, true);
            }
            return d == 3;
        }
        let r = match self.model_says(c) {
            Some(false) => false,
            _ => {
                let nc = self.b_not(c);
                matches!(self.sat_sliced(&[nc]), Ans::Unsat)
            }
        };
        self.log.push(if r { 3 } else { 2 });
        if r {
            self.set_known(c, true);
        }
        r
    }
    fn learn_nonzero(&mut self, b: T) {
        if self.nonzero.contains(&b) || self.mode == Mode::Fp {
            return;
        }
        let z = self.rat(Rat::ZERO);
        let e = self.b_eq(b, z);
        let ne = self.b_not(e);
        if self.learn(ne) {
            self.nonzero.insert(b);
        } else {
            self.stats.div_guarded += 1;
        }
    }
    fn learn_nonneg(&mut self, a: T) {
        if self.nonneg.contains(&a) {
            return;
        }
        if matches!(self.nodes[a as usize], Node::Abs(_) | Node::Sqrt(_)) {
            self.nonneg.insert(a);
            return;
        }
        let z = self.rat(Rat::ZERO);
        let c = self.b_le(z, a);
        if self.learn(c) {
            self.nonneg.insert(a);
        } else {
            self.stats.div_guarded += 1;
        }
    }
    // ------------------------------------------------------------- evaluation
    pub fn eval_with(&self, t: T, m: &[f64], memo: &mut HashMap<T, f64>) -> f64 {
        if let Some(&v) = memo.get(&t) {
            return v;
        }
        let mut go = |x: T| self.eval_with(x, m, memo);
        let v = match &self.nodes[t as usize] {
            Node::Var(i) => m.get(*i as usize).copied().unwrap_or(0.0),
            Node::Rat(r) => r.f64(),
            Node::Lit(b) => f64::from_bits(*b),
            Node::Add(a, b) => go(*a) + go(*b),
            Node::Sub(a, b) => go(*a) - go(*b),
            Node::Mul(a, b) => go(*a) * go(*b),
            Node::Div(a, b) => go(*a) / go(*b),
            Node::Neg(a) => -go(*a),
            Node::Abs(a) => go(*a).abs(),
            Node::Sqrt(a) => go(*a).sqrt(),
            Node::Root(a, p, q) => go(*a).powf(*p as f64 / *q as f64),
            Node::Floor(a) => go(*a).floor(),
            Node::Ite(c, a, b) => {
                let (c, a, b) = (*c, *a, *b);
                match self.beval_with(c, m, memo, 0.0) {
                    Some(true) => self.eval_with(a, m, memo),
                    _ => self.eval_with(b, m, memo),
                }
            }
            Node::Fun(f, args) => {
                let v: Vec<f64> = args.iter().map(|&a| go(a)).collect();
                fun_eval(f, &v)
            }
        };
        memo.insert(t, v);
        v
    }
    /// three-valued with tolerance (tol = 0: exact)
    pub fn beval_with(&self, b: B, m: &[f64], memo: &mut HashMap<T, f64>, tol: f64) -> Option<bool> {
        match self.bnodes[b as usize].clone() {
            BNode::True => Some(true),
            BNode::False => Some(false),
            BNode::Lt(x, y) => {
                let (x, y) = (self.eval_with(x, m, memo), self.eval_with(y, m, memo));
                if tol > 0.0 && !sep(x, y, tol) {
                    None
                } else {
                    Some(x < y)
                }
            }
            BNode::Le(x, y) => {
                let (x, y) = (self.eval_with(x, m, memo), self.eval_with(y, m, memo));
                if tol > 0.0 && !sep(x, y, tol) {
                    None
                } else {
                    Some(x <= y)
                }
            }
            BNode::Eq(x, y) => {
                let (x, y) = (self.eval_with(x, m, memo), self.eval_with(y, m, memo));
                if tol > 0.0 && !sep(x, y, tol) {
                    None
                } else {
                    Some(x == y)
                }
            }
            BNode::Same(x, y) => {
                let (x, y) = (self.eval_with(x, m, memo), self.eval_with(y, m, memo));
                Some(x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
            }
            BNode::Nan(x) => Some(self.eval_with(x, m, memo).is_nan()),
            BNode::Not(n) => self.beval_with(n, m, memo, tol).map(|v| !v),
            BNode::And(l) => {
                let mut r = Some(true);
                for x in l {
                    match self.beval_with(x, m, memo, tol) {
                        Some(false) => return Some(false),
                        None => r = None,
                        _ => {}
                    }
                }
                r
            }
            BNode::Or(l) => {
                let mut r = Some(false);
                for x in l {
                    match self.beval_with(x, m, memo, tol) {
                        Some(true) => return Some(true),
                        None => r = None,
                        _ => {}
                    }
                }
                r
            }
        }
    }
    fn model_says(&mut self, c: B) -> Option<bool> {
        let mut m = self.model.take()?;
        self.fill(&mut m);
        let mut memo = std::mem::take(&mut self.evalc);
        let r = self.beval_with(c, &m, &mut memo, if self.mode == Mode::Fp { 0.0 } else { 1e-9 });
        self.evalc = memo;
        self.model = Some(m);
        r
    }
    /// values for variables nothing constrains yet: small dyadic numbers, by name and seed
    pub fn fill(&self, v: &mut Vec<f64>) {
        for i in v.len()..self.vars.len() {
            let mut h: u64 = 0xcbf29ce484222325 ^ self.seed.wrapping_mul(0x9E3779B97F4A7C15);
            for b in self.vars[i].bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            h ^= h >> 29;
            let k = (h % 47) as i64 - 23;
            v.push(if k == 0 { 0.375 } else { k as f64 / 8.0 });
        }
    }
    pub fn named(&self, m: &[f64]) -> Vec<(String, f64)> {
        self.vars.iter().cloned().zip(m.iter().copied()).collect()
    }
    fn merge(&self, m: HashMap<String, f64>) -> Vec<f64> {
        let mut v = self.model.clone().unwrap_or_default();
        self.fill(&mut v);
        for (k, x) in m {
            if let Some(i) = k.strip_prefix('v').and_then(|s| s.parse::<usize>().ok()) {
                if i < v.len() {
                    v[i] = x;
                }
            }
        }
        v
    }
    /// the model of a sliced query together with the present one, unless they do not fit
    fn checked_merge(&self, m: HashMap<String, f64>, c: B) -> Option<Vec<f64>> {
        let v = self.merge(m);
        if self.model.is_none() {
            let tol = if self.mode == Mode::Fp { 0.0 } else { 1e-9 };
            let mut memo = HashMap::new();
            for &b in self.pc.iter().chain(&[c]) {
                if self.beval_with(b, &v, &mut memo, tol) == Some(false) {
                    return None;
                }
            }
        }
        Some(v)
    }
    /// floats only: look for a model near the present one before asking the solver
    fn fp_search(&mut self, goal: &[B], rounds: u64) -> Option<HashMap<String, f64>> {
        let mut conds = self.slice(goal);
        conds.extend_from_slice(goal);
        let mut cone: Vec<u32> = vec![];
        for &g in goal {
            cone.extend(self.bcone(g));
        }
        cone.sort();
        cone.dedup();
        if cone.is_empty() {
            return None;
        }
        let mut base = self.model.clone().unwrap_or_default();
        self.fill(&mut base);
        let mut h: u64 = 0x2545F4914F6CDD1D ^ self.seed ^ (goal[0] as u64) << 20;
        let mut rnd = |n: u64| {
            h ^= h << 13;
            h ^= h >> 7;
            h ^= h << 17;
            (h >> 11) % n
        };
        for round in 0..rounds {
            let mut v = base.clone();
            let k = 1 + rnd(if 2 * round < rounds { 2 } else { cone.len() as u64 });
            for _ in 0..k {
                let i = cone[rnd(cone.len() as u64) as usize] as usize;
                let other = v[cone[rnd(cone.len() as u64) as usize] as usize];
                v[i] = match rnd(if rounds > 600 { 16 } else { 12 }) {
                    0 => 0.0,
                    1 => -0.0,
                    2 => other,
                    3 => -other,
                    4 => f64::NAN,
                    5 => f64::INFINITY,
                    6 => 1e300,
                    12 => (rnd(65) as f64 - 32.0) / 7.0,
                    13 => rnd(1000) as f64 * 1e-3,
                    14 => 1e-160,
                    15 => 2.0 * v[i],
                    _ => (rnd(65) as f64 - 32.0) / 4.0,
                };
            }
            let mut memo = HashMap::new();
            if conds.iter().rev().all(|&b| self.beval_with(b, &v, &mut memo, 0.0) == Some(true)) {
                return Some(v.into_iter().enumerate().map(|(i, x)| (format!("v{i}"), x)).collect());
            }
        }
        None
    }
    // --------------------------------------------------------------- emission
    fn tcone(&mut self, t: T) -> std::rc::Rc<Vec<u32>> {
        if let Some(c) = self.cone.get(&t) {
            return c.clone();
        }
        let mut s: Vec<u32> = vec![];
        match self.nodes[t as usize].clone() {
            Node::Var(i) => s.push(i),
            n => {
                for k in kids(&n) {
                    s.extend(self.tcone(k).iter());
                }
                if let Node::Ite(c, _, _) = n {
                    s.extend(self.bcone(c));
                }
            }
        }
        s.sort();
        s.dedup();
        let r = std::rc::Rc::new(s);
        self.cone.insert(t, r.clone());
        r
    }
    fn bterms(&self, b: B, out: &mut Vec<T>) {
        match &self.bnodes[b as usize] {
            BNode::Lt(a, c) | BNode::Le(a, c) | BNode::Eq(a, c) | BNode::Same(a, c) => {
                out.push(*a);
                out.push(*c);
            }
            BNode::Nan(a) => out.push(*a),
            BNode::Not(x) => self.bterms(*x, out),
            BNode::And(l) | BNode::Or(l) => {
                for x in l {
                    self.bterms(*x, out);
                }
            }
            _ => {}
        }
    }
    fn bcone(&mut self, b: B) -> Vec<u32> {
        let mut ts = vec![];
        self.bterms(b, &mut ts);
        let mut s = vec![];
        for t in ts {
            s.extend(self.tcone(t).iter());
        }
        s.sort();
        s.dedup();
        s
    }
    fn slice(&mut self, goal: &[B]) -> Vec<B> {
        let mut vars: HashSet<u32> = HashSet::new();
        for &g in goal {
            vars.extend(self.bcone(g));
        }
        let pc = self.pc.clone();
        let cones: Vec<Vec<u32>> = pc.iter().map(|&b| self.bcone(b)).collect();
        let mut take = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for i in 0..pc.len() {
                if !take[i] && cones[i].iter().any(|v| vars.contains(v)) {
                    take[i] = true;
                    vars.extend(cones[i].iter());
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        pc.iter().zip(take).filter(|(_, t)| *t).map(|(b, _)| *b).collect()
    }
    /// SMT text asserting all of `conds`. style 0: operations inlined by define-fun;
    /// style 1: every operation a fresh constant with a defining equation.
    pub fn emit(&mut self, conds: &[B], style: u8) -> (String, Vec<String>) {
        let mut order = vec![];
        let mut seen = HashSet::new();
        let mut roots = vec![];
        for &c in conds {
            self.bterms(c, &mut roots);
        }
        for r in roots {
            self.topo(r, &mut order, &mut seen);
        }
        let fp = self.mode == Mode::Fp;
        let sort = if fp { "(_ FloatingPoint 11 53)" } else { "Real" };
        let mut s = String::new();
        let mut vars = vec![];
        let mut side = String::new();
        let mut funs: HashSet<(&'static str, usize)> = HashSet::new();
        let mut trig: HashSet<T> = HashSet::new();
        for &t in &order {
            let n = self.nodes[t as usize].clone();
            let r = |x: T| self.tref(x);
            if fp && style == 2 {
                // the result of an operation is any float of the right class and sign: an
                // over-approximation, so only its `unsat` counts
                let nan = |x: &str| format!("(fp.isNaN {x})");
                let inf = |x: &str| format!("(fp.isInfinite {x})");
                let zero = |x: &str| format!("(fp.isZero {x})");
                let neg = |x: &str| format!("(fp.isNegative {x})");
                let y = format!("t{t}");
                let ax = match n {
                    Node::Add(a, b) | Node::Sub(a, b) => {
                        let (a, mut b) = (r(a), r(b));
                        if matches!(n, Node::Sub(..)) {
                            b = format!("(fp.neg {b})");
                        }
                        Some(vec![
                            format!("(= {} (or {} {} (and {} {} (distinct {} {}))))", nan(&y), nan(&a), nan(&b), inf(&a), inf(&b), neg(&a), neg(&b)),
                            format!("(=> (and (not {}) (= {} {})) (= {} {}))", nan(&y), neg(&a), neg(&b), neg(&y), neg(&a)),
                            format!("(=> (and (not {}) (or {} {})) {})", nan(&y), inf(&a), inf(&b), inf(&y)),
                            format!("(=> (and {} (not {})) (= {y} {b}))", zero(&a), zero(&b)),
                            format!("(=> (and {} (not {})) (= {y} {a}))", zero(&b), zero(&a)),
                        ])
                    }
                    Node::Mul(a, b) => {
                        let (a, b) = (r(a), r(b));
                        Some(vec![
                            format!("(= {} (or {} {} (and {} {}) (and {} {})))", nan(&y), nan(&a), nan(&b), inf(&a), zero(&b), zero(&a), inf(&b)),
                            format!("(=> (not {}) (= {} (distinct {} {})))", nan(&y), neg(&y), neg(&a), neg(&b)),
                            format!("(=> (and (not {}) (or {} {})) {})", nan(&y), inf(&a), inf(&b), inf(&y)),
                            format!("(=> (and (not {}) (or {} {})) {})", nan(&y), zero(&a), zero(&b), zero(&y)),
                        ])
                    }
                    Node::Div(a, b) => {
                        let (a, b) = (r(a), r(b));
                        Some(vec![
                            format!("(= {} (or {} {} (and {} {}) (and {} {})))", nan(&y), nan(&a), nan(&b), inf(&a), inf(&b), zero(&a), zero(&b)),
                            format!("(=> (not {}) (= {} (distinct {} {})))", nan(&y), neg(&y), neg(&a), neg(&b)),
                            format!("(=> (and (not {}) (or {} {})) {})", nan(&y), inf(&a), zero(&b), inf(&y)),
                            format!("(=> (and (not {}) (or {} {})) {})", nan(&y), zero(&a), inf(&b), zero(&y)),
                        ])
                    }
                    Node::Sqrt(a) => {
                        let a = r(a);
                        Some(vec![
                            format!("(= {} (or {} (and {} (not {}))))", nan(&y), nan(&a), neg(&a), zero(&a)),
                            format!("(=> (not {}) (and (= {} {}) (= {} {}) (= {} {})))", nan(&y), neg(&y), neg(&a), zero(&y), zero(&a), inf(&y), inf(&a)),
                        ])
                    }
                    _ => None,
                };
                if let Some(ax) = ax {
                    let _ = writeln!(s, "(declare-const t{t} {sort})");
                    for a in ax {
                        let _ = writeln!(side, "(assert {a})");
                    }
                    continue;
                }
            }
            let def = |s: &mut String, e: String| {
                if style != 1 {
                    let _ = writeln!(s, "(define-fun t{t} () {sort} {e})");
                } else {
                    let _ = writeln!(s, "(declare-const t{t} {sort})\n(assert (= t{t} {e}))");
                }
            };
            match n {
                Node::Var(i) => {
                    let _ = writeln!(s, "(declare-const v{i} {sort})");
                    vars.push(format!("v{i}"));
                }
                Node::Rat(_) | Node::Lit(_) => {}
                Node::Add(a, b) => def(&mut s, if fp { format!("(fp.add RNE {} {})", r(a), r(b)) } else { format!("(+ {} {})", r(a), r(b)) }),
                Node::Sub(a, b) => def(&mut s, if fp { format!("(fp.sub RNE {} {})", r(a), r(b)) } else { format!("(- {} {})", r(a), r(b)) }),
                Node::Mul(a, b) => def(&mut s, if fp { format!("(fp.mul RNE {} {})", r(a), r(b)) } else { format!("(* {} {})", r(a), r(b)) }),
                Node::Neg(a) => def(&mut s, if fp { format!("(fp.neg {})", r(a)) } else { format!("(- {})", r(a)) }),
                Node::Abs(a) => def(&mut s, if fp { format!("(fp.abs {})", r(a)) } else { format!("(ite (< {0} 0.0) (- {0}) {0})", r(a)) }),
                Node::Div(a, b) => {
                    if fp {
                        def(&mut s, format!("(fp.div RNE {} {})", r(a), r(b)))
                    } else {
                        let _ = writeln!(s, "(declare-const t{t} Real)");
                        if self.nonzero.contains(&b) {
                            let _ = writeln!(side, "(assert (= (* t{t} {}) {}))", r(b), r(a));
                        } else {
                            let _ = writeln!(side, "(assert (or (= {1} 0.0) (= (* t{t} {1}) {0})))", r(a), r(b));
                        }
                    }
                }
                Node::Sqrt(a) => {
                    if fp {
                        def(&mut s, format!("(fp.sqrt RNE {})", r(a)))
                    } else {
                        let _ = writeln!(s, "(declare-const t{t} Real)");
                        if self.nonneg.contains(&a) {
                            let _ = writeln!(side, "(assert (and (>= t{t} 0.0) (= (* t{t} t{t}) {})))", r(a));
                        } else {
                            let _ = writeln!(side, "(assert (or (< {0} 0.0) (and (>= t{t} 0.0) (= (* t{t} t{t}) {0}))))", r(a));
                        }
                    }
                }
                Node::Root(a, p, q) => {
                    let _ = writeln!(s, "(declare-const t{t} Real)");
                    let pw = |x: &str, k: i64| -> String {
                        if k == 1 {
                            x.to_string()
                        } else {
                            format!("(* {})", vec![x; k as usize].join(" "))
                        }
                    };
                    let ts = format!("t{t}");
                    let base = r(a);
                    let eq = if p > 0 {
                        format!("(= {} {})", pw(&ts, q), pw(&base, p))
                    } else {
                        format!("(= (* {} {}) 1.0)", pw(&ts, q), pw(&base, -p))
                    };
                    let guard = if p > 0 {
                        if self.nonneg.contains(&a) { String::new() } else { format!("(< {base} 0.0)") }
                    } else if self.nonneg.contains(&a) && self.nonzero.contains(&a) {
                        String::new()
                    } else {
                        format!("(<= {base} 0.0)")
                    };
                    let body = format!("(and (>= t{t} 0.0) {eq})");
                    if guard.is_empty() {
                        let _ = writeln!(side, "(assert {body})");
                    } else {
                        let _ = writeln!(side, "(assert (or {guard} {body}))");
                    }
                }
                Node::Floor(a) => def(&mut s, if fp { format!("(fp.roundToIntegral RTN {})", r(a)) } else { format!("(to_real (to_int {}))", r(a)) }),
                Node::Ite(c, a, b) => {
                    let e = format!("(ite {} {} {})", self.bref(c), r(a), r(b));
                    def(&mut s, e)
                }
                Node::Fun(f, args) => {
                    if funs.insert((f, args.len())) {
                        let _ = writeln!(s, "(declare-fun F_{f}_{} ({}) {sort})", args.len(), vec![sort; args.len()].join(" "));
                    }
                    let e = format!("(F_{f}_{} {})", args.len(), args.iter().map(|&a| r(a)).collect::<Vec<_>>().join(" "));
                    def(&mut s, e);
                    if !fp && (f == "sin" || f == "cos") {
                        trig.insert(args[0]);
                    }
                }
            }
        }
        for a in trig {
            let ra = self.tref(a);
            for f in ["sin", "cos"] {
                if funs.insert((f, 1)) {
                    let _ = writeln!(s, "(declare-fun F_{f}_1 (Real) Real)");
                }
            }
            let _ = writeln!(side, "(assert (= (+ (* (F_sin_1 {ra}) (F_sin_1 {ra})) (* (F_cos_1 {ra}) (F_cos_1 {ra}))) 1.0))");
        }
        s.push_str(&side);
        for &c in conds {
            let e = self.bref(c);
            let _ = writeln!(s, "(assert {e})");
        }
        (s, vars)
    }
    fn topo(&self, t: T, out: &mut Vec<T>, seen: &mut HashSet<T>) {
        if !seen.insert(t) {
            return;
        }
        let n = &self.nodes[t as usize];
        for k in kids(n) {
            self.topo(k, out, seen);
        }
        if let Node::Ite(c, _, _) = n {
            let mut ts = vec![];
            self.bterms(*c, &mut ts);
            for x in ts {
                self.topo(x, out, seen);
            }
        }
        out.push(t);
    }
    fn tref(&self, t: T) -> String {
        match &self.nodes[t as usize] {
            Node::Var(i) => format!("v{i}"),
            Node::Rat(r) => r.smt(),
            Node::Lit(b) => {
                let x = f64::from_bits(*b);
                if self.mode == Mode::Fp {
                    if x.is_nan() {
                        return "(_ NaN 11 53)".into();
                    }
                    let s = format!("{b:064b}");
                    return format!("(fp #b{} #b{} #b{})", &s[0..1], &s[1..12], &s[12..]);
                }
                // out-of-range constant in real mode: infinities are a huge number, tiny ones exact powers
                let a = if x.is_infinite() {
                    format!("1{}.0", "0".repeat(400))
                } else if x.is_nan() {
                    "F_nan".into()
                } else if x.abs() >= 1.0 {
                    format!("{:.0}.0", x.abs())
                } else {
                    let s = format!("{:e}", x.abs());
                    let (m, e) = s.split_once('e').unwrap();
                    let e: i32 = e.parse().unwrap();
                    let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
                    format!("(/ {ip}{fp}.0 1{}.0)", "0".repeat((-(e - fp.len() as i32)) as usize))
                };
                if x < 0.0 {
                    format!("(- {a})")
                } else {
                    a
                }
            }
            _ => format!("t{t}"),
        }
    }
    fn bref(&self, b: B) -> String {
        let fp = self.mode == Mode::Fp;
        match &self.bnodes[b as usize] {
            BNode::True => "true".into(),
            BNode::False => "false".into(),
            BNode::Lt(x, y) => format!("({} {} {})", if fp { "fp.lt" } else { "<" }, self.tref(*x), self.tref(*y)),
            BNode::Le(x, y) => format!("({} {} {})", if fp { "fp.leq" } else { "<=" }, self.tref(*x), self.tref(*y)),
            BNode::Eq(x, y) => format!("({} {} {})", if fp { "fp.eq" } else { "=" }, self.tref(*x), self.tref(*y)),
            BNode::Same(x, y) => format!("(= {} {})", self.tref(*x), self.tref(*y)),
            BNode::Nan(x) => format!("(fp.isNaN {})", self.tref(*x)),
            BNode::Not(n) => {
                if let (BNode::Lt(x, y), false) = (&self.bnodes[*n as usize], fp) {
                    return format!("(<= {} {})", self.tref(*y), self.tref(*x));
                }
                format!("(not {})", self.bref(*n))
            }
            BNode::And(l) => format!("(and {})", l.iter().map(|&x| self.bref(x)).collect::<Vec<_>>().join(" ")),
            BNode::Or(l) => format!("(or {})", l.iter().map(|&x| self.bref(x)).collect::<Vec<_>>().join(" ")),
        }
    }
    // ---------------------------------------------------------------- queries
    /// a path with this many refuted or undecided obligations has said what it has to say
    pub fn worth_going_on(&self) -> bool {
        self.candidates.len() + self.inconclusive.len() < 60
    }
    fn ask(&mut self, k: Kind, conds: &[B], style: u8, ms: u64) -> Ans {
        if STOP.load(std::sync::atomic::Ordering::Relaxed) {
            return Ans::Unknown("stopped".into());
        }
        // this path has a counterexample already: no long queries before it is replayed
        let ms = if self.candidates.is_empty() || !self.hurry { ms } else { ms.min(500) };
        let (body, vars) = self.emit(conds, style);
        let fp = self.mode == Mode::Fp;
        self.solvers.check(k, fp, &body, &vars, ms)
    }
    fn sat_sliced(&mut self, goal: &[B]) -> Ans {
        if self.mode == Mode::Fp {
            if let Some(m) = self.fp_search(goal, 600) {
                return Ans::Sat(m);
            }
        }
        let mut q = self.slice(goal);
        q.extend_from_slice(goal);
        let ms = self.feas_ms;
        if self.mode == Mode::Fp {
            if let Ans::Unsat = self.ask(Kind::Z3, &q, 2, ms) {
                return Ans::Unsat;
            }
            if ms < 50 {
                // undecided: the branch is explored as if it were feasible
                return Ans::Unknown("not asked".into());
            }
        }
        match self.ask(Kind::Z3, &q, 0, ms) {
            Ans::Unknown(_) if self.mode == Mode::Real => self.ask(Kind::Z3New, &q, 0, ms),
            a => a,
        }
    }
    fn is_ineq(&self, b: B) -> bool {
        match &self.bnodes[b as usize] {
            BNode::Lt(..) | BNode::Le(..) => true,
            BNode::Not(n) => self.is_ineq(*n),
            BNode::And(l) | BNode::Or(l) => l.iter().any(|&x| self.is_ineq(x)),
            _ => false,
        }
    }
    /// full model of the path condition plus `extra`
    pub fn full_model(&mut self, extra: &[B], ms: u64) -> Ans {
        let mut q = self.pc.clone();
        q.extend_from_slice(extra);
        match self.ask(Kind::Z3, &q, 0, ms) {
            Ans::Unknown(_) => self.ask(Kind::Z3New, &q, 0, ms),
            a => a,
        }
    }
    pub fn merge_model(&self, m: HashMap<String, f64>) -> Vec<f64> {
        self.merge(m)
    }
    /// Is `c` true for every value on this path?
    pub fn obligation(&mut self, label: &str, c: B) {
        let replay = self.replaying();
        if replay.is_none() {
            *self.stats.labels.entry(label.to_string()).or_default() += 1;
            self.stats.obligations += 1;
        }
        if self.lookup(c) == Some(true) {
            if replay.is_none() {
                if c == TRUE {
                    self.stats.trivially += 1;
                } else {
                    self.stats.lemma_hits += 1;
                }
            }
            return;
        }
        if let Some(d) = replay {
            // decided on the path this one was forked from
            self.log.push(d);
            if d == 3 {
                self.set_known(c, true);
            }
            return;
        }
        let r = self.prove(label, c);
        self.log.push(if r { 3 } else { 2 });
        if r {
            self.set_known(c, true);
        }
    }
    pub fn obligation_any(&mut self, label: &str, alts: Vec<B>) {
        let or = self.b_or(alts.clone());
        if let Some(d) = self.replaying() {
            self.log.push(d);
            if d >= 16 {
                let c = alts[(d - 16) as usize];
                self.set_known(c, true);
            }
            return;
        }
        if self.model.is_none() {
            if let Ans::Sat(m) = self.full_model(&[], 2000) {
                self.model = Some(self.merge(m));
                self.evalc.clear();
            }
        }
        *self.stats.labels.entry(label.to_string()).or_default() += 1;
        // the alternatives the current model does not refute
        if let Some(m) = self.model.clone() {
            for (i, &c) in alts.iter().enumerate() {
                let mut memo = HashMap::new();
                if self.beval_with(c, &m, &mut memo, 1e-7) != Some(false) {
                    let parts = match self.bnodes[c as usize].clone() {
                        BNode::And(l) => l,
                        _ => vec![c],
                    };
                    let ok = parts.iter().all(|&p| self.try_prove(p));
                    if ok {
                        self.stats.obligations += 1;
                        self.log.push(16 + i as u16);
                        self.set_known(c, true);
                        return;
                    }
                }
            }
        }
        self.stats.obligations += 1;
        let r = self.prove(label, or);
        self.log.push(if r { 3 } else { 2 });
    }
    /// quick attempt, no verdict on failure
    fn try_prove(&mut self, c: B) -> bool {
        if self.lookup(c) == Some(true) {
            return true;
        }
        let nc = self.b_not(c);
        let mut q = self.slice(&[nc]);
        q.push(nc);
        let rel: Vec<B> = q.iter().copied().filter(|&b| b == nc || !self.is_ineq(b)).collect();
        for (k, qq, st, ms) in [(Kind::Z3, &rel, 0, 1500), (Kind::Z3, &q, 0, 3000), (Kind::Z3, &rel, 1, 3000), (Kind::Z3New, &q, 0, 5000)] {
            if let Ans::Unsat = self.ask(k, qq, st, ms) {
                self.stats.by_solver += 1;
                *self.stats.discharge_style.entry(k.name().to_string()).or_default() += 1;
                return true;
            }
        }
        false
    }
    fn prove(&mut self, label: &str, c: B) -> bool {
        let nc = self.b_not(c);
        let sliced = {
            let mut q = self.slice(&[nc]);
            q.push(nc);
            q
        };
        let max = self.obl_ms;
        let ineq_goal = self.is_ineq(nc);
        let relaxed: Vec<B> = {
            let mut q: Vec<B> = sliced[..sliced.len() - 1].iter().copied().filter(|&b| !self.is_ineq(b)).collect();
            q.push(nc);
            q
        };
        let mut plan: Vec<(Kind, bool, u8, u64)> = vec![];
        if self.mode == Mode::Real {
            plan.push((Kind::Z3, false, 0, 1500));
            if !ineq_goal && relaxed.len() < sliced.len() {
                plan.push((Kind::Z3, true, 0, 1500));
            }
            plan.push((Kind::Z3, true, 1, 2500));
            plan.push((Kind::Z3New, false, 0, 4000));
            plan.push((Kind::Z3, false, 1, 4000));
            plan.push((Kind::Cvc5, false, 0, 6000));
            plan.push((Kind::Z3, false, 0, max));
            plan.push((Kind::Z3New, false, 1, max));
            plan.push((Kind::Cvc5, true, 0, max));
        } else {
            plan.push((Kind::Z3, true, 2, 1500));
            plan.push((Kind::Z3, false, 0, 5000));
            plan.push((Kind::Z3New, false, 0, max));
            plan.push((Kind::Cvc5, false, 0, max));
        }
        for (i, (k, rel, style, ms)) in plan.into_iter().enumerate() {
            if self.mode == Mode::Fp && i == 1 {
                // the cheap proof failed: look for a witness before the bit-precise queries
                if let Some(m) = self.fp_search(&[nc], 6000) {
                    self.candidate(label, nc, m);
                    return false;
                }
            }
            let q = if rel && style != 2 { relaxed.clone() } else { sliced.clone() };
            match self.ask(k, &q, style, ms.min(max)) {
                Ans::Unsat => {
                    self.stats.by_solver += 1;
                    let st = format!("{}{}{}", k.name(), if rel && style != 2 { "+relaxed" } else { "" }, match style { 1 => "+named", 2 => "+classes", _ => "" });
                    *self.stats.discharge_style.entry(st).or_default() += 1;
                    if self.cross && k != Kind::Cvc5 {
                        match self.ask(Kind::Cvc5, &q, 0, max.min(2000)) {
                            Ans::Unsat => *self.stats.discharge_style.entry("cross-checked by cvc5".into()).or_default() += 1,
                            Ans::Sat(_) => {
                                self.stats.inconclusive += 1;
                                self.inconclusive.push(format!("{label}: solvers disagree"));
                            }
                            Ans::Unknown(_) => *self.stats.discharge_style.entry("cvc5 cross-check inconclusive".into()).or_default() += 1,
                        }
                    }
                    return true;
                }
                Ans::Sat(m) if !rel => {
                    self.candidate(label, nc, m);
                    return false;
                }
                _ => {}
            }
        }
        if self.mode == Mode::Fp {
            // a counterexample among few values per variable is easier to find
            let mut q = sliced.clone();
            let mut cone: Vec<u32> = vec![];
            for &b in &sliced {
                cone.extend(self.bcone(b));
            }
            cone.sort();
            cone.dedup();
            for i in cone {
                let v = self.varmap[&self.vars[i as usize]];
                let alts = [0.1, -3.0, 0.0, 1.0, 7.3, -1e-3]
                    .iter()
                    .map(|&x| {
                        let l = self.lit(x);
                        self.b_same(v, l)
                    })
                    .collect();
                q.push(self.b_or(alts));
            }
            for k in [Kind::Z3, Kind::Z3New] {
                if let Ans::Sat(m) = self.ask(k, &q, 0, max) {
                    self.candidate(label, nc, m);
                    return false;
                }
            }
        }
        self.stats.inconclusive += 1;
        self.inconclusive.push(format!("{label}: no solver decided it"));
        false
    }
    fn candidate(&mut self, label: &str, nc: B, m: HashMap<String, f64>) {
        let mut models = vec![];
        // well-conditioned witnesses first: bounded inputs, a margin on the failure
        let vars: Vec<T> = (0..self.vars.len()).map(|i| self.varmap[&self.vars[i]]).collect();
        let first = self.full_model(&[nc], 5000);
        match first {
            Ans::Unsat => return, // the path itself is infeasible
            Ans::Sat(mm) => models.push(self.named(&self.merge(mm))),
            Ans::Unknown(_) => models.push(self.named(&self.merge(m))),
        }
        if self.mode == Mode::Real {
            let pcv: HashSet<u32> = {
                let mut s: HashSet<u32> = self.bcone(nc).into_iter().collect();
                for c in self.pc.clone() {
                    s.extend(self.bcone(c));
                }
                s
            };
            for (bound, margin) in [(4.0, 1.0), (16.0, 0.25), (64.0, 0.0625), (1000.0, 1e-2), (1e5, 1e-3)] {
                let g = self.with_margin(nc, margin);
                let mut extra = vec![g];
                for (i, &v) in vars.iter().enumerate() {
                    if pcv.contains(&(i as u32)) {
                        let b = self.lit(bound);
                        let a = self.abs(v);
                        extra.push(self.b_le(a, b));
                    }
                }
                if let Ans::Sat(mm) = self.full_model(&extra, 4000) {
                    let mm = self.named(&self.merge(mm));
                    models.insert(models.len() - 1, mm);
                    if models.len() >= 4 {
                        break;
                    }
                }
            }
        }
        let mut conds = self.pc.clone();
        conds.push(nc);
        let exact = models.iter().map(|m| self.mode == Mode::Real && self.holds_exactly(&conds, m)).collect();
        self.candidates.push(Candidate { label: label.to_string(), models, exact, choices: self.choices.clone() });
    }
    /// do the conditions hold at this point, in exact arithmetic?
    fn holds_exactly(&self, conds: &[B], m: &[(String, f64)]) -> bool {
        let m: Vec<f64> = m.iter().map(|x| x.1).collect();
        let mut memo = HashMap::new();
        conds.iter().all(|&c| self.bexact(c, &m, &mut memo) == Some(true))
    }
    fn texact(&self, t: T, m: &[f64], memo: &mut HashMap<T, Option<Big>>) -> Option<Big> {
        if let Some(v) = memo.get(&t) {
            return v.clone();
        }
        let v = (|| match self.nodes[t as usize].clone() {
            Node::Var(i) => Big::float(*m.get(i as usize)?),
            Node::Rat(r) => Big::rat(r),
            Node::Lit(b) => Big::float(f64::from_bits(b)),
            Node::Add(a, b) => self.texact(a, m, memo)?.add(&self.texact(b, m, memo)?),
            Node::Sub(a, b) => self.texact(a, m, memo)?.add(&self.texact(b, m, memo)?.neg()),
            Node::Mul(a, b) => self.texact(a, m, memo)?.mul(&self.texact(b, m, memo)?),
            Node::Div(a, b) => self.texact(a, m, memo)?.mul(&self.texact(b, m, memo)?.recip()?),
            Node::Neg(a) => Some(self.texact(a, m, memo)?.neg()),
            Node::Abs(a) => Some(self.texact(a, m, memo)?.abs()),
            Node::Ite(c, a, b) => {
                if self.bexact(c, m, memo)? {
                    self.texact(a, m, memo)
                } else {
                    self.texact(b, m, memo)
                }
            }
            _ => None,
        })();
        memo.insert(t, v.clone());
        v
    }
    fn bexact(&self, b: B, m: &[f64], memo: &mut HashMap<T, Option<Big>>) -> Option<bool> {
        let mut cmp = |x: T, y: T| -> Option<std::cmp::Ordering> { self.texact(x, m, memo)?.cmp(&self.texact(y, m, memo)?) };
        match self.bnodes[b as usize].clone() {
            BNode::True => Some(true),
            BNode::False => Some(false),
            BNode::Lt(x, y) => cmp(x, y).map(|o| o.is_lt()),
            BNode::Le(x, y) => cmp(x, y).map(|o| o.is_le()),
            BNode::Eq(x, y) => cmp(x, y).map(|o| o.is_eq()),
            BNode::Same(..) | BNode::Nan(_) => None,
            BNode::Not(n) => self.bexact(n, m, memo).map(|v| !v),
            BNode::And(l) => {
                let mut r = Some(true);
                for x in l {
                    match self.bexact(x, m, memo) {
                        Some(false) => return Some(false),
                        None => r = None,
                        _ => {}
                    }
                }
                r
            }
            BNode::Or(l) => {
                let mut r = Some(false);
                for x in l {
                    match self.bexact(x, m, memo) {
                        Some(true) => return Some(true),
                        None => r = None,
                        _ => {}
                    }
                }
                r
            }
        }
    }
    /// strengthen a (false-witness) condition so that it holds with a margin
    fn with_margin(&mut self, b: B, m: f64) -> B {
        let mt = self.lit(m);
        match self.bnodes[b as usize].clone() {
            BNode::Lt(x, y) => {
                let xm = self.add(x, mt);
                self.b_lt(xm, y)
            }
            BNode::Not(n) => match self.bnodes[n as usize].clone() {
                BNode::Lt(x, y) => {
                    // y <= x
                    let ym = self.add(y, mt);
                    self.b_le(ym, x)
                }
                BNode::Eq(x, y) => {
                    let d = self.sub(x, y);
                    let a = self.abs(d);
                    self.b_lt(mt, a)
                }
                BNode::And(l) => {
                    let v = l
                        .into_iter()
                        .map(|x| {
                            let n = self.b_not(x);
                            self.with_margin(n, m)
                        })
                        .collect();
                    self.b_or(v)
                }
                BNode::Or(l) => {
                    let v = l
                        .into_iter()
                        .map(|x| {
                            let n = self.b_not(x);
                            self.with_margin(n, m)
                        })
                        .collect();
                    self.b_and(v)
                }
                _ => b,
            },
            BNode::And(l) => {
                let v = l.into_iter().map(|x| self.with_margin(x, m)).collect();
                self.b_and(v)
            }
            BNode::Or(l) => {
                let v = l.into_iter().map(|x| self.with_margin(x, m)).collect();
                self.b_or(v)
            }
            _ => b,
        }
    }
    /// violation whose condition is just "this point is reached"
    pub fn fail(&mut self, label: &str) {
        if self.replaying().is_some() {
            return;
        }
        *self.stats.labels.entry(label.to_string()).or_default() += 1;
        self.stats.obligations += 1;
        self.candidate(label, TRUE, HashMap::new());
    }
}
fn sep(x: f64, y: f64, tol: f64) -> bool {
    if x.is_nan() || y.is_nan() {
        return false;
    }
    if x.is_infinite() || y.is_infinite() {
        return x != y;
    }
    (x - y).abs() > tol * (1.0 + x.abs().max(y.abs()))
}
fn kids(n: &Node) -> Vec<T> {
    match n {
        Node::Var(_) | Node::Rat(_) | Node::Lit(_) => vec![],
        Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => vec![*a, *b],
        Node::Neg(a) | Node::Abs(a) | Node::Sqrt(a) | Node::Root(a, _, _) | Node::Floor(a) => vec![*a],
        Node::Ite(_, a, b) => vec![*a, *b],
        Node::Fun(_, l) => l.clone(),
    }
}
pub fn fun_eval(f: &str, a: &[f64]) -> f64 {
    match f {
        "sin" => a[0].sin(),
        "cos" => a[0].cos(),
        "tan" => a[0].tan(),
        "asin" => a[0].asin(),
        "acos" => a[0].acos(),
        "atan" => a[0].atan(),
        "sinh" => a[0].sinh(),
        "cosh" => a[0].cosh(),
        "tanh" => a[0].tanh(),
        "asinh" => a[0].asinh(),
        "acosh" => a[0].acosh(),
        "atanh" => a[0].atanh(),
        "exp" => a[0].exp(),
        "exp2" => a[0].exp2(),
        "exp_m1" => a[0].exp_m1(),
        "ln" => a[0].ln(),
        "ln_1p" => a[0].ln_1p(),
        "log2" => a[0].log2(),
        "log10" => a[0].log10(),
        "atan2" => a[0].atan2(a[1]),
        "powf" => a[0].powf(a[1]),
        "cbrt" => a[0].cbrt(),
        "rem" => a[0] % a[1],
        "fma" => a[0].mul_add(a[1], a[2]),
        _ => f64::NAN,
    }
}
