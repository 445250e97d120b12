//! Schedules harnesses and paths over worker threads, replays counterexamples natively, writes
//! the evidence.
use crate::eng::{self, with, Candidate, Mode, Stats, Stop, WorkItem, ENG};
use crate::sc::{Nat, NAT};
use crate::smt::Ans;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub type Body = Arc<dyn Fn() + Send + Sync>;
#[derive(Clone)]
pub struct Harness {
    pub property: &'static str,
    pub name: String,
    pub mode: Mode,
    pub sym: Body,
    pub nat: Body,
    pub functions: Vec<&'static str>,
    pub bound: String,
    pub assumptions: Vec<&'static str>,
    pub thorough: bool,
    pub obl_ms: u64,
    pub feas_ms: u64,
    pub max_paths: u64,
}
pub struct HarnessBuilder;
impl Harness {
    pub fn new(property: &'static str, name: impl Into<String>, mode: Mode, sym: Body, nat: Body) -> Harness {
        Harness {
            property,
            name: name.into(),
            mode,
            sym,
            nat,
            functions: vec![],
            bound: String::new(),
            assumptions: vec![],
            thorough: false,
            obl_ms: 20000,
            feas_ms: 1000,
            max_paths: 400_000,
        }
    }
    pub fn funs(mut self, f: &[&'static str]) -> Self {
        self.functions = f.to_vec();
        self
    }
    pub fn bound(mut self, b: impl Into<String>) -> Self {
        self.bound = b.into();
        self
    }
    pub fn assuming(mut self, a: &[&'static str]) -> Self {
        self.assumptions = a.to_vec();
        self
    }
    pub fn thorough(mut self) -> Self {
        self.thorough = true;
        self
    }
    pub fn ms(mut self, obl: u64, feas: u64) -> Self {
        self.obl_ms = obl;
        self.feas_ms = feas;
        self
    }
}
/// `h!("C01", "name", Real, function, args...)`: one harness, symbolic and native
#[macro_export]
macro_rules! h {
    ($p:expr, $n:expr, $m:ident, $f:ident ; $($c:expr),+ ; $($a:expr),*) => {
        $crate::run::Harness::new(
            $p, $n, $crate::eng::Mode::$m,
            ::std::sync::Arc::new(move || { $f::<$crate::Sym, $($c),+>($($a),*); }),
            ::std::sync::Arc::new(move || { $f::<f64, $($c),+>($($a),*); }),
        )
    };
    ($p:expr, $n:expr, $m:ident, $f:ident $(, $a:expr)* $(,)?) => {
        $crate::run::Harness::new(
            $p, $n, $crate::eng::Mode::$m,
            ::std::sync::Arc::new(move || { $f::<$crate::Sym>($($a),*); }),
            ::std::sync::Arc::new(move || { $f::<f64>($($a),*); }),
        )
    };
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}
enum End {
    Done,
    Pruned,
    Unsupported(String),
    Budget(String),
    Panic(String),
}
fn guard(f: &Body) -> End {
    PANIC_MSG.with(|m| m.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(|| f())) {
        Ok(()) => End::Done,
        Err(p) => match p.downcast::<Stop>() {
            Ok(s) => match *s {
                Stop::Pruned => End::Pruned,
                Stop::Unsupported(s) => End::Unsupported(s),
                Stop::Budget(s) => End::Budget(s),
            },
            Err(_) => End::Panic(PANIC_MSG.with(|m| m.borrow().clone())),
        },
    }
}
/// the failure is too small for the tolerance of the float run, but it is there in exact arithmetic
const EXACTLY: &str = "reached in f64; exact rational evaluation at these inputs fails:";
pub struct NatOut {
    pub failed: Vec<String>,
    pub panic: Option<String>,
    pub pruned: bool,
    pub diverged: bool,
    pub obs: Vec<(String, f64)>,
    pub budget: Option<String>,
    /// checks that rounding leaves open
    pub maybe: Vec<String>,
}
fn run_native(h: &Harness, vars: &[(String, f64)], choices: &[(String, usize)]) -> NatOut {
    NAT.with(|n| {
        *n.borrow_mut() = Nat {
            vars: vars.iter().cloned().collect(),
            choices: choices.to_vec(),
            exact: h.mode == Mode::Fp,
            ..Default::default()
        }
    });
    let end = guard(&h.nat);
    NAT.with(|n| {
        let n = n.borrow();
        NatOut {
            failed: n.failed.clone(),
            panic: if let End::Panic(m) = &end { Some(m.clone()) } else { None },
            budget: if let End::Budget(m) = &end { Some(m.clone()) } else { None },
            pruned: matches!(end, End::Pruned),
            diverged: n.diverged,
            obs: n.obs.clone(),
            maybe: n.maybe.clone(),
        }
    })
}

#[derive(Clone, Debug)]
struct Violation {
    harness: String,
    label: String,
    native: String,
    vars: Vec<(String, f64)>,
    choices: Vec<(String, usize)>,
}
#[derive(Default)]
struct HarnessStat {
    paths: u64,
    feasible: u64,
    pruned: u64,
    validated: u64,
    diverged: u64,
    stats: Stats,
    solver_time: f64,
    queries: u64,
    by_kind: BTreeMap<&'static str, u64>,
    wall: f64,
    samples: Vec<String>,
    inconclusive: Vec<String>,
    mismatches: Vec<String>,
    /// the answers of every explored history, while all forks are stub answers
    leaves: Vec<Vec<(u16, u16)>>,
    data_forks: bool,
    closure: Option<String>,
}
struct Shared {
    queue: Vec<Vec<WorkItem>>,
    running: Vec<usize>,
    stats: Vec<HarnessStat>,
    violations: Vec<Violation>,
    known_hits: BTreeSet<String>,
}

fn merge_stats(a: &mut Stats, b: &Stats) {
    a.decisions += b.decisions;
    a.forks += b.forks;
    a.obligations += b.obligations;
    a.trivially += b.trivially;
    a.by_solver += b.by_solver;
    a.lemma_hits += b.lemma_hits;
    a.div_guarded += b.div_guarded;
    a.inconclusive += b.inconclusive;
    a.unknown_branches += b.unknown_branches;
    for (k, v) in &b.labels {
        *a.labels.entry(k.clone()).or_default() += v;
    }
    for (k, v) in &b.discharge_style {
        *a.discharge_style.entry(k.clone()).or_default() += v;
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jarr(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(", "))
}
/// floats are stored by their bits as well, so that a replay is exact
fn replay_text(prop: &str, v: &Violation) -> String {
    let mut s = String::new();
    s.push_str(&format!("property {prop}\nharness {}\nlabel {}\nnative {}\n", v.harness, v.label.replace('\n', " "), v.native.replace('\n', " ")));
    for (n, x) in &v.vars {
        s.push_str(&format!("var {n} {:016x} {x:e}\n", x.to_bits()));
    }
    for (n, c) in &v.choices {
        s.push_str(&format!("choice {n} {c}\n"));
    }
    s
}

pub struct Known {
    pub property: String,
    pub key: String,
    pub text: String,
}
/// lines: `finding: property=<id> key=<harness>|<label> <what fails>`; `fixed:` lines suppress nothing
pub fn read_known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                if let Some((id, r)) = r.split_once(" key=\"") {
                    if let Some((k, t)) = r.split_once("\" ") {
                        v.push(Known { property: id.trim().into(), key: k.into(), text: t.trim().into() });
                    }
                }
            }
        }
    }
    v
}

/// entry point of a harness binary
pub fn main_with(all: Vec<Harness>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("SYMX_DEBUG").is_ok() {
            eprintln!("panic: {msg} at {loc}");
        }
        PANIC_MSG.with(|m| {
            if let Ok(mut m) = m.try_borrow_mut() {
                *m = format!("{msg} at {loc}");
            }
        });
    }));
    if args.iter().any(|a| a == "--list") {
        for h in &all {
            println!("{} {} {}", h.property, h.name, if h.thorough { "thorough" } else { "quick" });
        }
        std::process::exit(0);
    }
    if let Some(f) = get("--replay") {
        std::process::exit(replay(&all, &f));
    }
    let prop = get("--property").expect("--property ID");
    let tier = get("--tier").unwrap_or_else(|| "quick".into());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let evidence = get("--evidence");
    let out = get("--out").unwrap_or_else(|| "out".into());
    let known = get("--known").map(|k| read_known(&k)).unwrap_or_default();
    let only = get("--only");
    let limit: u64 = get("--deadline").and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 760 } else { 6 * 3600 });
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let verbose = args.iter().any(|a| a == "-v");
    let hs: Vec<Harness> = all
        .into_iter()
        .filter(|h| h.property == prop && (tier == "thorough" || !h.thorough))
        .filter(|h| only.as_ref().is_none_or(|o| h.name.contains(o.as_str())))
        .collect();
    if hs.is_empty() {
        eprintln!("no harness for {prop}");
        std::process::exit(2);
    }
    let t0 = Instant::now();
    let n = hs.len();
    let shared = Arc::new((
        Mutex::new(Shared {
            queue: (0..n).map(|_| vec![WorkItem::default()]).collect(),
            running: vec![0; n],
            stats: (0..n).map(|_| HarnessStat::default()).collect(),
            violations: vec![],
            known_hits: BTreeSet::new(),
        }),
        Condvar::new(),
    ));
    let stop_all = Arc::new(AtomicBool::new(false));
    let deadline = t0 + Duration::from_secs(limit);
    let hs = Arc::new(hs);
    let known = Arc::new(known);
    let mut ths = vec![];
    for _ in 0..threads {
        let (hs, shared, stop_all, known) = (hs.clone(), shared.clone(), stop_all.clone(), known.clone());
        let (prop, tier) = (prop.clone(), tier.clone());
        let b = std::thread::Builder::new().stack_size(256 << 20);
        ths.push(
            b.spawn(move || worker(seed, &hs, &shared, &stop_all, deadline, &known, &prop, &tier))
                .unwrap(),
        );
    }
    // a path under way may be long: it gets a moment after the end of the exploration, no more
    let mut end: Option<Instant> = None;
    while ths.iter().any(|t| !t.is_finished()) {
        std::thread::sleep(Duration::from_millis(5));
        if end.is_none() && (stop_all.load(Ordering::Relaxed) || Instant::now() > deadline) {
            end = Some(Instant::now() + Duration::from_secs(if stop_all.load(Ordering::Relaxed) { 20 } else { 40 }));
        }
        if let Some(e) = end {
            if Instant::now() > e {
                break;
            }
            if Instant::now() > deadline + Duration::from_secs(20) {
                eng::STOP.store(true, Ordering::Relaxed);
            }
        }
    }
    let mut sh = shared.0.lock().unwrap();
    for s in sh.stats.iter_mut() {
        if !s.data_forks && s.leaves.len() > 1 && s.inconclusive.is_empty() {
            let t = Instant::now();
            let leaves = std::mem::take(&mut s.leaves);
            s.closure = Some(closure(&leaves));
            s.queries += 1;
            *s.by_kind.entry("z3-4.8.12").or_default() += 1;
            s.solver_time += t.elapsed().as_secs_f64();
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let complete = sh.queue.iter().all(|q| q.is_empty()) && sh.running.iter().all(|&r| r == 0);
    let mut problems: Vec<String> = vec![];
    // what the deeper harnesses of the thorough tier did not get to, or did not decide
    let mut open: Vec<String> = vec![];
    if sh.violations.is_empty() {
        for (k, (h, s)) in hs.iter().zip(&sh.stats).enumerate() {
            let complete = sh.queue[k].is_empty() && sh.running[k] == 0;
            let problems = if h.thorough { &mut open } else { &mut problems };
            if !complete {
                problems.push(format!("{}: exploration incomplete after {wall:.0} s: {} paths left", h.name, sh.queue[k].len() + sh.running[k]));
            }
            for i in &s.inconclusive {
                problems.push(format!("{}: {i}", h.name));
            }
            if let Some(c) = &s.closure {
                if complete && c != "unsat" {
                    problems.push(format!("{}: closure query over the stub answers: {c}", h.name));
                }
            }
            if complete && s.stats.obligations == 0 {
                problems.push(format!("{}: no obligation was reached (vacuous)", h.name));
            }
            if complete && s.feasible == 0 && sh.known_hits.is_empty() {
                problems.push(format!("{}: no completed path with a model (vacuous)", h.name));
            }
        }
    }
    let mut tot = Stats::default();
    let (mut paths, mut validated, mut queries, mut stime, mut feas, mut div) = (0, 0, 0, 0.0, 0, 0);
    let mut kinds: BTreeMap<&str, u64> = BTreeMap::new();
    for s in &sh.stats {
        merge_stats(&mut tot, &s.stats);
        paths += s.paths;
        validated += s.validated;
        queries += s.queries;
        stime += s.solver_time;
        feas += s.feasible;
        div += s.diverged;
        for (k, v) in &s.by_kind {
            *kinds.entry(k).or_default() += v;
        }
    }
    let mut code = 0;
    for k in &sh.known_hits {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    let _ = std::fs::create_dir_all(&out);
    let mut seen = BTreeSet::new();
    for (i, v) in sh.violations.iter().enumerate() {
        if !seen.insert((v.harness.clone(), v.label.clone())) {
            continue;
        }
        let p = format!("{out}/{prop}-{i}.replay");
        let _ = std::fs::write(&p, replay_text(&prop, v));
        println!("# {}: {} [native run: {}]", v.harness, v.label, v.native);
        println!("VIOLATION property={prop} replay={p}");
        code = 1;
    }
    if code == 0 && !problems.is_empty() {
        for p in problems.iter().take(30) {
            eprintln!("INCONCLUSIVE {prop}: {p}");
        }
        code = 2;
    }
    if code == 0 {
        for p in open.iter().take(30) {
            println!("NOT-DECIDED {prop} (beyond the quick bounds): {p}");
        }
    }
    if let Some(ev) = evidence {
        let funs: BTreeSet<&str> = hs.iter().flat_map(|h| h.functions.iter().copied()).collect();
        let assum: BTreeSet<&str> = hs.iter().flat_map(|h| h.assumptions.iter().copied()).collect();
        let samples: Vec<String> = sh.stats.iter().zip(hs.iter()).flat_map(|(s, h)| s.samples.iter().take(3).map(move |x| js(&format!("{}: {x}", h.name)))).collect();
        let per: Vec<String> = hs
            .iter()
            .zip(&sh.stats)
            .map(|(h, s)| {
                format!(
                    "{{\"harness\": {}, \"bounds\": {}, \"arithmetic\": {}, \"paths\": {}, \"pruned\": {}, \"feasible_paths\": {}, \"validated\": {}, \"obligations\": {}, \"labels\": {}, \"closure_query\": {}, \"worker_s\": {:.2}, \"solver_s\": {:.2}}}",
                    js(&h.name),
                    js(&h.bound),
                    js(match h.mode { Mode::Real => "exact reals", Mode::Fp => "IEEE-754 binary64" }),
                    s.paths,
                    s.pruned,
                    s.feasible,
                    s.validated,
                    s.stats.obligations,
                    jarr(s.stats.labels.iter().map(|(k, v)| js(&format!("{k}: {v}")))),
                    js(s.closure.as_deref().unwrap_or("not needed: feasibility of each branch was decided by queries")),
                    s.wall,
                    s.solver_time
                )
            })
            .collect();
        let txt = format!(
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {paths}, \"transitions\": {}, \"traces_validated_against_impl\": {validated},\n  \"paths_with_model\": {feas}, \"native_runs_that_took_another_branch\": {div}, \"obligations\": {}, \"discharged\": {}, \"discharged_by_solver\": {}, \"discharged_by_term_identity\": {}, \"implied_by_path_condition\": {},\n  \"branches_the_solver_left_open\": {}, \"divisions_or_roots_guarded\": {}, \"solver_queries\": {queries}, \"solver_time_s\": {stime:.2}, \"queries_by_solver\": {},\n  \"discharge_style\": {}, \"exhaustive\": {complete}, \"not_decided\": {},\n  \"functions_encoded\": {},\n  \"harnesses\": {},\n  \"samples\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {wall:.2}, \"violations\": {}\n}}\n",
            js(&prop),
            js(&tier),
            tot.decisions,
            tot.obligations,
            tot.by_solver + tot.trivially + tot.lemma_hits,
            tot.by_solver,
            tot.trivially,
            tot.lemma_hits,
            tot.unknown_branches,
            tot.div_guarded,
            jarr(kinds.iter().map(|(k, v)| js(&format!("{k}: {v}")))),
            jarr(tot.discharge_style.iter().map(|(k, v)| js(&format!("{k}: {v}")))),
            jarr(open.iter().chain(&problems).map(|p| js(p))),
            jarr(funs.iter().map(|f| js(f))),
            jarr(per),
            jarr(samples),
            jarr(assum.iter().map(|f| js(f))),
            sh.violations.len()
        );
        if std::fs::write(&ev, txt).is_err() {
            eprintln!("cannot write {ev}");
            code = 2;
        }
    }
    if verbose {
        for (h, s) in hs.iter().zip(&sh.stats) {
            println!(
                "  {:40} paths {:6} pruned {:5} feas {:6} valid {:6} div {:4} obl {:6} (solver {:5}, triv {:5}) unk {:4} guard {:4} worker {:6.1}s solver {:6.1}s",
                h.name, s.paths, s.pruned, s.feasible, s.validated, s.diverged, s.stats.obligations, s.stats.by_solver, s.stats.trivially, s.stats.unknown_branches, s.stats.div_guarded, s.wall, s.solver_time
            );
            for m in s.mismatches.iter().take(3) {
                println!("      mismatch: {m}");
            }
        }
    }
    println!(
        "{prop} [{tier}] {}: {} harnesses, {paths} paths, {} obligations ({} by solver), {queries} queries, {wall:.1} s",
        match code { 0 => "holds within the stated bounds", 1 => "VIOLATED", _ => "INCONCLUSIVE" },
        n,
        tot.obligations,
        tot.by_solver
    );
    drop(sh);
    std::process::exit(code)
}

/// One query that closes a control-only exploration: is there any assignment to the stub-answer
/// variables whose history was not run through to discharged assertions? `unsat` is the verdict.
fn closure(leaves: &[Vec<(u16, u16)>]) -> String {
    fn build(ls: &[&[(u16, u16)]], depth: usize, txt: &mut String, memo: &mut HashMap<String, String>, maxd: &mut usize) -> String {
        if ls.is_empty() {
            return "false".into();
        }
        if ls.iter().any(|l| l.len() == depth) {
            return if ls.len() == 1 { "true".into() } else { "false".into() };
        }
        *maxd = (*maxd).max(depth + 1);
        let arity = ls[0][depth].1;
        if ls.iter().any(|l| l[depth].1 != arity) {
            return "false".into();
        }
        let mut parts = vec![];
        let mut rest = ls;
        for k in 0..arity {
            let cut = rest.iter().take_while(|l| l[depth].0 == k).count();
            let (a, b) = rest.split_at(cut);
            rest = b;
            let x = build(a, depth + 1, txt, memo, maxd);
            parts.push(format!("(and (= c{depth} {k}) {x})"));
        }
        // a number outside 0..arity is not an answer of this stub
        let e = format!("(or (< c{depth} 0) (>= c{depth} {arity}) {})", parts.join(" "));
        let n = memo.len();
        let name = memo.entry(e.clone()).or_insert_with(|| format!("n{n}")).clone();
        if memo.len() > n {
            txt.push_str(&format!("(define-fun {name} () Bool {e})\n"));
        }
        name
    }
    let mut v: Vec<&[(u16, u16)]> = leaves.iter().map(|l| l.as_slice()).collect();
    v.sort();
    let (mut txt, mut maxd) = (String::new(), 0);
    let root = build(&v, 0, &mut txt, &mut HashMap::new(), &mut maxd);
    let decl: String = (0..maxd).map(|i| format!("(declare-const c{i} Int)\n")).collect();
    let body = format!("{decl}{txt}(assert (not {root}))\n");
    let mut s = crate::smt::Solvers::default();
    match s.check(crate::smt::Kind::Z3, false, &body, &[], 60000) {
        Ans::Unsat => "unsat".into(),
        Ans::Sat(_) => "sat: a history was not explored".into(),
        Ans::Unknown(u) => format!("unknown: {u}"),
    }
}

#[allow(clippy::too_many_arguments)]
fn worker(seed: u64, hs: &[Harness], shared: &(Mutex<Shared>, Condvar), stop_all: &AtomicBool, deadline: Instant, known: &[Known], prop: &str, tier: &str) {
    let mut cur: Option<usize> = None;
    loop {
        // take an item, preferring the harness this thread already has terms for
        let (hi, item) = {
            let mut sh = shared.0.lock().unwrap();
            loop {
                if stop_all.load(Ordering::Relaxed) || Instant::now() > deadline {
                    shared.1.notify_all();
                    return;
                }
                let mut pick = None;
                if let Some(c) = cur {
                    if !sh.queue[c].is_empty() && !(hs[c].thorough && (0..hs.len()).any(|i| !hs[i].thorough && !sh.queue[i].is_empty())) {
                        pick = Some(c);
                    }
                }
                if pick.is_none() {
                    // the least-served harness with work
                    pick = (0..hs.len()).filter(|&i| !sh.queue[i].is_empty()).min_by_key(|&i| (hs[i].thorough, sh.running[i]));
                }
                if let Some(p) = pick {
                    let it = sh.queue[p].pop().unwrap();
                    sh.running[p] += 1;
                    break (p, it);
                }
                if sh.running.iter().all(|&r| r == 0) {
                    shared.1.notify_all();
                    return;
                }
                let (g, _) = shared.1.wait_timeout(sh, Duration::from_millis(100)).unwrap();
                sh = g;
            }
        };
        let h = &hs[hi];
        let big = with(|e| e.nodes.len() > 2_000_000);
        if cur != Some(hi) || big {
            with(|e| {
                e.seed = seed;
                e.reset_arena(h.mode);
                e.obl_ms = h.obl_ms;
                e.feas_ms = h.feas_ms;
                e.hurry = !known.iter().any(|k| k.property == prop);
                e.cross = tier == "thorough" && std::env::var("SYMX_NOCROSS").is_err();
            });
            cur = Some(hi);
        }
        let t0 = Instant::now();
        let (q0, st0) = with(|e| (e.solvers.queries, e.solvers.time));
        with(|e| {
            e.stats = Stats::default();
            e.solvers.by_kind.clear();
            e.begin_path(item)
        });
        let end = guard(&h.sym);
        // ENG may hold a poisoned borrow only if a panic crossed `with`; RefCell guards unwind
        let mut local = HarnessStat { paths: 1, ..Default::default() };
        let mut cands: Vec<Candidate> = vec![];
        match &end {
            End::Done => {}
            End::Pruned => local.pruned += 1,
            End::Unsupported(s) => local.inconclusive.push(format!("unsupported: {s}")),
            End::Budget(s) => with(|e| {
                e.fail(&format!("does not terminate within the bound: {s}"));
            }),
            End::Panic(m) => with(|e| {
                e.fail(&format!("panic: {m}"));
            }),
        }
        with(|e| {
            local.data_forks = !e.pc.is_empty();
            if e.pc.is_empty() && e.candidates.is_empty() {
                local.leaves.push(e.answers.clone());
            }
            cands.append(&mut e.candidates);
            local.inconclusive.append(&mut e.inconclusive);
        });
        // a concrete execution of this path, run against the real code natively
        if matches!(end, End::Done) && cands.is_empty() {
            let m = with(|e| match e.model.clone() {
                Some(mut m) => {
                    e.fill(&mut m);
                    Some(m)
                }
                None if h.feas_ms < 50 => None,
                None => match e.full_model(&[], 1500) {
                    Ans::Sat(m) => Some(e.merge_model(m)),
                    _ => None,
                },
            });
            if let Some(m) = m {
                let (named, choices, sobs) = with(|e| {
                    let mut memo = HashMap::new();
                    let obs: Vec<(String, f64)> = e.observed.clone().into_iter().map(|(n, t)| (n, e.eval_with(t, &m, &mut memo))).collect();
                    (e.named(&m), e.choices.clone(), obs)
                });
                local.feasible += 1;
                let o = run_native(h, &named, &choices);
                if o.pruned || o.diverged || o.panic.is_some() || o.budget.is_some() {
                    local.diverged += 1;
                } else if o.obs.len() == sobs.len()
                    && o.obs.iter().zip(&sobs).all(|(a, b)| {
                        a.0 == b.0 && (a.1 == b.1 || (a.1.is_nan() && b.1.is_nan()) || (a.1 - b.1).abs() <= 1e-6 * (1e-6 + a.1.abs().max(b.1.abs())))
                    })
                {
                    local.validated += 1;
                } else {
                    local.diverged += 1;
                    local.mismatches.push(format!("model {:?} choices {:?}: native {:?} symbolic {:?}", named, choices, o.obs, sobs));
                }
                let mut s = format!("stub answers {:?}; ", choices.iter().map(|(n, c)| format!("{n}={c}")).collect::<Vec<_>>());
                s.push_str(&format!("a model: {:?}; ", named.iter().take(12).map(|(n, x)| format!("{n}={x}")).collect::<Vec<_>>()));
                s.push_str(&format!("observed {:?}", sobs.iter().take(8).map(|(n, x)| format!("{n}={x}")).collect::<Vec<_>>()));
                s.truncate(s.char_indices().nth(700).map(|(i, _)| i).unwrap_or(s.len()));
                local.samples.push(s);
            }
        }
        let mut viol = vec![];
        let mut hits = vec![];
        for c in cands {
            let mut rep = None;
            for (m, &exact) in c.models.iter().zip(&c.exact) {
                let o = run_native(h, m, &c.choices);
                if o.pruned && o.failed.is_empty() {
                    continue;
                }
                if !o.failed.is_empty() || o.panic.is_some() || o.budget.is_some() {
                    let what = match (&o.panic, &o.budget) {
                        (Some(p), _) => format!("panic: {p}"),
                        (_, Some(b)) => b.clone(),
                        _ => format!("failed: {}", o.failed.join(", ")),
                    };
                    rep = Some((m.clone(), what));
                    break;
                }
                if exact && !o.diverged && o.maybe.contains(&c.label) {
                    rep = Some((m.clone(), format!("{EXACTLY} {}", c.label)));
                    break;
                }
            }
            match rep {
                Some((vars, native)) => {
                    let key = format!("{}|{}", h.name, c.label);
                    if let Some(k) = known.iter().find(|k| k.property == prop && k.key == key) {
                        hits.push(k.text.clone());
                    } else {
                        viol.push(Violation { harness: h.name.clone(), label: c.label.clone(), native, vars, choices: c.choices.clone() });
                    }
                }
                None => {
                    if std::env::var("SYMX_DEBUG").is_ok() {
                        eprintln!("unreproduced: {} {:?} {:?}", c.label, c.models.first(), c.choices);
                    }
                    local.inconclusive.push(format!("counterexample to '{}' did not reproduce natively", c.label))
                }
            }
        }
        let forks = with(|e| std::mem::take(&mut e.forks));
        with(|e| {
            local.stats = e.stats.clone();
            local.queries = e.solvers.queries - q0;
            local.solver_time = e.solvers.time - st0;
            for (k, v) in &e.solvers.by_kind {
                *local.by_kind.entry(k).or_default() += v;
            }
        });
        let mut sh = shared.0.lock().unwrap();
        let s = &mut sh.stats[hi];
        s.paths += local.paths;
        s.pruned += local.pruned;
        s.feasible += local.feasible;
        s.validated += local.validated;
        s.diverged += local.diverged;
        merge_stats(&mut s.stats, &local.stats);
        s.queries += local.queries;
        s.solver_time += local.solver_time;
        for (k, v) in local.by_kind {
            *s.by_kind.entry(k).or_default() += v;
        }
        s.wall += t0.elapsed().as_secs_f64();
        if s.samples.len() < 3 {
            s.samples.extend(local.samples);
        }
        if s.inconclusive.len() < 20 {
            s.inconclusive.extend(local.inconclusive);
        }
        if s.mismatches.len() < 5 {
            s.mismatches.extend(local.mismatches);
        }
        s.data_forks |= local.data_forks;
        if s.data_forks {
            s.leaves.clear();
        } else {
            s.leaves.extend(local.leaves);
        }
        let over = s.paths > h.max_paths;
        sh.known_hits.extend(hits);
        if !viol.is_empty() {
            sh.violations.extend(viol);
            stop_all.store(true, Ordering::Relaxed);
            eng::STOP.store(true, Ordering::Relaxed);
        }
        if over {
            sh.stats[hi].inconclusive.push(format!("more than {} paths", h.max_paths));
            sh.queue[hi].clear();
        } else {
            sh.queue[hi].extend(forks);
        }
        sh.running[hi] -= 1;
        shared.1.notify_all();
    }
}

fn replay(all: &[Harness], file: &str) -> i32 {
    let txt = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let (mut prop, mut harness) = (String::new(), String::new());
    let (mut vars, mut choices) = (vec![], vec![]);
    let mut exact: Option<String> = None;
    for l in txt.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "property" => prop = w[1].into(),
            "harness" => harness = l["harness ".len()..].into(),
            "native" => exact = l["native ".len()..].strip_prefix(EXACTLY).map(|s| s.trim().to_string()),
            "var" => vars.push((w[1].to_string(), f64::from_bits(u64::from_str_radix(w[2], 16).unwrap()))),
            "choice" => choices.push((w[1].to_string(), w[2].parse().unwrap())),
            _ => {}
        }
    }
    let Some(h) = all.iter().find(|h| h.name == harness && h.property == prop) else {
        eprintln!("no harness {harness}");
        return 2;
    };
    println!("replaying {prop} {harness} natively (f64)");
    for (n, x) in &vars {
        println!("  {n} = {x:?}");
    }
    for (n, c) in &choices {
        println!("  {n} -> {c}");
    }
    let o = run_native(h, &vars, &choices);
    for (n, x) in &o.obs {
        println!("  observed {n} = {x:?}");
    }
    if let Some(p) = o.panic {
        println!("panicked: {p}");
        return 1;
    }
    if let Some(p) = o.budget {
        println!("{p}");
        return 1;
    }
    if !o.failed.is_empty() {
        println!("failed: {:?}", o.failed);
        return 1;
    }
    if let Some(l) = exact.filter(|l| o.maybe.contains(l)) {
        println!("failed in exact arithmetic (the float run cannot tell): {l}");
        return 1;
    }
    println!("no failure");
    0
}
#[allow(unused)]
fn _keep() {
    let _ = &ENG;
    let _ = eng::TRUE;
}
