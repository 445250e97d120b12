//! SMT solver processes: one kept alive per kind and thread, `(reset)` between queries, soft
//! time-out inside the solver and a hard kill outside. Any `(error` is `Unknown`.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    Z3,
    Z3New,
    Cvc5,
}
impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Z3 => "z3-4.8.12",
            Kind::Z3New => "z3-5.3.2",
            Kind::Cvc5 => "cvc5-1.1.2",
        }
    }
}
#[derive(Clone, Debug)]
pub enum Ans {
    Sat(HashMap<String, f64>),
    Unsat,
    Unknown(String),
}

struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
#[derive(Default)]
pub struct Solvers {
    procs: HashMap<Kind, Proc>,
    seq: u64,
    pub queries: u64,
    pub time: f64,
    pub by_kind: HashMap<&'static str, u64>,
}
impl Solvers {
    fn get(&mut self, k: Kind) -> &mut Proc {
        self.procs.entry(k).or_insert_with(|| {
            let mut c = match k {
                Kind::Z3 => {
                    let mut c = Command::new("z3");
                    c.args(["-in", "-smt2", "-memory:3000"]);
                    c
                }
                Kind::Z3New => {
                    let mut c = Command::new("z3-new");
                    c.args(["-in", "-smt2", "-memory:3000"]);
                    c
                }
                Kind::Cvc5 => {
                    let mut c = Command::new("cvc5");
                    c.args(["--incremental", "--lang=smt2", "--produce-models"]);
                    c
                }
            };
            let mut child = c
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("cannot start solver");
            let out = child.stdout.take().unwrap();
            let stdin = child.stdin.take().unwrap();
            let (tx, rx) = channel();
            std::thread::spawn(move || {
                for l in BufReader::new(out).lines() {
                    match l {
                        Ok(l) => {
                            if tx.send(l).is_err() {
                                break;
                            }
                        }
                        Err(_) => break,
                    }
                }
            });
            Proc { child, stdin, rx }
        })
    }
    /// `body`: declarations and assertions. `vars`: names whose value is wanted on sat.
    pub fn check(&mut self, k: Kind, fp: bool, body: &str, vars: &[String], ms: u64) -> Ans {
        self.queries += 1;
        *self.by_kind.entry(k.name()).or_default() += 1;
        self.seq += 1;
        let seq = self.seq;
        let t0 = Instant::now();
        let mut q = String::with_capacity(body.len() + 512);
        q.push_str("(reset)\n");
        match k {
            Kind::Cvc5 => {
                q.push_str(&format!("(set-option :tlimit-per {ms})\n"));
                q.push_str(if fp { "(set-logic QF_FP)\n" } else { "(set-logic ALL)\n" });
            }
            _ => {
                q.push_str(&format!("(set-option :timeout {ms})\n"));
                if !fp {
                    q.push_str("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n");
                }
            }
        }
        q.push_str(body);
        q.push_str("(check-sat)\n");
        q.push_str(&format!("(echo \"mark-{seq}\")\n"));
        if let Ok(d) = std::env::var("SYMX_DUMP") {
            let _ = std::fs::write(format!("{d}/{:?}-{}-{seq}.smt2", std::thread::current().id(), k.name()), &q);
        }
        let r = self.talk(k, &q, &format!("mark-{seq}"), ms + ms / 2 + 1500);
        let ans = match r {
            None => {
                self.procs.remove(&k);
                Ans::Unknown("killed".into())
            }
            Some(lines) => {
                if lines.iter().any(|l| l.contains("(error")) {
                    let e = lines.iter().find(|l| l.contains("(error")).unwrap().clone();
                    if std::env::var("SYMX_DEBUG").is_ok() {
                        eprintln!("solver error: {e}\n{q}");
                    }
                    self.procs.remove(&k);
                    Ans::Unknown(e)
                } else if lines.iter().any(|l| l.trim() == "unsat") {
                    Ans::Unsat
                } else if lines.iter().any(|l| l.trim() == "sat") {
                    if vars.is_empty() {
                        Ans::Sat(HashMap::new())
                    } else {
                        let m = format!("mark-{seq}v");
                        let q = format!("(get-value ({}))\n(echo \"{m}\")\n", vars.join(" "));
                        match self.talk(k, &q, &m, 5000) {
                            Some(l) if !l.iter().any(|x| x.contains("(error")) => {
                                match parse_values(&l.join("\n")) {
                                    Some(mm) => Ans::Sat(mm),
                                    None => Ans::Unknown("model parse".into()),
                                }
                            }
                            _ => {
                                self.procs.remove(&k);
                                Ans::Unknown("no model".into())
                            }
                        }
                    }
                } else {
                    Ans::Unknown("unknown".into())
                }
            }
        };
        self.time += t0.elapsed().as_secs_f64();
        ans
    }
    fn talk(&mut self, k: Kind, q: &str, mark: &str, ms: u64) -> Option<Vec<String>> {
        let p = self.get(k);
        if p.stdin.write_all(q.as_bytes()).is_err() || p.stdin.flush().is_err() {
            return None;
        }
        let end = Instant::now() + Duration::from_millis(ms);
        let mut lines = vec![];
        loop {
            let now = Instant::now();
            if now >= end {
                return None;
            }
            match p.rx.recv_timeout(end - now) {
                Ok(l) => {
                    if l.trim().trim_matches('"') == mark {
                        return Some(lines);
                    }
                    lines.push(l);
                }
                Err(_) => return None,
            }
        }
    }
}

#[derive(Debug, Clone)]
pub enum Sx {
    A(String),
    L(Vec<Sx>),
}
pub fn parse_sx(s: &str) -> Option<Vec<Sx>> {
    let mut stack: Vec<Vec<Sx>> = vec![vec![]];
    let mut it = s.chars().peekable();
    while let Some(&c) = it.peek() {
        if c.is_whitespace() {
            it.next();
        } else if c == '(' {
            it.next();
            stack.push(vec![]);
        } else if c == ')' {
            it.next();
            let l = stack.pop()?;
            stack.last_mut()?.push(Sx::L(l));
        } else if c == '|' {
            it.next();
            let mut a = String::new();
            for c in it.by_ref() {
                if c == '|' {
                    break;
                }
                a.push(c);
            }
            stack.last_mut()?.push(Sx::A(a));
        } else {
            let mut a = String::new();
            while let Some(&c) = it.peek() {
                if c.is_whitespace() || c == '(' || c == ')' {
                    break;
                }
                a.push(c);
                it.next();
            }
            stack.last_mut()?.push(Sx::A(a));
        }
    }
    if stack.len() != 1 {
        return None;
    }
    stack.pop()
}
fn parse_values(s: &str) -> Option<HashMap<String, f64>> {
    let top = parse_sx(s)?;
    let mut m = HashMap::new();
    for t in top {
        if let Sx::L(pairs) = t {
            for p in pairs {
                if let Sx::L(kv) = p {
                    if kv.len() == 2 {
                        if let Sx::A(k) = &kv[0] {
                            m.insert(k.clone(), num(&kv[1])?);
                        }
                    }
                }
            }
        }
    }
    Some(m)
}
fn num(s: &Sx) -> Option<f64> {
    match s {
        Sx::A(a) => match a.as_str() {
            "true" => Some(1.0),
            "false" => Some(0.0),
            _ => a.trim_end_matches('?').parse().ok(),
        },
        Sx::L(l) => {
            let h = match l.first()? {
                Sx::A(h) => h.as_str(),
                _ => return None,
            };
            match h {
                "-" if l.len() == 2 => Some(-num(&l[1])?),
                "-" => Some(num(&l[1])? - num(&l[2])?),
                "/" => Some(num(&l[1])? / num(&l[2])?),
                "+" => Some(num(&l[1])? + num(&l[2])?),
                "*" => Some(num(&l[1])? * num(&l[2])?),
                "fp" => {
                    let mut b = String::new();
                    for x in &l[1..] {
                        b.push_str(&bits(x)?);
                    }
                    Some(f64::from_bits(u64::from_str_radix(&b, 2).ok()?))
                }
                "_" => match &l[1] {
                    Sx::A(a) => match a.as_str() {
                        "NaN" => Some(f64::NAN),
                        "+oo" => Some(f64::INFINITY),
                        "-oo" => Some(f64::NEG_INFINITY),
                        "+zero" => Some(0.0),
                        "-zero" => Some(-0.0),
                        _ => None,
                    },
                    _ => None,
                },
                "_real_algebraic_number" | "root-obj" => None,
                _ => None,
            }
        }
    }
}
fn bits(s: &Sx) -> Option<String> {
    if let Sx::A(a) = s {
        if let Some(b) = a.strip_prefix("#b") {
            return Some(b.to_string());
        }
        if let Some(h) = a.strip_prefix("#x") {
            let mut r = String::new();
            for c in h.chars() {
                r.push_str(&format!("{:04b}", c.to_digit(16)?));
            }
            return Some(r);
        }
    }
    None
}
