//! C07-C13: the Newton iteration (crates/nonlinear/src/newton.rs) against an environment whose
//! every answer is arbitrary, and against the dense solver.
use linear::{Dense, LSolver};
use nalgebra::{Const, DimNameAdd, Matrix, SMatrix, SVector, Storage, StorageMut, U1};
use nonlinear::norm_wrms::NormWRMS;
use nonlinear::{Error, NLProblem, NLSolver, Newton};
use symx::{h, Harness, Sc, C};

/// how a stub answered
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum R {
    Ok,
    Yes,
    No,
    Recover,
    Illegal,
    LinFail(usize),
}
impl R {
    fn err(self) -> Option<Error> {
        match self {
            R::Ok | R::Yes | R::No => None,
            R::Recover => Some(Error::ConvergenceRecover {}),
            R::Illegal => Some(Error::IllegalInput {}),
            R::LinFail(col) => Some(Error::LinearSetupFailed { source: linear::Error::LUFactFail { col } }),
        }
    }
    fn failed(self) -> bool {
        !matches!(self, R::Ok | R::Yes | R::No)
    }
}
fn kind(r: &Result<(), Error>) -> R {
    match r {
        Ok(()) => R::Ok,
        Err(Error::ConvergenceRecover {}) => R::Recover,
        Err(Error::IllegalInput {}) => R::Illegal,
        Err(Error::LinearSetupFailed { source: linear::Error::LUFactFail { col } }) => R::LinFail(*col),
        Err(_) => R::LinFail(usize::MAX),
    }
}
#[derive(Clone, Debug)]
enum Ev<S, const N: usize> {
    Sys { y: [S; N], f: [S; N], r: R },
    Setup { y: [S; N], f: [S; N], jbad: bool, r: R },
    Solve { y: [S; N], b: [S; N], d: [S; N], r: R },
    Ctest { y: [S; N], del: [S; N], tol: S, w: [S; N], cur: usize, tot: usize, fails: usize, r: R },
}
impl<S, const N: usize> Ev<S, N> {
    fn r(&self) -> R {
        match self {
            Ev::Sys { r, .. } | Ev::Setup { r, .. } | Ev::Solve { r, .. } | Ev::Ctest { r, .. } => *r,
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Detail {
    /// success or recoverable failure only
    Recover,
    /// every error
    All,
    /// for long histories: only setup and the convergence test have a choice of (successful or recoverable) answers
    Thin,
    /// for longer ones: only whether setup says current, and whether the convergence test passes
    Thinner,
}
struct Env<S, const N: usize> {
    log: Vec<Ev<S, N>>,
    calls: [usize; 4],
    limit: [usize; 4],
    detail: Detail,
}
fn arr<S: Sc, const N: usize, Q: Storage<S, Const<N>, U1>>(m: &Matrix<S, Const<N>, U1, Q>) -> [S; N] {
    std::array::from_fn(|i| m[i])
}
impl<S: Sc, const N: usize> Env<S, N> {
    fn new(maxiters: usize, detail: Detail) -> Self {
        let it = maxiters.max(1);
        // two attempts at most: one setup each, maxiters linear solves and convergence tests each,
        // one residual per iteration
        Env { log: vec![], calls: [0; 4], limit: [2 * it, 2, 2 * it, 2 * it], detail }
    }
    fn called(&mut self, which: usize) {
        self.calls[which] += 1;
        if self.calls[which] > self.limit[which] {
            // C07 (and the retry policy, C10) report this; the other properties say nothing about it
            if STRICT.with(|l| l.get()) {
                S::fail("the number of callbacks stays within two attempts of maxiters iterations");
            }
            S::prune();
        }
    }
    fn answer(&self, name: &str, oks: &[R]) -> R {
        let mut v = oks.to_vec();
        match self.detail {
            Detail::Thin if name != "ctest" => return v[S::choose(name, v.len())],
            Detail::Thinner => return v[S::choose(name, v.len())],
            _ => {}
        }
        v.push(R::Recover);
        if self.detail == Detail::All {
            v.push(R::Illegal);
            v.push(R::LinFail(3));
        }
        v[S::choose(name, v.len())]
    }
    fn fill<Q: StorageMut<S, Const<N>, U1>>(m: &mut Matrix<S, Const<N>, U1, Q>, name: &str) -> [S; N] {
        // written whatever the outcome: a failing callback may leave anything behind
        for i in 0..N {
            m[i] = S::var(&format!("{name}{i}"));
        }
        arr(m)
    }
}
impl<S: Sc, const N: usize> NLProblem<S, Const<N>> for Env<S, N> {
    fn sys<A, B>(&mut self, y: &Matrix<S, Const<N>, U1, A>, f: &mut Matrix<S, Const<N>, U1, B>) -> Result<(), Error>
    where
        A: Storage<S, Const<N>, U1>,
        B: StorageMut<S, Const<N>, U1>,
    {
        self.called(0);
        let y = arr(y);
        let f = Self::fill(f, "f");
        let r = self.answer("sys", &[R::Ok]);
        self.log.push(Ev::Sys { y, f, r });
        r.err().map_or(Ok(()), Err)
    }
    fn setup<A, B>(&mut self, y: &Matrix<S, Const<N>, U1, A>, f: &Matrix<S, Const<N>, U1, B>, jbad: bool) -> Result<bool, Error>
    where
        A: Storage<S, Const<N>, U1>,
        B: Storage<S, Const<N>, U1>,
    {
        self.called(1);
        let r = self.answer("setup", &[R::Yes, R::No]);
        self.log.push(Ev::Setup { y: arr(y), f: arr(f), jbad, r });
        r.err().map_or(Ok(r == R::Yes), Err)
    }
    fn solve<A, B>(&mut self, y: &Matrix<S, Const<N>, U1, A>, b: &mut Matrix<S, Const<N>, U1, B>) -> Result<(), Error>
    where
        A: Storage<S, Const<N>, U1>,
        B: StorageMut<S, Const<N>, U1>,
    {
        self.called(2);
        let (y, rhs) = (arr(y), arr(b));
        let d = Self::fill(b, "d");
        let r = self.answer("solve", &[R::Ok]);
        self.log.push(Ev::Solve { y, b: rhs, d, r });
        r.err().map_or(Ok(()), Err)
    }
    fn ctest<NLS, A, B, W>(&mut self, s: &NLS, y: &Matrix<S, Const<N>, U1, A>, del: &Matrix<S, Const<N>, U1, B>, tol: S, w: &Matrix<S, Const<N>, U1, W>) -> Result<bool, Error>
    where
        NLS: NLSolver<S, Const<N>>,
        A: Storage<S, Const<N>, U1>,
        B: Storage<S, Const<N>, U1>,
        W: Storage<S, Const<N>, U1>,
    {
        self.called(3);
        let r = self.answer("ctest", &[R::Yes, R::No]);
        self.log.push(Ev::Ctest { y: arr(y), del: arr(del), tol, w: arr(w), cur: s.get_cur_iter(), tot: s.get_num_iters(), fails: s.get_num_conv_fails(), r });
        r.err().map_or(Ok(r == R::Yes), Err)
    }
}
struct Call<S, const N: usize> {
    y0: [S; N],
    y: [S; N],
    w: [S; N],
    tol: S,
    lsetup: bool,
    res: R,
    log: Vec<Ev<S, N>>,
}
/// one `solve` from arbitrary arguments
fn one<S: Sc, const N: usize>(nw: &mut Newton<S, Const<N>>, maxiters: usize, detail: Detail) -> Call<S, N>
where
    Const<N>: DimNameAdd<Const<N>>,
{
    let y0: SVector<S, N> = SVector::from_fn(|i, _| S::var(&format!("y0_{i}")));
    let mut y: SVector<S, N> = SVector::from_fn(|i, _| S::var(&format!("y_{i}")));
    let w: SVector<S, N> = SVector::from_fn(|i, _| S::var(&format!("w_{i}")));
    let tol = S::var("tol");
    let lsetup = S::flag("call_lsetup");
    let mut env = Env::<S, N>::new(maxiters, detail);
    let r = nw.solve(&mut env, &y0, &mut y, &w, tol, lsetup);
    for i in 0..N {
        S::observe(&format!("y{i}"), y[i]);
    }
    Call { y0: arr(&y0), y: arr(&y), w: arr(&w), tol, lsetup, res: kind(&r), log: env.log }
}
fn plus<S: Sc, const N: usize>(a: [S; N], b: [S; N]) -> [S; N] {
    std::array::from_fn(|i| a[i] + b[i])
}
fn minus<S: Sc, const N: usize>(a: [S; N]) -> [S; N] {
    std::array::from_fn(|i| S::num(0.0) - a[i])
}
/// attempts: each starts with a residual evaluation at y0 that is not an iteration's own
fn attempts<S: Sc, const N: usize>(log: &[Ev<S, N>]) -> Vec<Vec<Ev<S, N>>> {
    let mut v: Vec<Vec<Ev<S, N>>> = vec![];
    let mut fresh = true;
    for e in log {
        if fresh {
            v.push(vec![]);
            fresh = false;
        }
        let r = e.r();
        v.last_mut().unwrap().push(e.clone());
        // an attempt ends with a failure, or with the sys-less end of an exhausted iteration;
        // the latter is recognised by what follows a negative convergence test
        if r.failed() {
            fresh = true;
        }
        if let Ev::Ctest { r: R::No, .. } = e {
            let its = v.last().unwrap().iter().filter(|e| matches!(e, Ev::Ctest { .. })).count();
            if its >= LIMIT.with(|l| l.get()) {
                fresh = true;
            }
        }
    }
    v
}
thread_local! {
    static LIMIT: std::cell::Cell<usize> = const { std::cell::Cell::new(1) };
    static STRICT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// histories of three and more solves leave the callbacks fewer answers
fn detail_of(rounds: usize) -> Detail {
    match rounds {
        0..=2 => Detail::Recover,
        3 => Detail::Thin,
        _ => Detail::Thinner,
    }
}
fn start<S: Sc, const N: usize>(maxiters: usize) -> Newton<S, Const<N>>
where
    Const<N>: DimNameAdd<Const<N>>,
{
    LIMIT.with(|l| l.set(maxiters.max(1)));
    STRICT.with(|l| l.set(false));
    Newton::new(maxiters)
}

/// C07: bounded work whatever the callbacks answer
fn c07<S: Sc, const N: usize>(maxiters: usize, rounds: usize)
where
    Const<N>: DimNameAdd<Const<N>>,
{
    let mut nw = start::<S, N>(maxiters);
    STRICT.with(|l| l.set(true));
    for _ in 0..rounds {
        let c = one(&mut nw, maxiters, detail_of(rounds));
        let n = |f: fn(&Ev<S, N>) -> bool| c.log.iter().filter(|e| f(e)).count();
        let it = maxiters.max(1);
        S::check_b("terminates within two attempts", n(|e| matches!(e, Ev::Setup { .. })) <= 2);
        for a in attempts(&c.log) {
            let k = a.iter().filter(|e| matches!(e, Ev::Solve { .. })).count();
            S::check_b("at most maxiters iterations per attempt", k <= it);
        }
        S::check_b("ends in success or failure", matches!(c.res, R::Ok | R::Recover));
    }
}

/// C08: success means the convergence test accepted exactly the returned iterate
fn c08<S: Sc, const N: usize>(maxiters: usize, rounds: usize)
where
    Const<N>: DimNameAdd<Const<N>>,
{
    let mut nw = start::<S, N>(maxiters);
    for _ in 0..rounds {
        let c = one(&mut nw, maxiters, detail_of(rounds));
        for (k, e) in c.log.iter().enumerate() {
            if let Ev::Ctest { r: R::Yes, .. } = e {
                S::check_b("a passed convergence test ends the iteration", k + 1 == c.log.len());
                S::check_b("a passed convergence test is a success", c.res == R::Ok);
            }
        }
        for a in attempts(&c.log) {
            let mut acc = c.y0;
            for e in &a {
                match e {
                    Ev::Solve { d, r: R::Ok, .. } => acc = plus(acc, *d),
                    Ev::Ctest { y, del, tol, w, .. } => {
                        S::check("the tested iterate is the start plus all corrections of this attempt", C::eqs(y, &acc));
                        let last = a.iter().take_while(|x| !std::ptr::eq(*x, e)).filter_map(|x| if let Ev::Solve { d, .. } = x { Some(*d) } else { None }).last();
                        match last {
                            Some(d) => S::check("the tested correction is the last one", C::eqs(del, &d)),
                            None => S::fail("a convergence test follows a correction"),
                        }
                        S::check("tolerance and weights are passed on", C::Eq(*tol, c.tol).and(C::eqs(w, &c.w)));
                    }
                    _ => {}
                }
            }
        }
        if c.res == R::Ok {
            match c.log.last() {
                Some(Ev::Ctest { y, r: R::Yes, .. }) => S::check("the returned vector is the accepted iterate", C::eqs(&c.y, y)),
                _ => S::fail("success only after the convergence test passed"),
            }
        } else {
            S::check_b("failure is not reported after a passed test", !matches!(c.log.last(), Some(Ev::Ctest { r: R::Yes, .. })));
        }
    }
}

/// C09: every linear solve is for minus the residual at the current iterate
fn c09<S: Sc, const N: usize>(maxiters: usize, rounds: usize)
where
    Const<N>: DimNameAdd<Const<N>>,
{
    let mut nw = start::<S, N>(maxiters);
    for _ in 0..rounds {
        let c = one(&mut nw, maxiters, detail_of(rounds));
        let mut any = false;
        for a in attempts(&c.log) {
            let mut acc = c.y0;
            let mut res: Option<([S; N], [S; N])> = None;
            let mut since = 0;
            for e in &a {
                match e {
                    Ev::Sys { y, f, .. } => {
                        S::check("the residual is evaluated at the current iterate", C::eqs(y, &acc));
                        res = Some((*y, *f));
                        since = 0;
                    }
                    Ev::Setup { y, f, .. } => {
                        S::check("the linear setup sees the start of the attempt", C::eqs(y, &c.y0));
                        if let Some((_, f0)) = res {
                            S::check("the linear setup sees the residual", C::eqs(f, &f0));
                        }
                    }
                    Ev::Solve { y, b, d, r } => {
                        any = true;
                        S::check("the linear solve sees the current iterate", C::eqs(y, &acc));
                        match res {
                            Some((ry, f)) if since == 0 => {
                                S::check("the residual belongs to the current iterate", C::eqs(&ry, &acc));
                                S::check("the right-hand side is minus the residual", C::eqs(b, &minus(f)));
                            }
                            _ => S::fail("each linear solve has a residual of its own"),
                        }
                        since += 1;
                        if *r == R::Ok {
                            acc = plus(acc, *d);
                        }
                    }
                    _ => {}
                }
            }
        }
        S::check_b("an attempt that is not stopped before it solves a linear system", any || c.log.iter().any(|e| e.r().failed()));
    }
}

/// C10: when the Jacobian is (re)built, and when the iteration is retried
fn c10<S: Sc, const N: usize>(maxiters: usize, rounds: usize)
where
    Const<N>: DimNameAdd<Const<N>>,
{
    let mut nw = start::<S, N>(maxiters);
    STRICT.with(|l| l.set(true));
    // is the Jacobian known to be current? (reported so by the last setup, no success since)
    let mut current = false;
    for _ in 0..rounds {
        let c = one(&mut nw, maxiters, detail_of(rounds));
        let at = attempts(&c.log);
        S::check_b("one attempt, or two", at.len() == 1 || at.len() == 2);
        for (k, a) in at.iter().enumerate() {
            let setups: Vec<&Ev<S, N>> = a.iter().filter(|e| matches!(e, Ev::Setup { .. })).collect();
            let first_sys_ok = matches!(a.first(), Some(Ev::Sys { r: R::Ok, .. }));
            S::check_b("an attempt starts with the residual", matches!(a.first(), Some(Ev::Sys { .. })));
            if let Some(Ev::Sys { y, .. }) = a.first() {
                S::check("every attempt starts over from y0", C::eqs(y, &c.y0));
            }
            let want = (k > 0 || c.lsetup) && first_sys_ok;
            S::check_b("setup runs once when asked for or on a retry, and not otherwise", setups.len() == want as usize);
            if let Some(Ev::Setup { jbad, r, .. }) = setups.first() {
                S::check_b("the Jacobian is called bad on a retry only", *jbad == (k > 0));
                S::check_b("setup comes right after the residual", matches!(a.get(1), Some(Ev::Setup { .. })));
                match r {
                    R::Yes => current = true,
                    R::No => current = false,
                    _ => {}
                }
            }
            let failed = !matches!(a.last(), Some(Ev::Ctest { r: R::Yes, .. }));
            if k == 0 {
                let retry = failed && !current;
                S::check_b("a failed attempt is retried exactly when the Jacobian was not current", (at.len() == 2) == retry);
            }
            if !failed {
                current = false;
            }
        }
        let ok = matches!(c.log.last(), Some(Ev::Ctest { r: R::Yes, .. }));
        S::check_b("what the last attempt came to is what is returned", c.res == if ok { R::Ok } else { R::Recover });
    }
}

/// C11: an unrecoverable error stops everything and comes back unchanged
fn c11<S: Sc, const N: usize>(maxiters: usize, rounds: usize)
where
    Const<N>: DimNameAdd<Const<N>>,
{
    let mut nw = start::<S, N>(maxiters);
    for _ in 0..rounds {
        let c = one(&mut nw, maxiters, Detail::All);
        let fatal = |r: R| matches!(r, R::Illegal | R::LinFail(_));
        let pos = c.log.iter().position(|e| fatal(e.r()));
        match pos {
            Some(p) => {
                S::check_b("no callback after an unrecoverable error", p + 1 == c.log.len());
                S::check_b("the error comes back unchanged", c.res == c.log[p].r());
            }
            None => S::check_b("no unrecoverable error is made up", !fatal(c.res)),
        }
        for w in c.log.windows(2) {
            if w[0].r() == R::Recover {
                S::check_b("after a recoverable failure the next call, if any, starts a new attempt", matches!(w[1], Ev::Sys { .. }));
                if let Ev::Sys { y, .. } = &w[1] {
                    S::check("the new attempt starts from y0", C::eqs(y, &c.y0));
                }
            }
        }
    }
}

/// C12: the counters are exact over any history of solves
fn c12<S: Sc, const N: usize>(maxiters: usize, rounds: usize, detail: usize)
where
    Const<N>: DimNameAdd<Const<N>>,
{
    let mut nw = start::<S, N>(maxiters);
    let (mut its, mut fails) = (0, 0);
    S::check_b("counters start at zero", nw.get_num_iters() == 0 && nw.get_num_conv_fails() == 0);
    for _ in 0..rounds {
        let c = one(&mut nw, maxiters, if detail == 0 { detail_of(rounds) } else { Detail::All });
        for a in attempts(&c.log) {
            let mut k = 0;
            for e in &a {
                match e {
                    Ev::Solve { .. } => its += 1,
                    Ev::Ctest { cur, tot, fails: nf, .. } => {
                        S::check_b("the iteration number in the convergence test counts from 0 in each attempt", *cur == k);
                        S::check_b("the total in the convergence test includes this iteration", *tot == its);
                        S::check_b("the failures in the convergence test are those of earlier attempts", *nf == fails);
                        k += 1;
                    }
                    _ => {}
                }
            }
            if !matches!(a.last(), Some(Ev::Ctest { r: R::Yes, .. })) {
                fails += 1;
            }
        }
        S::check_b("iterations over all solves", nw.get_num_iters() == its);
        S::check_b("failed attempts over all solves", nw.get_num_conv_fails() == fails);
    }
}

/// an affine system M y = c, solved with the dense LU
struct Affine<S: Sc, const N: usize> {
    m: SMatrix<S, N, N>,
    c: SVector<S, N>,
    lu: SMatrix<S, N, N>,
    ls: Dense<Const<N>>,
    refresh: bool,
}
impl<S: Sc, const N: usize> NLProblem<S, Const<N>> for Affine<S, N> {
    fn sys<A, B>(&mut self, y: &Matrix<S, Const<N>, U1, A>, f: &mut Matrix<S, Const<N>, U1, B>) -> Result<(), Error>
    where
        A: Storage<S, Const<N>, U1>,
        B: StorageMut<S, Const<N>, U1>,
    {
        for i in 0..N {
            let mut s = S::num(0.0) - self.c[i];
            for j in 0..N {
                s = s + self.m[(i, j)] * y[j];
            }
            f[i] = s;
        }
        Ok(())
    }
    fn setup<A, B>(&mut self, _y: &Matrix<S, Const<N>, U1, A>, _f: &Matrix<S, Const<N>, U1, B>, _jbad: bool) -> Result<bool, Error>
    where
        A: Storage<S, Const<N>, U1>,
        B: Storage<S, Const<N>, U1>,
    {
        self.lu = self.m;
        self.ls.setup(&mut self.lu).map_err(Error::from)?;
        self.refresh = true;
        Ok(true)
    }
    fn solve<A, B>(&mut self, _y: &Matrix<S, Const<N>, U1, A>, b: &mut Matrix<S, Const<N>, U1, B>) -> Result<(), Error>
    where
        A: Storage<S, Const<N>, U1>,
        B: StorageMut<S, Const<N>, U1>,
    {
        let mut x = SVector::<S, N>::zeros();
        self.ls.solve(&self.lu, &mut x, b, S::num(0.0))?;
        b.copy_from(&x);
        Ok(())
    }
    fn ctest<NLS, A, B, W>(&mut self, _s: &NLS, _y: &Matrix<S, Const<N>, U1, A>, del: &Matrix<S, Const<N>, U1, B>, tol: S, w: &Matrix<S, Const<N>, U1, W>) -> Result<bool, Error>
    where
        NLS: NLSolver<S, Const<N>>,
        A: Storage<S, Const<N>, U1>,
        B: Storage<S, Const<N>, U1>,
        W: Storage<S, Const<N>, U1>,
    {
        Ok(del.norm_wrms(w) <= tol)
    }
}
/// C13: on an affine system one correction is exact, so two iterations converge for every tolerance >= 0
fn c13<S: Sc, const N: usize>(maxiters: usize)
where
    Const<N>: DimNameAdd<Const<N>>,
{
    let m: SMatrix<S, N, N> = SMatrix::from_fn(|i, j| S::var(&format!("m{i}{j}")));
    let c: SVector<S, N> = SVector::from_fn(|i, _| S::var(&format!("c{i}")));
    let y0: SVector<S, N> = SVector::from_fn(|i, _| S::var(&format!("y0_{i}")));
    let w: SVector<S, N> = SVector::from_fn(|i, _| S::var(&format!("w{i}")));
    let mut y: SVector<S, N> = SVector::from_fn(|i, _| S::var(&format!("y_{i}")));
    let tol = S::var("tol");
    S::assume(C::Le(S::num(0.0), tol));
    let mut p = Affine { m, c, lu: m, ls: <Dense<Const<N>> as LSolver<S, Const<N>>>::new(), refresh: false };
    let mut nw: Newton<S, Const<N>> = Newton::new(maxiters);
    let r = nw.solve(&mut p, &y0, &mut y, &w, tol, true);
    match kind(&r) {
        R::Ok => {
            for i in 0..N {
                S::observe(&format!("y{i}"), y[i]);
                let mut s = S::num(0.0);
                for j in 0..N {
                    s = s + m[(i, j)] * y[j];
                }
                S::check("the accepted iterate solves the affine system", C::Eq(s, c[i]));
            }
            S::check_b("at most two iterations", nw.get_num_iters() <= 2 && nw.get_num_iters() >= 1);
            S::check_b("no failure is counted", nw.get_num_conv_fails() == 0);
        }
        R::LinFail(col) => {
            S::check_b("a singular Jacobian is reported with its column", (1..=N).contains(&col) && !p.refresh);
        }
        _ => S::check_b("an affine system with a regular Jacobian converges once two iterations are allowed", maxiters < 2),
    }
}

/// C13 for larger systems: fixed matrices that need row exchanges, everything else arbitrary
fn c13_big<S: Sc, const N: usize>(maxiters: usize)
where
    Const<N>: DimNameAdd<Const<N>>,
{
    let m: SMatrix<S, N, N> = crate::lin::dyadic::<S, N>(S::choose("matrix", 3)).0;
    let c: SVector<S, N> = SVector::from_fn(|i, _| S::var(&format!("c{i}")));
    let y0: SVector<S, N> = SVector::from_fn(|i, _| S::var(&format!("y0_{i}")));
    // weights: one arbitrary, the others 1, so that the norm stays a quadratic of its own size
    let p = S::choose("weight", N);
    let w: SVector<S, N> = SVector::from_fn(|i, _| if i == p { S::var("w") } else { S::num(1.0) });
    let mut y: SVector<S, N> = SVector::from_fn(|i, _| S::var(&format!("y_{i}")));
    let tol = S::var("tol");
    S::assume(C::Le(S::num(0.0), tol));
    let mut p = Affine { m, c, lu: m, ls: <Dense<Const<N>> as LSolver<S, Const<N>>>::new(), refresh: false };
    let mut nw: Newton<S, Const<N>> = Newton::new(maxiters);
    let r = nw.solve(&mut p, &y0, &mut y, &w, tol, true);
    S::check_b("an affine system with a regular Jacobian converges once two iterations are allowed", kind(&r) == R::Ok || maxiters < 2);
    if kind(&r) == R::Ok {
        for i in 0..N {
            S::observe(&format!("y{i}"), y[i]);
            let mut s = S::num(0.0);
            for j in 0..N {
                s = s + m[(i, j)] * y[j];
            }
            S::check("the accepted iterate solves the affine system", C::Eq(s, c[i]));
        }
        S::check_b("at most two iterations", nw.get_num_iters() <= 2 && nw.get_num_iters() >= 1);
        S::check_b("no failure is counted", nw.get_num_conv_fails() == 0);
    }
}

const F: &[&str] = &["nonlinear::newton::Newton::new", "nonlinear::newton::Newton::solve", "nonlinear::newton::Newton::{get_num_iters, get_cur_iter, get_num_conv_fails}"];
const F13: &[&str] = &[
    "nonlinear::newton::Newton::solve",
    "linear::dense::Dense::{setup, solve}",
    "linear::dense::{dense_get_rf, dense_get_rs}",
    "nonlinear::norm_wrms::NormWRMS::norm_wrms",
];
const A: &[&str] = &[
    "the problem's callbacks are stubs: any outcome of {success, recoverable failure (, unrecoverable error)}, any values in every vector they write, also when they fail",
    "Err(Continue) is not among the stub outcomes: its meaning as an error is undocumented",
    "callbacks terminate and do not panic",
];
const EX: &[&str] = &["exact real arithmetic: rounding is outside this claim"];
pub fn register(v: &mut Vec<Harness>) {
    let mut r = |h: Harness| v.push(h.funs(F).assuming(A));
    for mi in 0..4 {
        let b = format!("n = 1, maxiters = {mi}, one solve, every answer of every callback");
        r(h!("C07", format!("bounded-m{mi}"), Real, c07; 1; mi, 1).bound(b));
    }
    r(h!("C07", "bounded-m2-x2", Real, c07; 1; 2, 2).bound("n = 1, maxiters = 2, two solves in a row"));
    r(h!("C07", "bounded-m6", Real, c07; 1; 6, 1).bound("n = 1, maxiters = 6, one solve"));
    r(h!("C07", "bounded-m11", Real, c07; 1; 11, 1).bound("n = 1, maxiters = 11, one solve"));
    r(h!("C07", "bounded-m21", Real, c07; 1; 21, 1).bound("n = 1, maxiters = 21, one solve"));
    for (n, mi, rounds, th) in [(1, 1, 2, false), (1, 3, 1, false), (2, 3, 1, false), (2, 2, 2, false), (3, 4, 1, false), (1, 6, 1, false), (1, 11, 1, false), (1, 21, 1, false), (8, 2, 1, false), (3, 6, 1, true), (2, 3, 2, true)] {
        let b = format!("n = {n}, maxiters = {mi}, {rounds} solve(s) in a row, every answer of every callback");
        macro_rules! all {
            ($($N:literal),*) => { match n { $($N => {
                let mut q = vec![
                    h!("C08", format!("accepted-n{n}-m{mi}-x{rounds}"), Real, c08; $N; mi, rounds),
                    h!("C09", format!("rhs-n{n}-m{mi}-x{rounds}"), Real, c09; $N; mi, rounds),
                    h!("C10", format!("refresh-n{n}-m{mi}-x{rounds}"), Real, c10; $N; mi, rounds),
                ];
                if n < 3 { q.push(h!("C12", format!("counters-n{n}-m{mi}-x{rounds}"), Real, c12; $N; mi, rounds, 0)); }
                if rounds == 1 || mi == 1 { q.push(h!("C11", format!("errors-n{n}-m{mi}-x{rounds}"), Real, c11; $N; mi, rounds)); }
                for x in q { let x = x.bound(b.clone()); r(if th { x.thorough() } else { x }); }
            })* _ => unreachable!() } };
        }
        all!(1, 2, 3, 8);
    }
    r(h!("C12", "counters-errors-m2", Real, c12; 1; 2, 1, 1).bound("n = 1, maxiters = 2, one solve, unrecoverable errors included"));
    for (mi, rounds, th) in [(1, 3, false), (1, 4, false), (2, 4, true), (1, 5, true)] {
        let b = format!("n = 1, maxiters = {mi}, {rounds} solves in a row; {}", if rounds == 3 { "setup and convergence test with every answer, the other callbacks succeed" } else { "setup reports current or not, the convergence test passes or not, no callback fails" });
        let q = vec![
            h!("C07", format!("bounded-m{mi}-x{rounds}"), Real, c07; 1; mi, rounds),
            h!("C08", format!("accepted-m{mi}-x{rounds}"), Real, c08; 1; mi, rounds),
            h!("C09", format!("rhs-m{mi}-x{rounds}"), Real, c09; 1; mi, rounds),
            h!("C10", format!("refresh-m{mi}-x{rounds}"), Real, c10; 1; mi, rounds),
            h!("C12", format!("counters-m{mi}-x{rounds}"), Real, c12; 1; mi, rounds, 0),
        ];
        for x in q {
            let x = x.bound(b.clone());
            r(if th { x.thorough() } else { x });
        }
    }
    let mut r13 = |h: Harness| v.push(h.funs(F13).assuming(EX));
    for mi in 1..4 {
        r13(h!("C13", format!("affine-n1-m{mi}"), Real, c13; 1; mi).bound("every 1x1 affine system, start, weight and tolerance >= 0"));
        r13(h!("C13", format!("affine-n2-m{mi}"), Real, c13; 2; mi).bound("every 2x2 affine system, start, weights and tolerance >= 0"));
    }
    r13(h!("C13", "affine-fixed-n3-m2", Real, c13_big; 3; 2).bound("3x3: three fixed matrices with row exchanges; every right-hand side, start and tolerance >= 0, one arbitrary weight"));
    r13(h!("C13", "affine-fixed-n5-m2", Real, c13_big; 5; 2).bound("5x5: three fixed matrices with row exchanges; every right-hand side, start and tolerance >= 0, one arbitrary weight"));
    r13(h!("C13", "affine-fixed-n9-m3", Real, c13_big; 9; 3).bound("9x9: three fixed matrices with row exchanges; every right-hand side, start and tolerance >= 0, one arbitrary weight"));
    r13(h!("C13", "affine-n3-m2", Real, c13; 3; 2).bound("every 3x3 affine system, start, weights and tolerance >= 0").thorough());
}
