//! C01-C06: the dense linear solver (crates/linear/src/dense.rs), driven through `LSolver`.
use linear::{Dense, Error, LSolver};
use nalgebra::{Const, SMatrix, SVector};
use symx::{h, Harness, Sc, C};

type D<const N: usize> = Dense<Const<N>>;

fn mat<S: Sc, const N: usize>(name: &str) -> SMatrix<S, N, N> {
    SMatrix::from_fn(|i, j| S::var(&format!("{name}{i}{j}")))
}
fn vct<S: Sc, const N: usize>(name: &str) -> SVector<S, N> {
    SVector::from_fn(|i, _| S::var(&format!("{name}{i}")))
}
fn fresh<S: Sc, const N: usize>() -> D<N> {
    <D<N> as LSolver<S, Const<N>>>::new()
}
fn residual<S: Sc, const N: usize>(a: &SMatrix<S, N, N>, x: &SVector<S, N>, b: &SVector<S, N>) -> Vec<C<S>> {
    (0..N)
        .map(|i| {
            let mut s = S::num(0.0);
            for j in 0..N {
                s = s + a[(i, j)] * x[j];
            }
            C::Eq(s, b[i])
        })
        .collect()
}
fn det<S: Sc>(m: &[Vec<S>]) -> S {
    let n = m.len();
    if n == 0 {
        return S::num(1.0);
    }
    let mut s = S::num(0.0);
    for j in 0..n {
        let minor: Vec<Vec<S>> = m[1..].iter().map(|r| r.iter().enumerate().filter(|(c, _)| *c != j).map(|(_, v)| *v).collect()).collect();
        let t = m[0][j] * det(&minor);
        s = if j % 2 == 0 { s + t } else { s - t };
    }
    s
}
fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    (0u32..1 << n).filter(|b| b.count_ones() as usize == k).map(|b| (0..n).filter(|i| b >> i & 1 == 1).collect()).collect()
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in perms(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            r.push(q);
        }
    }
    r
}
fn observe<S: Sc>(name: &str, it: impl IntoIterator<Item = S>) {
    for (i, x) in it.into_iter().enumerate() {
        S::observe(&format!("{name}{i}"), x);
    }
}

/// factor + solve: A x = b
fn c01<S: Sc, const N: usize>() {
    let a = mat::<S, N>("a");
    let b = vct::<S, N>("b");
    let mut x = vct::<S, N>("x");
    let mut ls = fresh::<S, N>();
    let mut lu = a;
    if ls.setup(&mut lu).is_ok() {
        let tol = S::var("tol");
        S::check_b("solve after a successful factorisation succeeds", ls.solve(&lu, &mut x, &b, tol).is_ok());
        observe("x", x.iter().copied());
        S::check("A x = b", C::all(residual(&a, &x, &b)));
    }
}
/// as c01 for matrices whose zero pattern is fixed per path (larger N)
fn c01_pattern<S: Sc, const N: usize>(orders: usize) {
    // permuted lower/upper Hessenberg and banded shapes reach every pivot order at larger sizes
    let shape = S::choose("shape", 4);
    let p = S::choose("perm", orders);
    let perm = &perms(3)[(p + 3) % 6];
    let a: SMatrix<S, N, N> = SMatrix::from_fn(|i, j| {
        let i2 = if i < 3 { perm[i] } else { i };
        let nz = match shape {
            0 => i2 <= j,
            1 => i2 >= j,
            2 => (i2 as i64 - j as i64).abs() <= 1,
            _ => i2 == j || i2 == 0 || j == 0,
        };
        if nz {
            S::var(&format!("a{i}{j}"))
        } else {
            S::num(0.0)
        }
    });
    let b = vct::<S, N>("b");
    let mut x = vct::<S, N>("x");
    let mut ls = fresh::<S, N>();
    let mut lu = a;
    if ls.setup(&mut lu).is_ok() {
        S::check_b("solve after a successful factorisation succeeds", ls.solve(&lu, &mut x, &b, S::num(0.0)).is_ok());
        observe("x", x.iter().copied());
        S::check("A x = b", C::all(residual(&a, &x, &b)));
    }
}

/// larger matrices whose elimination is exact in binary: P L U with multipliers 0, +-1/2, +-1,
/// pivots that are powers of two, and the rows in some order; returned with L and the row order
/// (row i of P L U is row order[i] of L U)
pub fn dyadic_f<const N: usize>(variant: usize) -> ([[f64; N]; N], [[f64; N]; N], [usize; N]) {
    let mut r = 12345u64 + 977 * variant as u64 + 31 * N as u64;
    let mut rnd = |m: u64| {
        r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (r >> 33) % m
    };
    let mut l = [[0.0; N]; N];
    let mut u = [[0.0; N]; N];
    for i in 0..N {
        l[i][i] = 1.0;
        for j in 0..i {
            l[i][j] = [0.5, -0.5, 0.25, 0.0, -0.25, 0.75][rnd(6) as usize];
        }
        u[i][i] = [1.0, -2.0, 0.5, 4.0][rnd(4) as usize];
        for j in i + 1..N {
            u[i][j] = [1.0, -1.0, 0.0, 2.0, 0.5, 0.0][rnd(6) as usize];
        }
    }
    let mut order: [usize; N] = std::array::from_fn(|i| i);
    match variant {
        0 => {
            for i in (1..N).rev() {
                order.swap(i, rnd(i as u64 + 1) as usize);
            }
        }
        1 => order.reverse(),
        2 => order.rotate_left(1),
        _ => {}
    }
    let mut a = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            a[i][j] = (0..N).map(|k| l[order[i]][k] * u[k][j]).sum();
        }
    }
    (a, l, order)
}
pub fn dyadic<S: Sc, const N: usize>(variant: usize) -> (SMatrix<S, N, N>, [[f64; N]; N], [usize; N]) {
    let (a, l, o) = dyadic_f::<N>(variant);
    (SMatrix::from_fn(|i, j| S::num(a[i][j])), l, o)
}
/// factor + solve at larger sizes: fixed matrices, every right-hand side
fn c01_big<S: Sc, const N: usize>() {
    let (a, _, _) = dyadic::<S, N>(S::choose("matrix", 4));
    let b = vct::<S, N>("b");
    let mut x = vct::<S, N>("x");
    let mut ls = fresh::<S, N>();
    let mut lu = a;
    S::check_b("a regular matrix factors", ls.setup(&mut lu).is_ok());
    S::check_b("solve after a successful factorisation succeeds", ls.solve(&lu, &mut x, &b, S::var("tol")).is_ok());
    observe("x", x.iter().copied());
    S::check("A x = b", C::all(residual(&a, &x, &b)));
}
/// ... one arbitrary column in a fixed matrix, every right-hand side
fn c01_column<S: Sc, const N: usize>(at: usize) {
    let (mut a, _, _) = dyadic::<S, N>(S::choose("matrix", 3));
    let v = vct::<S, N>("v");
    for k in 0..N {
        a[(k, at)] = v[k];
    }
    let b = vct::<S, N>("b");
    let mut x = vct::<S, N>("x");
    let mut ls = fresh::<S, N>();
    let mut lu = a;
    if ls.setup(&mut lu).is_ok() {
        S::check_b("solve after a successful factorisation succeeds", ls.solve(&lu, &mut x, &b, S::var("tol")).is_ok());
        observe("x", x.iter().copied());
        S::check("A x = b", C::all(residual(&a, &x, &b)));
    }
}
/// larger sizes: column `at` of a fixed regular matrix replaced by any column; the first dependent
/// column is that one exactly when it lies in the span of those before it
/// column `at`: arbitrary, or (`one`) with one arbitrary entry at any place
fn column<S: Sc, const N: usize>(a: &SMatrix<S, N, N>, at: usize, one: bool) -> SVector<S, N> {
    if one {
        let p = S::choose("place", N);
        SVector::from_fn(|i, _| if i == p { S::var("v") } else { a[(i, at)] })
    } else {
        vct::<S, N>("v")
    }
}
fn c02_big<S: Sc, const N: usize>(at: usize, one: bool) {
    let variant = S::choose("matrix", 3);
    let (mut a, l, order) = dyadic::<S, N>(variant);
    let v = column(&a, at, one);
    for i in 0..N {
        a[(i, at)] = v[i];
    }
    // L^-1 applied to the column in factored row order: in the span of the first `at` columns iff zero from `at` on
    let mut z: Vec<S> = vec![S::num(0.0); N];
    for i in 0..N {
        z[order[i]] = v[i];
    }
    for i in 0..N {
        for j in 0..i {
            z[i] = z[i] - S::num(l[i][j]) * z[j];
        }
    }
    let span = C::all(z[at..].iter().map(|q| C::Eq(*q, S::num(0.0))));
    let mut ls = fresh::<S, N>();
    match ls.setup(&mut a) {
        Ok(()) => S::check("a matrix with a dependent column does not factor", span.not()),
        Err(Error::LUFactFail { col }) => {
            S::observe("col", S::num(col as f64));
            S::check_b("independent columns before the first dependent one are not reported", col > at && col <= N);
            if col == at + 1 {
                S::check("the reported column depends on those before it", span);
            } else {
                S::check("the first dependent column is the one reported", span.not());
                // regular without the replaced column: what else can be dependent is the whole matrix
                S::check_b("a later column is reported only when it closes a dependency", col > at + 1);
            }
        }
    }
}
/// the factors at larger sizes: one arbitrary column, the rest fixed
fn c03_big<S: Sc, const N: usize>(at: usize, one: bool) {
    let (mut a, _, _) = dyadic::<S, N>(S::choose("matrix", 3));
    let v = column(&a, at, one);
    for i in 0..N {
        a[(i, at)] = v[i];
    }
    let mut ls = fresh::<S, N>();
    let mut lu = a;
    if ls.setup(&mut lu).is_ok() {
        observe("lu", lu.iter().copied());
        for i in 0..N {
            S::check("pivots are non-zero", C::Eq(lu[(i, i)], S::num(0.0)).not());
            for j in 0..i {
                S::check("multipliers do not exceed 1", C::Le(lu[(i, j)].absv(), S::num(1.0)));
            }
        }
        // the row order, read off by solving with the rows of the identity as they are permuted:
        // L U = P A for some P means every row of L U is a row of A, each used once
        let prod = |i: usize, j: usize| -> S {
            let mut s = S::num(0.0);
            for k in 0..=i.min(j) {
                let l = if k == i { S::num(1.0) } else { lu[(i, k)] };
                s = s + l * lu[(k, j)];
            }
            s
        };
        for i in 0..N {
            // rows of A are told apart by their fixed entries; any row of A will do
            S::check_any("each row of L U is a row of A", (0..N).map(|r| C::all((0..N).map(|j| C::Eq(prod(i, j), a[(r, j)])))).collect());
            S::check_any("each row of A is a row of L U", (0..N).map(|r| C::all((0..N).map(|j| C::Eq(prod(r, j), a[(i, j)])))).collect());
        }
    }
}
/// histories at larger sizes: earlier matrices that leave any of several pivot states, or fail
fn c04_big<S: Sc, const N: usize>() {
    let mut ls = fresh::<S, N>();
    let (mut m, _, _) = dyadic::<S, N>(S::choose("earlier", 4));
    let cut = S::choose("earlier failure", N + 1);
    if cut < N {
        for i in 0..N {
            m[(i, cut)] = S::num(0.0);
        }
    }
    let res = ls.setup(&mut m);
    S::check_b("the earlier matrix fails where it should, if it should", match res {
        Ok(()) => cut == N,
        Err(Error::LUFactFail { col }) => col == cut + 1,
    });
    let (a, _, _) = dyadic::<S, N>(S::choose("matrix", 4));
    let mut lu = a;
    S::check_b("a regular matrix factors after anything", ls.setup(&mut lu).is_ok());
    for k in 0..2 {
        let b: SVector<S, N> = vct::<S, N>(&format!("b{k}"));
        let mut x = vct::<S, N>("x");
        let _ = ls.solve(&lu, &mut x, &b, S::num(0.0));
        observe("x", x.iter().copied());
        S::check("A x = b", C::all(residual(&a, &x, &b)));
    }
}
/// bits at larger sizes: fixed matrices (a zero or a tie here and there), any floats as right-hand side
fn c05_big<S: Sc, const N: usize>() {
    let a: SMatrix<S, N, N> = match S::choose("matrix", 5) {
        k @ 0..=2 => dyadic::<S, N>(k).0,
        // not exact in binary: rounding differs with the order of operations
        3 => SMatrix::from_fn(|i, j| S::num((((i * 7 + j * 11) % 13) as f64 - 6.1) / 3.0 + if i == j { 0.3 } else { 0.0 })),
        // ties between pivots
        _ => SMatrix::from_fn(|i, j| S::num(if (i + j) % 3 == 0 { -1.0 } else { 1.0 } * (1.0 + (i * j % 2) as f64) + if i + j == N - 1 { 0.1 } else { 0.0 })),
    };
    bits(a, vct::<S, N>("b"));
}
/// singular matrices are reported, with the first dependent column (1-based); others are not
fn c02<S: Sc, const N: usize>() {
    let a = mat::<S, N>("a");
    let mut ls = fresh::<S, N>();
    let mut lu = a;
    let minors = |k: usize| -> Vec<S> {
        subsets(N, k)
            .into_iter()
            .map(|rows| det(&rows.iter().map(|&r| (0..k).map(|c| a[(r, c)]).collect()).collect::<Vec<Vec<S>>>()))
            .collect()
    };
    match ls.setup(&mut lu) {
        Ok(()) => {
            let d = minors(N)[0];
            S::observe("det", d);
            S::check("a matrix that factors is non-singular", C::Eq(d, S::num(0.0)).not());
        }
        Err(Error::LUFactFail { col }) => {
            S::observe("col", S::num(col as f64));
            S::check_b("reported column is 1-based and in range", (1..=N).contains(&col));
            if (1..=N).contains(&col) {
                S::check("the columns up to the reported one are dependent", C::all(minors(col).into_iter().map(|m| C::Eq(m, S::num(0.0)))));
                S::check_any("the columns before the reported one are independent", minors(col - 1).into_iter().map(|m| C::Eq(m, S::num(0.0)).not()).collect());
            }
        }
    }
}

/// the factors overwrite A: P A = L U with unit lower triangle, multipliers at most 1
fn c03<S: Sc, const N: usize>(with_lu: bool) {
    let a = mat::<S, N>("a");
    let mut ls = fresh::<S, N>();
    let mut lu = a;
    if ls.setup(&mut lu).is_ok() {
        observe("lu", lu.iter().copied());
        for i in 0..N {
            S::check("pivots are non-zero", C::Eq(lu[(i, i)], S::num(0.0)).not());
            for j in 0..i {
                S::check("multipliers do not exceed 1", C::Le(lu[(i, j)].absv(), S::num(1.0)));
            }
        }
        if with_lu {
            let prod = |i: usize, j: usize| -> S {
                let mut s = S::num(0.0);
                for k in 0..=i.min(j) {
                    let l = if k == i { S::num(1.0) } else { lu[(i, k)] };
                    s = s + l * lu[(k, j)];
                }
                s
            };
            let alts = perms(N)
                .into_iter()
                .map(|p| C::all((0..N).flat_map(|i| (0..N).map(move |j| (i, j))).map(|(i, j)| C::Eq(prod(i, j), a[(p[i], j)]))))
                .collect();
            S::check_any("L U is A with its rows permuted", alts);
        }
    }
}

fn perm_matrix<S: Sc, const N: usize>(p: &[usize]) -> SMatrix<S, N, N> {
    SMatrix::from_fn(|i, j| S::num(if p[i] == j { 1.0 } else { 0.0 }))
}
/// solves leave A and b alone, ignore the incoming x, and can be repeated
fn c04_pure<S: Sc, const N: usize>() {
    let a = mat::<S, N>("a");
    let mut ls = fresh::<S, N>();
    let mut lu = a;
    if ls.setup(&mut lu).is_ok() {
        let (lu0, b, b2) = (lu, vct::<S, N>("b"), vct::<S, N>("c"));
        let (mut x, mut y, mut z) = (vct::<S, N>("x"), vct::<S, N>("y"), vct::<S, N>("z"));
        let _ = ls.solve(&lu, &mut x, &b, S::var("tol"));
        let (b_c, b2_c) = (b, b2);
        let _ = ls.solve(&lu, &mut z, &b2, S::var("tol2"));
        let _ = ls.clone().solve(&lu, &mut y, &b, S::var("tol3"));
        observe("x", x.iter().copied());
        observe("z", z.iter().copied());
        S::check("the factors are unchanged by solves", C::eqs(lu.as_slice(), lu0.as_slice()));
        S::check("the right-hand sides are unchanged", C::eqs(b.as_slice(), b_c.as_slice()).and(C::eqs(b2.as_slice(), b2_c.as_slice())));
        S::check("the initial guess, the tolerance and earlier solves do not matter", C::eqs(x.as_slice(), y.as_slice()));
        S::check("a second right-hand side is solved", C::all(residual(&a, &z, &b2)));
    }
}
/// a solver object carries nothing over from an earlier matrix, whatever became of it
fn c04_history<S: Sc, const N: usize>(rounds: usize) {
    let mut ls = fresh::<S, N>();
    let ps = perms(N);
    for r in 0..rounds {
        // any earlier pivot state: a permutation matrix, possibly with columns zeroed from some point (fails there)
        let p = S::choose("earlier pivots", ps.len());
        let cut = S::choose("earlier failure", N + 1);
        let mut m = perm_matrix::<S, N>(&ps[p]);
        for j in cut..N {
            for i in 0..N {
                m[(i, j)] = S::num(0.0);
            }
        }
        let res = ls.setup(&mut m);
        if cut == N {
            S::check_b("a permutation matrix factors", res.is_ok());
        } else {
            S::check_b("a zero column is reported where it is", matches!(res, Err(Error::LUFactFail { col }) if col == cut + 1));
        }
        if res.is_ok() && S::flag("solve in between") {
            let mut x = vct::<S, N>(&format!("w{r}"));
            let b = vct::<S, N>(&format!("v{r}"));
            let _ = ls.solve(&m, &mut x, &b, S::num(0.0));
        }
    }
    let a = mat::<S, N>("a");
    let b = vct::<S, N>("b");
    let (mut lu, mut lu2) = (a, a);
    let r1 = ls.setup(&mut lu);
    let mut ls2 = fresh::<S, N>();
    let r2 = ls2.setup(&mut lu2);
    let code = |r: &Result<(), Error>| match r {
        Ok(()) => 0,
        Err(Error::LUFactFail { col }) => *col,
    };
    S::check_b("the outcome is the one of a new solver", code(&r1) == code(&r2));
    if r1.is_ok() && r2.is_ok() {
        S::check("the factors are those of a new solver", C::eqs(lu.as_slice(), lu2.as_slice()));
        let (mut x, mut x2) = (vct::<S, N>("x"), vct::<S, N>("y"));
        let _ = ls.solve(&lu, &mut x, &b, S::num(0.0));
        let _ = ls2.solve(&lu2, &mut x2, &b, S::num(0.0));
        observe("x", x.iter().copied());
        S::check("the solution is the one of a new solver", C::eqs(x.as_slice(), x2.as_slice()));
        S::check("A x = b", C::all(residual(&a, &x, &b)));
    }
}
/// strided views: same result, nothing outside them is touched
fn c04_views<S: Sc, const N: usize, const M: usize>() {
    let big: SMatrix<S, M, M> = mat::<S, M>("a");
    let bb: SMatrix<S, M, M> = mat::<S, M>("b");
    let xx: SMatrix<S, M, M> = mat::<S, M>("x");
    let mut big1 = big;
    let mut bb1 = bb;
    let mut xx1 = xx;
    let a: SMatrix<S, N, N> = SMatrix::from_fn(|i, j| big[(i + 1, j + 1)]);
    let mut ls = fresh::<S, N>();
    let mut ls2 = fresh::<S, N>();
    let mut lu2 = a;
    let r2 = ls2.setup(&mut lu2).is_ok();
    let r = {
        let mut v = big1.fixed_view_mut::<N, N>(1, 1);
        ls.setup(&mut v).is_ok()
    };
    S::check_b("a view factors exactly when its contents do", r == r2);
    if r && r2 {
        {
            let v = big1.fixed_view_mut::<N, N>(1, 1);
            let bv = bb1.fixed_view_mut::<N, 1>(0, 1);
            let mut xv = xx1.fixed_view_mut::<N, 1>(1, 0);
            let _ = ls.solve(&v, &mut xv, &bv, S::num(0.0));
        }
        let x: SVector<S, N> = SVector::from_fn(|i, _| xx1[(i + 1, 0)]);
        let b: SVector<S, N> = SVector::from_fn(|i, _| bb[(i, 1)]);
        observe("x", x.iter().copied());
        S::check("A x = b through views", C::all(residual(&a, &x, &b)));
        S::check("the right-hand side is unchanged", C::eqs(bb.as_slice(), bb1.as_slice()));
        for i in 0..M {
            for j in 0..M {
                if !(1..N + 1).contains(&i) || j != 0 {
                    S::check("x: nothing outside the view changes", C::Eq(xx[(i, j)], xx1[(i, j)]));
                }
            }
        }
    }
    for i in 0..M {
        for j in 0..M {
            if i == 0 || j == 0 || i > N || j > N {
                S::check("A: nothing outside the view changes", C::Eq(big[(i, j)], big1[(i, j)]));
            }
        }
    }
}

/// the reference: SUNDIALS denseGETRF / denseGETRS, operation for operation
fn getrf<S: Sc, const N: usize>(a: &mut SMatrix<S, N, N>, p: &mut [usize; N]) -> usize {
    for k in 0..N {
        let mut l = k;
        for i in k + 1..N {
            if a[(i, k)].absv() > a[(l, k)].absv() {
                l = i;
            }
        }
        p[k] = l;
        if a[(l, k)] == S::num(0.0) {
            return k + 1;
        }
        if l != k {
            for i in 0..N {
                let t = a[(l, i)];
                a[(l, i)] = a[(k, i)];
                a[(k, i)] = t;
            }
        }
        let mult = S::num(1.0) / a[(k, k)];
        for i in k + 1..N {
            a[(i, k)] = a[(i, k)] * mult;
        }
        for j in k + 1..N {
            let akj = a[(k, j)];
            if akj != S::num(0.0) {
                for i in k + 1..N {
                    a[(i, j)] = a[(i, j)] - akj * a[(i, k)];
                }
            }
        }
    }
    0
}
fn getrs<S: Sc, const N: usize>(a: &SMatrix<S, N, N>, p: &[usize; N], b: &mut SVector<S, N>) {
    for k in 0..N {
        if p[k] != k {
            let t = b[k];
            b[k] = b[p[k]];
            b[p[k]] = t;
        }
    }
    for k in 0..N - 1 {
        let bk = b[k];
        for i in k + 1..N {
            b[i] = b[i] - a[(i, k)] * bk;
        }
    }
    for k in (1..N).rev() {
        b[k] = b[k] / a[(k, k)];
        let bk = b[k];
        for i in 0..k {
            b[i] = b[i] - a[(i, k)] * bk;
        }
    }
    b[0] = b[0] / a[(0, 0)];
}
fn c05<S: Sc, const N: usize>() {
    bits(mat::<S, N>("a"), vct::<S, N>("b"));
}
fn bits<S: Sc, const N: usize>(a: SMatrix<S, N, N>, b: SVector<S, N>) {
    let mut x = vct::<S, N>("x");
    let (mut lu, mut rf) = (a, a);
    let mut p = [0; N];
    let mut ls = fresh::<S, N>();
    let got = match ls.setup(&mut lu) {
        Ok(()) => 0,
        Err(Error::LUFactFail { col }) => col,
    };
    let want = getrf(&mut rf, &mut p);
    S::check_b("outcome of the factorisation", got == want);
    if got != want {
        return;
    }
    for (u, v) in lu.iter().zip(rf.iter()) {
        S::check("bits of the factors", C::Same(*u, *v));
    }
    if want == 0 {
        let _ = ls.solve(&lu, &mut x, &b, S::num(0.0));
        let mut y = b;
        getrs(&rf, &p, &mut y);
        observe("x", x.iter().copied());
        for (u, v) in x.iter().zip(y.iter()) {
            S::check("bits of the solution", C::Same(*u, *v));
        }
    }
}

/// any floats at all, NaN included: no panic, and a NaN never turns into an all-finite answer
fn c06<S: Sc, const N: usize>(where_nan: usize) {
    let mut a = mat::<S, N>("a");
    let mut b = vct::<S, N>("b");
    let mut x = vct::<S, N>("x");
    if where_nan < N * N {
        a[(where_nan / N, where_nan % N)] = S::num(f64::NAN);
    } else {
        b[where_nan - N * N] = S::num(f64::NAN);
    }
    let mut ls = fresh::<S, N>();
    match ls.setup(&mut a) {
        Ok(()) => {
            S::check_b("solve after a successful factorisation succeeds", ls.solve(&a, &mut x, &b, S::num(0.0)).is_ok());
            observe("x", x.iter().copied());
            S::check("a NaN shows in the answer", C::any(x.iter().map(|v| C::Nan(*v))));
        }
        Err(Error::LUFactFail { col }) => {
            S::check_b("reported column is 1-based and in range", (1..=N).contains(&col));
        }
    }
}
fn c06_any<S: Sc, const N: usize>() {
    let mut a = mat::<S, N>("a");
    let b = vct::<S, N>("b");
    let mut x = vct::<S, N>("x");
    let mut ls = fresh::<S, N>();
    match ls.setup(&mut a) {
        Ok(()) => {
            S::check_b("solve after a successful factorisation succeeds", ls.solve(&a, &mut x, &b, S::num(0.0)).is_ok());
            observe("x", x.iter().copied());
        }
        Err(Error::LUFactFail { col }) => {
            S::check_b("reported column is 1-based and in range", (1..=N).contains(&col));
        }
    }
}

const F: &[&str] = &[
    "linear::dense::Dense::new",
    "linear::dense::Dense::setup",
    "linear::dense::Dense::solve",
    "linear::dense::dense_get_rf",
    "linear::dense::dense_get_rs",
];
const EX: &[&str] = &["exact real arithmetic: rounding is outside this claim"];
pub fn register(v: &mut Vec<Harness>) {
    let mut r = |h: Harness| v.push(h.funs(F));
    r(h!("C01", "solve-n1", Real, c01; 1;).bound("every 1x1 system").assuming(EX));
    r(h!("C01", "solve-n2", Real, c01; 2;).bound("every 2x2 system").assuming(EX));
    r(h!("C01", "solve-n3", Real, c01; 3;).bound("every 3x3 system").assuming(EX));
    r(h!("C01", "solve-n4", Real, c01; 4;).bound("every 4x4 system").assuming(EX).thorough());
    r(h!("C01", "solve-pattern-n4", Real, c01_pattern; 4; 1).bound("4x4: row-permuted triangular, tridiagonal and arrow shapes, all values").assuming(EX));
    r(h!("C01", "solve-patterns-n4", Real, c01_pattern; 4; 6).bound("4x4: six row orders of triangular, tridiagonal and arrow shapes, all values").assuming(EX).thorough());
    r(h!("C01", "solve-pattern-n5", Real, c01_pattern; 5; 6).bound("5x5: row-permuted triangular, tridiagonal and arrow shapes, all values").assuming(EX).thorough());
    macro_rules! big {
        ($($N:literal),*) => { $(
            let n: usize = $N;
            r(h!("C01", format!("solve-fixed-n{n}"), Real, c01_big; $N;).bound(format!("{n}x{n}: four fixed matrices with row exchanges, every right-hand side")).assuming(EX));
            let c4 = h!("C04", format!("history-fixed-n{n}"), Real, c04_big; $N;).bound(format!("{n}x{n}: four fixed matrices with row exchanges after one of four that factor or fail at any column, two arbitrary right-hand sides")).assuming(EX);
            r(if n <= 8 { c4 } else { c4.thorough() });
            r(h!("C05", format!("bits-fixed-n{n}"), Fp, c05_big; $N;).bound(format!("{n}x{n}: five fixed matrices, every right-hand side of floats")).ms(20000, 300));
        )* };
    }
    big!(4, 5, 6, 7, 8, 9, 12, 16, 17);
    macro_rules! line {
        ($($N:literal),*) => { $(
            let n: usize = $N;
            for back in 1..=3 {
                let at = n - back;
                let mut put = |x: Harness, quick: bool| {
                    let x = x.bound(format!("{n}x{n}: column {at} arbitrary in three fixed matrices")).assuming(EX);
                    r(if quick { x } else { x.thorough() })
                };
                if back == 1 {
                    put(h!("C01", format!("solve-column{at}-n{n}"), Real, c01_column; $N; at), n <= 6);
                }
                if back <= 2 || n < 8 {
                    put(h!("C02", format!("singular-column{at}-n{n}"), Real, c02_big; $N; at, false), back == 1 || back == 2 && n < 8);
                }
                if back == 1 || back == 2 && n < 8 {
                    put(h!("C03", format!("factors-column{at}-n{n}"), Real, c03_big; $N; at, false), back == 1 && n < 8 || n == 4);
                }
            }
        )* };
    }
    line!(4, 5, 6, 8);
    macro_rules! one {
        ($($N:literal),*) => { $(
            let n: usize = $N;
            r(h!("C02", format!("singular-entry-n{n}"), Real, c02_big; $N; n - 1, true).bound(format!("{n}x{n}: three fixed matrices, one arbitrary entry at any place of the last column")).assuming(EX));
            r(h!("C03", format!("factors-entry-n{n}"), Real, c03_big; $N; n - 1, true).bound(format!("{n}x{n}: three fixed matrices, one arbitrary entry at any place of the last column")).assuming(EX));
        )* };
    }
    one!(7, 9, 12, 17);
    r(h!("C02", "singular-n1", Real, c02; 1;).bound("every 1x1 matrix").assuming(EX));
    r(h!("C02", "singular-n2", Real, c02; 2;).bound("every 2x2 matrix").assuming(EX));
    r(h!("C02", "singular-n3", Real, c02; 3;).bound("every 3x3 matrix").assuming(EX));
    r(h!("C03", "factors-n1", Real, c03; 1; true).bound("every 1x1 matrix").assuming(EX));
    r(h!("C03", "factors-n2", Real, c03; 2; true).bound("every 2x2 matrix").assuming(EX));
    r(h!("C03", "factors-n3", Real, c03; 3; true).bound("every 3x3 matrix").assuming(EX));
    r(h!("C03", "factors-n4", Real, c03; 4; true).bound("every 4x4 matrix").assuming(EX).thorough());
    r(h!("C04", "pure-n2", Real, c04_pure; 2;).bound("every 2x2 system, three solves").assuming(EX));
    r(h!("C04", "pure-n3", Real, c04_pure; 3;).bound("every 3x3 system, three solves").assuming(EX));
    r(h!("C04", "history-n2", Real, c04_history; 2; 2).bound("2x2, two earlier factorisations with any pivot state or failure").assuming(EX));
    r(h!("C04", "history-n3", Real, c04_history; 3; 1).bound("3x3, one earlier factorisation with any pivot state or failure").assuming(EX));
    r(h!("C04", "views-n2", Real, c04_views; 2, 4;).bound("2x2 views inside 4x4 storage").assuming(EX));
    r(h!("C05", "bits-n1", Fp, c05; 1;).bound("every 1x1 system of floats").ms(20000, 300));
    r(h!("C05", "bits-n2", Fp, c05; 2;).bound("every 2x2 system of floats").ms(20000, 300));
    r(h!("C05", "bits-n3", Fp, c05; 3;).bound("every 3x3 system of floats").ms(20000, 20));
    r(h!("C05", "bits-n4", Fp, c05; 4;).bound("every 4x4 system of floats").ms(20000, 20).thorough());
    for k in 0..2 {
        r(h!("C06", format!("nan-n1-{k}"), Fp, c06; 1; k).bound("1x1, NaN at one place, any floats elsewhere").ms(20000, 300));
    }
    for k in 0..6 {
        r(h!("C06", format!("nan-n2-{k}"), Fp, c06; 2; k).bound("2x2, NaN at one place, any floats elsewhere").ms(20000, 300));
    }
    for k in 0..12 {
        r(h!("C06", format!("nan-n3-{k}"), Fp, c06; 3; k).bound("3x3, NaN at one place, any floats elsewhere").ms(20000, 20));
    }
    r(h!("C06", "total-n2", Fp, c06_any; 2;).bound("every 2x2 system of floats").ms(20000, 300));
    r(h!("C06", "total-n3", Fp, c06_any; 3;).bound("every 3x3 system of floats").ms(20000, 20));
}
