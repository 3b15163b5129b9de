//! C24 conjugate gradient, C25 power iterations, C28 array arithmetic.
use crate::lin::*;
use crate::mon::*;
use crate::rng::Rng;
use ellalgo_rs::arr::{self, Arr};
use ellalgo_rs::conjugate_gradient::conjugate_gradient;
use ellalgo_rs::power_iteration::*;

fn mat(v: &[f64], n: usize) -> Arr {
    Arr::from_shape_vec(n, n, v.to_vec())
}

// ---------------------------------------------------------------- C24
/// Reference run, to know how large the iterates get (that is what limits the attainable accuracy).
fn cg_sim(a: &[f64], n: usize, b: &[f64], x0: &[f64], iters: usize) -> f64 {
    let mut x = x0.to_vec();
    let mut r = sub(b, &mv(a, n, &x));
    let mut d = r.clone();
    let mut rr = dot(&r, &r);
    let mut big = norm(&x);
    for _ in 0..iters {
        let ad = mv(a, n, &d);
        let den = dot(&d, &ad);
        if den == 0.0 || rr == 0.0 {
            break;
        }
        let s = rr / den;
        x = axpy(&x, s, &d);
        r = axpy(&r, -s, &ad);
        let m = norm(&x);
        if !m.is_finite() {
            return f64::INFINITY;
        }
        big = big.max(m);
        let rn = dot(&r, &r);
        let be = rn / rr;
        d = r.iter().zip(&d).map(|(p, q)| p + be * q).collect();
        rr = rn;
    }
    big
}

/// Badly conditioned definite systems: the real solver needs many more than n iterations, and is given twenty
/// times what the reference run needed.
fn cg_long(c: &mut Case) {
    let r = &mut c.rng;
    let n = r.int(6, 60);
    let cond = r.logu(3.0, 9.0);
    let d: Vec<f64> = (0..n).map(|i| cond.powf(-(i as f64 + 0.3 * r.f()) / n as f64)).collect();
    let q = rand_orth(r, n);
    let a = from_eig(&q, &d, n);
    let xs = r.normals(n);
    let b = mv(&a, n, &xs);
    let tol = r.logu(-10.0, -6.0);
    let mut x = vec![0.0; n];
    let mut res = b.clone();
    let mut dir = res.clone();
    let mut rr = dot(&res, &res);
    let mut k = 0;
    while rr.sqrt() >= tol * 0.25 {
        if k > 20_000 {
            c.ev("long systems the reference could not solve");
            return;
        }
        let ad = mv(&a, n, &dir);
        let s = rr / dot(&dir, &ad);
        x = axpy(&x, s, &dir);
        res = axpy(&res, -s, &ad);
        let rn = dot(&res, &res);
        dir = res.iter().zip(&dir).map(|(p, q)| p + rn / rr * q).collect();
        rr = rn;
        k += 1;
    }
    let max_iter = 20 * k + 500;
    let out = conjugate_gradient(&mat(&a, n), &Arr::from(b.clone()), None, tol, max_iter);
    c.eval(hvec(hvec(hkey(&[tol, max_iter as f64]), &a), &b));
    c.ev("long systems solved");
    c.evn("iterations the reference needed on long systems", k as u64);
    if k > 4 * n {
        c.ev("systems needing more than 4n iterations");
    }
    let err = out.as_ref().map(|x| norm(&sub(&b, &mv(&a, n, x.data())))).unwrap_or(f64::INFINITY);
    c.check(err <= tol + 1e-11, || format!("definite system of size {n}, condition {cond:e}, tol {tol:e}, max_iter {max_iter}: {out:?} with residual {err:e}; plain conjugate gradients need {k} iterations. A={a:?} b={b:?}"));
}

pub fn c24(c: &mut Case) {
    let r = &mut c.rng;
    let n = if r.chance(0.02) { r.int(25, 120) } else { r.int(1, 24) };
    let scale = if r.chance(0.1) { r.logu(-25.0, 25.0) } else { r.logu(-8.0, 8.0) };
    let kind = r.int(0, 8);
    let spd = kind < 4 || kind >= 7;
    let a: Vec<f64> = match kind {
        0..=3 => {
            let q = rand_orth(r, n);
            let cond = r.logu(0.0, if kind == 3 { 3.0 } else { 1.5 });
            let mut d: Vec<f64> = (0..n).map(|_| scale * cond.powf(r.f())).collect();
            if kind == 1 {
                d = vec![scale; n];
            }
            if kind == 2 {
                // two clusters
                d = (0..n).map(|i| if i % 2 == 0 { scale } else { scale * cond }).collect();
            }
            if kind == 2 && r.chance(0.5) {
                let mut m = vec![0.0; n * n];
                for i in 0..n {
                    m[i * n + i] = d[i];
                }
                m
            } else {
                from_eig(&q, &d, n)
            }
        }
        4 => {
            let q = rand_orth(r, n);
            let d: Vec<f64> = (0..n).map(|_| scale * r.sym()).collect();
            from_eig(&q, &d, n)
        }
        5 => r.normals(n * n).iter().map(|t| t * scale).collect(),
        7 | 8 => {
            // small whole numbers, diagonally dominant: exact arithmetic, exact coincidences
            let mut m = vec![0.0; n * n];
            let dens = *r.pick(&[0.0, 0.0, 1.0, 3.0]) / n as f64;
            for i in 0..n {
                for j in 0..i {
                    if r.chance(dens) {
                        let v = r.int(0, 4) as f64 - 2.0;
                        m[i * n + j] = v;
                        m[j * n + i] = v;
                    }
                }
            }
            let add = r.int(1, 3) as f64;
            for i in 0..n {
                m[i * n + i] = add + (0..n).filter(|j| *j != i).map(|j| m[i * n + j].abs()).sum::<f64>();
            }
            if kind == 8 {
                let p = *r.pick(&[0.25, 0.5, 2.0, 1024.0]);
                m.iter_mut().for_each(|t| *t *= p);
            }
            m
        }
        _ => {
            let mut m: Vec<f64> = (0..n * n).map(|_| r.int(0, 4) as f64 - 2.0).collect();
            for i in 0..n {
                for j in 0..i {
                    m[i * n + j] = m[j * n + i];
                }
            }
            m
        }
    };
    let xs: Vec<f64> = match r.int(0, 4) {
        0 => vec![0.0; n],
        1 => (0..n).map(|_| r.int(0, 6) as f64 - 3.0).collect(),
        2 => {
            let mut e = vec![0.0; n];
            let k = r.int(0, n - 1);
            e[k] = if r.chance(0.5) { 1.0 } else { r.logu(-3.0, 3.0) };
            e
        }
        _ => r.normals(n),
    };
    let unit = if r.chance(0.15) { r.logu(-12.0, 12.0) } else { 1.0 };
    let xs: Vec<f64> = xs.iter().map(|t| t * unit).collect();
    let b = if r.chance(0.1) { vec![0.0; n] } else { mv(&a, n, &xs) };
    let x0: Option<Vec<f64>> = match r.int(0, 4) {
        0 => Some(xs.clone()),
        1 => Some(r.normals(n).iter().map(|t| t * unit).collect()),
        2 => Some(r.normals(n).iter().map(|t| t * unit * 1e3).collect()),
        3 => Some(axpy(&xs, unit * 1e-6, &r.normals(n))),
        _ => None,
    };
    let start = x0.clone().unwrap_or(vec![0.0; n]);
    let an = a.iter().map(|t| t * t).sum::<f64>().sqrt();
    let size = norm(&b) + an * (norm(&xs) + norm(&start));
    let tol = if spd {
        (size.max(1e-300)) * r.logu(-9.0, -3.0)
    } else {
        size.max(1e-300) * r.logu(-6.0, 0.5)
    };
    let enough = 12 * n + 40;
    let max_iter = if spd && r.chance(0.7) { enough } else { *r.pick(&[0, 1, 2, n / 2, n, n + 5, enough]) };
    let (am, ab, ax) = (mat(&a, n), Arr::from(b.clone()), x0.clone().map(Arr::from));
    let res = conjugate_gradient(&am, &ab, ax.as_ref(), tol, max_iter);
    c.eval(hvec(hvec(hkey(&[tol, max_iter as f64]), &a), &b));
    let ctx = || format!("n={n} kind={kind} A={a:?} b={b:?} x0={x0:?} tol={tol:e} max_iter={max_iter}");
    let same = am.data() == &a[..] && ab.data() == &b[..] && ax.as_ref().map_or(true, |t| t.data() == &x0.as_ref().unwrap()[..]);
    if !c.check(same && am.rows() == n && am.cols() == n, || format!("inputs modified: {}", ctx())) {
        return;
    }
    match &res {
        Ok(x) => {
            let true_res = norm(&sub(&b, &mv(&a, n, x.data())));
            let big = cg_sim(&a, n, &b, &start, max_iter.min(400)).max(norm(x.data()));
            let slack = 1e-12 * (max_iter as f64 + 10.0) * (an * big + norm(&b));
            c.ev(if spd { "solved (definite)" } else { "solved (other)" });
            if !(slack < 0.2 * tol) && !spd {
                c.ev("solutions not judged (rounding dominates)");
            } else if !c.check(x.len() == n && true_res <= tol + slack, || format!("Ok but the residual is {true_res:e} (rounding allowance {slack:e}): {}", ctx())) {
                return;
            }
            if !c.check(x.iter().all(|t| t.is_finite()), || format!("Ok with a non-finite solution {:?}: {}", x.data(), ctx())) {
                return;
            }
            c.ev("residuals recomputed");
        }
        Err(_) => {
            c.ev(if spd { "error (definite)" } else { "error (other)" });
        }
    }
    let r0 = norm(&sub(&b, &mv(&a, n, &start)));
    if r0 < 0.5 * tol {
        c.ev("start already solves");
        if b.iter().all(|t| *t == 0.0) {
            c.ev("zero right-hand side");
        }
        if !c.check(res.is_ok(), || format!("refused although the start has residual {r0:e}: {}", ctx())) {
            return;
        }
    }
    if spd && max_iter >= enough {
        c.ev("success required");
        c.check(res.is_ok(), || format!("definite system not solved in {max_iter} iterations ({:?}): {}", res.as_ref().err(), ctx()));
    }
    if c.rng.chance(0.005) {
        cg_long(c);
    }
    c.sample(|| format!("n={n} kind={kind} scale {scale:.1e} tol {tol:.1e} max_iter {max_iter}: {}", if res.is_ok() { "Ok" } else { "Err" }));
}

// ---------------------------------------------------------------- C25
type PI = fn(&Arr, &mut Arr, &Options) -> (f64, usize);

pub fn c25(c: &mut Case) {
    let r = &mut c.rng;
    let slow = r.chance(0.004);
    let n = if r.chance(0.03) { r.int(13, 48) } else { r.int(1, 12) };
    let scale = if r.chance(0.1) { r.logu(-45.0, 45.0) } else { r.logu(-25.0, 25.0) };
    let symmetric = slow || r.chance(0.75);
    // a small gap takes thousands of iterations
    let ratio = if slow { r.uni(0.985, 0.998) } else { r.uni(0.0, 0.9) };
    let q = rand_orth(r, n);
    let sgn = if r.chance(0.5) { 1.0 } else { -1.0 };
    let mut dom = 0.0;
    let a: Vec<f64> = if symmetric {
        let d: Vec<f64> = (0..n)
            .map(|i| {
                if i == 0 {
                    sgn * scale
                } else if i == 1 {
                    scale * ratio * if r.chance(0.5) { 1.0 } else { -1.0 }
                } else {
                    scale * ratio * r.sym()
                }
            })
            .collect();
        dom = d[0];
        from_eig(&q, &d, n)
    } else {
        r.normals(n * n).iter().map(|t| t * scale).collect()
    };
    // eigenvector of d[0] is column 0 of q in the convention of from_eig; find it by testing
    let v0: Vec<f64> = {
        let col: Vec<f64> = (0..n).map(|i| q[i * n]).collect();
        let row: Vec<f64> = (0..n).map(|j| q[j]).collect();
        if symmetric && norm(&sub(&mv(&a, n, &col), &col.iter().map(|t| t * dom).collect::<Vec<_>>())) <= 1e-9 * scale {
            col
        } else {
            row
        }
    };
    let xs = r.logu(-70.0, 70.0);
    let mut u = r.unit(n);
    if symmetric {
        let comp = dot(&u, &v0);
        if comp.abs() < 0.1 {
            u = axpy(&u, 0.3, &v0);
        }
        if r.chance(0.2) {
            u = v0.clone();
        }
    }
    let start: Vec<f64> = u.iter().map(|t| t * xs).collect();
    let comp = dot(&u, &v0).abs() / norm(&u);
    let max_iters = if slow { 40_000 } else { *r.pick(&[0usize, 1, 2, 5, 50, 1500, 1500, 1500]) };
    let tolv = if slow { 1e-11 } else { r.logu(-11.0, -8.0) };
    let fs: [(&str, PI, bool); 4] = [
        ("power_iteration", power_iteration, false),
        ("power_iteration2", power_iteration2, true),
        ("power_iteration3", power_iteration3, true),
        ("power_iteration4", power_iteration4, false),
    ];
    for (name, f, absolute) in fs {
        let am = mat(&a, n);
        let mut x = Arr::from(start.clone());
        let opts = Options { max_iters, tolerance: if absolute { tolv * 1e-1 * scale } else { tolv } };
        let (lam, it) = f(&am, &mut x, &opts);
        c.eval(hvec(hvec(hkey(&[max_iters as f64, tolv]), &a), &start));
        let ctx = || format!("{name} n={n} A={a:?} start={start:?} max_iters={max_iters} tolerance={:e} -> {lam:e} after {it}, x={:?}", opts.tolerance, x.data());
        if !c.check(am.data() == &a[..], || format!("matrix modified: {}", ctx())) {
            return;
        }
        let av = mv(&a, n, x.data());
        let rq = dot(x.data(), &av);
        let fro = a.iter().map(|t| (t / scale) * (t / scale)).sum::<f64>().sqrt() * scale;
        let ok = x.len() == n && !x.is_2d() && close(norm(x.data()), 1.0, 1e-9) && close(lam, rq, 1e-9 * fro) && it <= max_iters;
        if !c.check(ok, || format!("norm {} Rayleigh quotient {rq:e}: {}", norm(x.data()), ctx())) {
            return;
        }
        c.ev(if it < max_iters { "ended by tolerance" } else { "ended by max_iters" });
        if it > 1500 {
            c.ev("runs of more than 1500 iterations");
        }
        if max_iters == 0 {
            c.ev("no iterations allowed");
        }
        if symmetric && comp >= 0.09 && max_iters >= 1500 {
            // ratio <= 0.9: the angle shrinks below 1e-11 within 300 iterations
            if !c.check(it < max_iters || n > 12, || format!("did not converge: {}", ctx())) {
                return;
            }
        }
        if symmetric && comp >= 0.09 && it < max_iters {
            let res = norm(&axpy(&av, -lam, x.data()));
            c.ev("converged pairs verified");
            if !c.check(res <= 1e-4 * scale && close(lam, dom, 1e-6 * scale), || format!("not the dominant pair ({dom:e}, residual {res:e}): {}", ctx())) {
                return;
            }
        }
    }
    c.sample(|| format!("n={n} scale {scale:.1e} start {xs:.1e} symmetric {symmetric} max_iters {max_iters}"));
}
fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}

// ---------------------------------------------------------------- C28
fn vals(r: &mut Rng, n: usize) -> Vec<f64> {
    let k = r.int(0, 3);
    (0..n)
        .map(|_| match k {
            0 => r.int(0, 10) as f64 - 5.0,
            1 => r.normal(),
            2 => r.logu(-40.0, 40.0) * if r.chance(0.5) { 1.0 } else { -1.0 },
            _ => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 1e300, 1e-300, f64::MIN_POSITIVE, 3.0]),
        })
        .collect()
}
fn tame(r: &mut Rng, n: usize) -> Vec<f64> {
    let k = r.int(0, 2);
    (0..n)
        .map(|_| match k {
            0 => r.int(0, 10) as f64 - 5.0,
            1 => r.normal(),
            _ => r.logu(-40.0, 40.0) * if r.chance(0.5) { 1.0 } else { -1.0 },
        })
        .collect()
}
fn shape(r: &mut Rng) -> (usize, usize) {
    if r.chance(0.5) {
        (if r.chance(0.04) { r.int(13, 300) } else { r.int(1, 12) }, 0)
    } else if r.chance(0.003) {
        let (a, b) = (r.int(1, 4), r.int(41, 300));
        *r.pick(&[(a, b), (b, a)])
    } else if r.chance(0.04) {
        (r.int(1, 40), r.int(1, 40))
    } else {
        (r.int(1, 7), r.int(1, 7))
    }
}
fn mk(v: &[f64], s: (usize, usize)) -> Arr {
    if s.1 == 0 {
        Arr::from(v.to_vec())
    } else {
        Arr::from_shape_vec(s.0, s.1, v.to_vec())
    }
}
fn len(s: (usize, usize)) -> usize {
    if s.1 == 0 {
        s.0
    } else {
        s.0 * s.1
    }
}
fn eqf(a: f64, b: f64, ulps: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= ulps * f64::EPSILON * b.abs()
}
fn is(a: &Arr, s: (usize, usize), v: &[f64], ulps: f64) -> bool {
    a.rows() == s.0
        && a.cols() == s.1
        && a.is_2d() == (s.1 > 0)
        && a.len() == v.len()
        && a.size() == v.len()
        && a.is_empty() == v.is_empty()
        && a.data().iter().zip(v).all(|(x, y)| eqf(*x, *y, ulps))
        && a.iter().zip(v).all(|(x, y)| eqf(*x, *y, ulps))
}

pub fn c28(c: &mut Case) {
    let s = shape(&mut c.rng);
    let n = len(s);
    let av = vals(&mut c.rng, n);
    let bv = vals(&mut c.rng, n);
    let a = mk(&av, s);
    let b = mk(&bv, s);
    let k = match c.rng.int(0, 3) {
        0 => c.rng.int(1, 9) as f64 - 5.0,
        1 => c.rng.normal(),
        2 => c.rng.logu(-30.0, 30.0),
        _ => *c.rng.pick(&[0.0, -0.0, 1.0, -1.0, 2.0]),
    };
    c.eval(hvec(hvec(hkey(&[k, s.0 as f64, s.1 as f64]), &av), &bv));
    macro_rules! want {
        ($name:expr, $got:expr, $shape:expr, $exp:expr, $ulps:expr) => {{
            let got: Arr = $got;
            let exp: Vec<f64> = $exp;
            c.ev("results compared");
            if !c.check(is(&got, $shape, &exp, $ulps), || {
                format!("{}: got {got:?}, expected shape {:?} data {exp:?} from a={a:?} b={b:?} k={k}", $name, $shape)
            }) {
                return;
            }
        }};
    }
    let z = |f: &dyn Fn(f64, f64) -> f64| -> Vec<f64> { av.iter().zip(&bv).map(|(x, y)| f(*x, *y)).collect() };
    let e = |f: &dyn Fn(f64) -> f64| -> Vec<f64> { av.iter().map(|x| f(*x)).collect() };
    // construction and access
    want!("clone", a.clone(), s, av.clone(), 0.0);
    if s.1 == 0 {
        want!("new", Arr::new(n), s, vec![0.0; n], 0.0);
        want!("ones", Arr::ones(n), s, vec![1.0; n], 0.0);
        want!("from slice", <Arr as From<&[f64]>>::from(&av[..]), s, av.clone(), 0.0);
        want!("from vec", <Arr as From<Vec<f64>>>::from(av.clone()), s, av.clone(), 0.0);
        want!("from_fn", Arr::from_fn(n, |i| av[i]), s, av.clone(), 0.0);
        let mut d = vec![0.0; n * n];
        let mut id = vec![0.0; n * n];
        for i in 0..n {
            d[i * n + i] = av[i];
            id[i * n + i] = 1.0;
        }
        want!("from_diag", Arr::from_diag(&a), (n, n), d, 0.0);
        want!("eye", Arr::eye(n), (n, n), id, 0.0);
        let m = if c.rng.chance(0.004) { c.rng.int(10, 300) } else { c.rng.int(1, 9) };
        let w = vals(&mut c.rng, m);
        let wv = Arr::from(w.clone());
        let mut o = vec![];
        for x in &av {
            for y in &w {
                o.push(x * y);
            }
        }
        want!("outer", a.outer(&wv), (n, m), o, 1.0);
        if m != n {
            c.ev("mismatches");
            if !c.check(panics(|| a.dot(&wv)), || format!("dot of lengths {n} and {m} accepted")) {
                return;
            }
        }
        let exact: f64 = z(&|x, y| x * y).iter().sum();
        let mag: f64 = z(&|x, y| (x * y).abs()).iter().sum();
        let got = a.dot(&b);
        if mag.is_finite() && !c.check((got - exact).abs() <= 2.0 * n as f64 * f64::EPSILON * mag, || format!("dot of {a:?} and {b:?} is {got}, expected {exact}")) {
            return;
        }
        let bad = panics(|| a.dot_mv(&b)) && panics(|| a.row(0)) && panics(|| a.clone().rank_one_update(1.0, &b));
        c.ev("mismatches");
        if !c.check(bad, || format!("a vector was accepted where a matrix is needed: {a:?}")) {
            return;
        }
    } else {
        let (rr, cc) = s;
        want!("zeros", Arr::zeros(rr, cc), s, vec![0.0; n], 0.0);
        want!("full", Arr::full(rr, cc, k), s, vec![k; n], 0.0);
        want!("with_data", Arr::with_data(av.clone(), rr, cc), s, av.clone(), 0.0);
        let (i, j) = (c.rng.int(0, rr - 1), c.rng.int(0, cc - 1));
        let t = av[i * cc + j];
        let mut m = a.clone();
        let acc = eqf(a.get(i, j), t, 0.0) && eqf(a.at(i, j), t, 0.0) && eqf(a[(i, j)], t, 0.0) && eqf(a[i * cc + j], t, 0.0);
        if !c.check(acc, || format!("access ({i},{j}) of {a:?} is not {t}")) {
            return;
        }
        let mut ex = av.clone();
        ex[i * cc + j] = k;
        match c.rng.int(0, 4) {
            0 => m.set(i, j, k),
            1 => *m.at_mut(i, j) = k,
            2 => m[(i, j)] = k,
            3 => m.data_mut()[i * cc + j] = k,
            _ => *m.iter_mut().nth(i * cc + j).unwrap() = k,
        }
        want!("element write", m, s, ex, 0.0);
        want!("row", a.row(i), (cc, 0), av[i * cc..(i + 1) * cc].to_vec(), 0.0);
        // matrix-vector product
        let xv = vals(&mut c.rng, cc);
        let x = Arr::from(xv.clone());
        let y = a.dot_mv(&x);
        let mut ok = y.rows() == rr && y.cols() == 0;
        for i in 0..rr {
            let e: f64 = (0..cc).map(|j| av[i * cc + j] * xv[j]).sum();
            let mag: f64 = (0..cc).map(|j| (av[i * cc + j] * xv[j]).abs()).sum();
            ok &= !mag.is_finite() || (y[i] - e).abs() <= 2.0 * cc as f64 * f64::EPSILON * mag;
        }
        c.ev("results compared");
        if !c.check(ok && x.data() == &xv[..] && is(&a, s, &av, 0.0), || format!("dot_mv of {a:?} and {x:?} is {y:?}")) {
            return;
        }
        let w = Arr::new(cc + c.rng.int(1, 3));
        let bad = panics(|| a.dot_mv(&w))
            && (cc == 1 || panics(|| a.dot_mv(&Arr::new(cc - 1))))
            && panics(|| a.dot_mv(&Arr::zeros(cc, 1)))
            && panics(|| a.row(rr))
            && panics(|| a.dot(&b))
            && panics(|| a.outer(&x))
            && panics(|| x.outer(&a))
            && panics(|| Arr::from_diag(&a))
            && panics(|| Arr::from_shape_vec(rr, cc + 1, av.clone()))
            && panics(|| Arr::with_data(av.clone(), rr + 1, cc))
            && (rr == cc || panics(|| a.clone().rank_one_update(1.0, &Arr::new(rr))))
            && panics(|| Arr::zeros(rr, rr).rank_one_update(1.0, &Arr::new(rr + 1)))
            && panics(|| Arr::zeros(rr, rr).rank_one_update(1.0, &Arr::zeros(rr, 1)));
        c.ev("mismatches");
        if !c.check(bad, || format!("an ill-shaped operand was accepted with {a:?}")) {
            return;
        }
        // symmetric rank-one update
        let m = rr;
        let u = tame(&mut c.rng, m);
        let mut sy = tame(&mut c.rng, m * m);
        for i in 0..m {
            for j in 0..i {
                sy[i * m + j] = sy[j * m + i];
            }
        }
        let mut p = Arr::from_shape_vec(m, m, sy.clone());
        let uv = Arr::from(u.clone());
        p.rank_one_update(k, &uv);
        let mut ok = p.rows() == m && p.cols() == m && uv.data() == &u[..];
        for i in 0..m {
            for j in 0..m {
                let t = k * u[i] * u[j];
                let mag = sy[i * m + j].abs() + (k * u[i] * u[j]).abs();
                ok &= !mag.is_finite() || (p[(i, j)] - (sy[i * m + j] + t)).abs() <= 4.0 * f64::EPSILON * mag + 1e-290;
                ok &= p[(i, j)].to_bits() == p[(j, i)].to_bits() || p[(i, j)].is_nan();
            }
        }
        c.ev("results compared");
        if !c.check(ok, || format!("rank_one_update of {sy:?} by {k} {u:?} is {p:?}")) {
            return;
        }
    }
    // arithmetic, every form
    let add = z(&|x, y| x + y);
    let subt = z(&|x, y| x - y);
    let mul = z(&|x, y| x * y);
    want!("&a + &b", &a + &b, s, add.clone(), 0.0);
    want!("a + &b", a.clone() + &b, s, add.clone(), 0.0);
    want!("a += &b", { let mut t = a.clone(); t += &b; t }, s, add, 0.0);
    want!("&a - &b", &a - &b, s, subt.clone(), 0.0);
    want!("a - &b", a.clone() - &b, s, subt.clone(), 0.0);
    want!("a -= &b", { let mut t = a.clone(); t -= &b; t }, s, subt, 0.0);
    want!("&a * &b", &a * &b, s, mul.clone(), 0.0);
    want!("a * &b", a.clone() * &b, s, mul, 0.0);
    want!("a += k", { let mut t = a.clone(); t += k; t }, s, e(&|x| x + k), 0.0);
    want!("a -= k", { let mut t = a.clone(); t -= k; t }, s, e(&|x| x - k), 0.0);
    let mk_ = e(&|x| x * k);
    want!("a *= k", { let mut t = a.clone(); t *= k; t }, s, mk_.clone(), 0.0);
    want!("&a * k", &a * k, s, mk_.clone(), 0.0);
    want!("a * k", a.clone() * k, s, mk_.clone(), 0.0);
    want!("k * &a", k * &a, s, mk_.clone(), 0.0);
    want!("k * a", k * a.clone(), s, mk_, 0.0);
    let ng = e(&|x| -x);
    want!("-&a", -&a, s, ng.clone(), 0.0);
    want!("-a", -a.clone(), s, ng, 0.0);
    {
        // (a zero divisor gives infinities and NaN as the mathematical limit says)
        let q = e(&|x| x / k);
        let near = |t: &Arr| t.rows() == s.0 && t.cols() == s.1 && t.iter().zip(&q).all(|(x, y)| eqf(*x, *y, 4.0) || k != 0.0 && (y.abs() > 1e290 || (x - y).abs() < 1e-290));
        let (d1, d2, d3) = (&a / k, a.clone() / k, {
            let mut t = a.clone();
            t /= k;
            t
        });
        c.ev("results compared");
        if !c.check(near(&d1) && near(&d2) && near(&d3), || format!("{a:?} / {k}: {d1:?} {d2:?} {d3:?}")) {
            return;
        }
        if !c.check(d1.data().iter().zip(d2.data()).zip(d3.data()).all(|((x, y), t)| x.to_bits() == y.to_bits() && y.to_bits() == t.to_bits() || x.is_nan() && y.is_nan() && t.is_nan()), || {
            format!("forms of {a:?} / {k} differ: {d1:?} {d2:?} {d3:?}")
        }) {
            return;
        }
    }
    // maps and sums
    want!("map", a.map(|x| 2.0 * x + 1.0), s, e(&|x| 2.0 * x + 1.0), 0.0);
    want!("cos", arr::cos(&a), s, e(&f64::cos), 2.0);
    want!("exp", arr::exp(&a), s, e(&f64::exp), 2.0);
    want!("abs", arr::abs(&a), s, e(&f64::abs), 0.0);
    want!("ln", arr::ln(&a), s, e(&f64::ln), 2.0);
    want!("sqrt", arr::sqrt(&a), s, e(&f64::sqrt), 1.0);
    want!("make_same_shape", arr::make_same_shape(&a), s, vec![0.0; n], 0.0);
    let (sm, mag): (f64, f64) = (av.iter().sum(), av.iter().map(|t| t.abs()).sum());
    if !c.check((a.sum() - sm).abs() <= 2.0 * n as f64 * f64::EPSILON * mag, || format!("sum of {a:?} is {}", a.sum())) {
        return;
    }
    want!("copy_from", { let mut t = arr::make_same_shape(&a); t.copy_from(&a); t }, s, av.clone(), 0.0);
    // clones are independent
    let mut t = a.clone();
    t[0] = 12345.678;
    if !c.check(is(&a, s, &av, 0.0) && is(&b, s, &bv, 0.0), || format!("operands were modified: {a:?} {b:?}")) {
        return;
    }
    if !c.check((a == a.clone()) && (a != t || av[0] == 12345.678) && a != Arr::from(vec![0.0; n + 1]), || format!("equality of {a:?}")) {
        return;
    }
    if s.1 > 0 && s.0 != s.1 && !c.check(a != Arr::from_shape_vec(s.1, s.0, av.clone()) && a != Arr::from(av.clone()), || "arrays of different shape compare equal".into()) {
        return;
    }
    // mismatched sizes
    let m2 = n + c.rng.int(1, 4);
    let (x, y) = (Arr::from(vals(&mut c.rng, m2)), mk(&av, s));
    let swap = c.rng.chance(0.5);
    let (p, q) = if swap { (&x, &y) } else { (&y, &x) };
    let bad = panics(|| p + q)
        && panics(|| p - q)
        && panics(|| p * q)
        && panics(|| p.clone() + q)
        && panics(|| p.clone() - q)
        && panics(|| p.clone() * q)
        && panics(|| { let mut t = p.clone(); t += q; })
        && panics(|| { let mut t = p.clone(); t -= q; })
        && panics(|| { let mut t = p.clone(); t.copy_from(q); });
    c.ev("mismatches");
    if !c.check(bad, || format!("operands of sizes {} and {} were accepted", p.len(), q.len())) {
        return;
    }
    // linspace
    let cnt = if c.rng.chance(0.003) { c.rng.int(41, 2000) } else { c.rng.int(0, 40) };
    let (lo, hi) = (c.rng.normal() * 10.0, c.rng.normal() * 10.0);
    let l = arr::linspace(lo, hi, cnt);
    let mut ok = l.len() == cnt && !l.is_2d();
    for i in 0..cnt {
        let t = if cnt == 1 { lo } else { lo + (hi - lo) * i as f64 / (cnt - 1) as f64 };
        ok &= (l[i] - t).abs() <= 1e-13 * (lo.abs() + hi.abs());
    }
    if !c.check(ok, || format!("linspace({lo},{hi},{cnt}) = {l:?}")) {
        return;
    }
    // arange: start, start+1, ... below or up to the last whole step
    let (lo, hi) = if c.rng.chance(0.4) { (c.rng.int(0, 20) as f64 - 10.0, c.rng.int(0, 20) as f64 - 10.0) } else { (lo, hi) };
    let l = arr::arange(lo, hi);
    let cnt = if hi > lo { (hi - lo) as usize } else { 0 };
    let ok = l.len() == cnt && !l.is_2d() && l.iter().enumerate().all(|(i, t)| (t - (lo + i as f64)).abs() <= 1e-13 * (lo.abs() + hi.abs() + 1.0));
    if !c.check(ok, || format!("arange({lo},{hi}) = {l:?}, expected {cnt} values")) {
        return;
    }
    // the empty vector
    let z0 = Arr::from(vec![]);
    let one = Arr::from(vec![1.0]);
    let ok = z0.is_empty()
        && Arr::new(0) == z0
        && (&z0 + &z0).is_empty()
        && (&z0 - &z0).is_empty()
        && (&z0 * &z0).is_empty()
        && (&z0 * k).is_empty()
        && (-&z0).is_empty()
        && z0.map(|x| x + 1.0).is_empty()
        && z0.dot(&z0) == 0.0
        && z0.sum() == 0.0
        && z0.iter().next().is_none()
        && panics(|| &z0 + &one)
        && panics(|| &one - &z0)
        && panics(|| one.dot(&z0))
        && panics(|| z0[0]);
    c.check(ok, || "the empty vector is not treated as one".into());
    // infinities and NaN are carried through, not dropped
    if c.rng.chance(0.3) {
        let n = c.rng.int(1, 9);
        let mut v = tame(&mut c.rng, n);
        let w: Vec<f64> = tame(&mut c.rng, n).iter().map(|x| if c.rng.chance(0.2) { 0.0 } else { x + 1.0 }).collect();
        for _ in 0..c.rng.int(1, 2) {
            let i = c.rng.int(0, n - 1);
            v[i] = *c.rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]);
        }
        let total = |t: &[f64]| -> f64 {
            let up = t.iter().any(|x| *x == f64::INFINITY);
            let dn = t.iter().any(|x| *x == f64::NEG_INFINITY);
            if t.iter().any(|x| x.is_nan()) || up && dn {
                f64::NAN
            } else if up {
                f64::INFINITY
            } else {
                f64::NEG_INFINITY
            }
        };
        let (av, aw) = (Arr::from(v.clone()), Arr::from(w.clone()));
        let prod: Vec<f64> = v.iter().zip(&w).map(|(x, y)| x * y).collect();
        let row = Arr::from_shape_vec(1, n, v.clone());
        let zip = |f: &dyn Fn(f64, f64) -> f64| -> Vec<f64> { v.iter().zip(&w).map(|(x, y)| f(*x, *y)).collect() };
        let ok = eqf(av.sum(), total(&v), 0.0)
            && eqf(av.dot(&aw), total(&prod), 0.0)
            && eqf(aw.dot(&av), total(&prod), 0.0)
            && eqf(row.dot_mv(&aw)[0], total(&prod), 0.0)
            && is(&(&av + &aw), (n, 0), &zip(&|x, y| x + y), 0.0)
            && is(&(&aw - &av), (n, 0), &zip(&|x, y| y - x), 0.0)
            && is(&(&av * &aw), (n, 0), &prod, 0.0)
            && is(&-&av, (n, 0), &v.iter().map(|x| -x).collect::<Vec<_>>(), 0.0)
            && is(&arr::abs(&av), (n, 0), &v.iter().map(|x| x.abs()).collect::<Vec<_>>(), 0.0);
        c.ev("non-finite contents");
        c.check(ok, || format!("non-finite contents of {v:?} lost (with {w:?}): sum {} dot {} {} product {:?}", av.sum(), av.dot(&aw), aw.dot(&av), &av * &aw));
    }
    c.sample(|| format!("shape {s:?}, scalar {k:e}"));
}
