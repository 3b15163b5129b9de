//! C15-C17: LDLT factorization, witnesses, and the LMI oracles built on them.
use crate::lin::*;
use crate::mon::*;
use crate::p_space::short;
use crate::rng::Rng;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::{OracleFeas, SingleCut};
use ellalgo_rs::oracles::ldlt_mgr::LDLTMgr;
use ellalgo_rs::oracles::lmi0_oracle::LMI0Oracle;
use ellalgo_rs::oracles::lmi_old_oracle::LMIOldOracle;
use ellalgo_rs::oracles::lmi_oracle::LMIOracle;

pub fn sym(r: &mut Rng, m: usize, s: f64) -> Vec<f64> {
    let mut a = vec![0.0; m * m];
    for i in 0..m {
        for j in 0..=i {
            let v = r.sym() * s;
            a[i * m + j] = v;
            a[j * m + i] = v;
        }
    }
    a
}

/// LDL' with the given pivots
fn from_ldl(r: &mut Rng, n: usize, d: &[f64]) -> Vec<f64> {
    let mut l = vec![0.0; n * n];
    for i in 0..n {
        l[i * n + i] = 1.0;
        for j in 0..i {
            if r.chance(0.8) {
                l[i * n + j] = r.sym();
            }
        }
    }
    let mut a = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..=i {
            let v: f64 = (0..=j).map(|k| l[i * n + k] * d[k] * l[j * n + k]).sum();
            a[i * n + j] = v;
            a[j * n + i] = v;
        }
    }
    a
}

fn gen_sym(r: &mut Rng, n: usize) -> (Vec<f64>, &'static str) {
    let s = if r.chance(0.05) { r.logu(-230.0, 230.0) } else if r.chance(0.3) { r.logu(-90.0, 90.0) } else { 1.0 };
    let (mut a, kind) = match r.int(0, 8) {
        0 => {
            let q = rand_orth(r, n);
            let d: Vec<f64> = (0..n).map(|_| r.logu(-3.0, 3.0)).collect();
            (from_eig(&q, &d, n), "definite")
        }
        1 => {
            let q = rand_orth(r, n);
            let mut d: Vec<f64> = (0..n).map(|_| r.logu(-2.0, 2.0)).collect();
            let i = r.int(0, n - 1);
            d[i] = -r.logu(-4.0, 2.0);
            (from_eig(&q, &d, n), "one negative eigenvalue")
        }
        2 => {
            let q = rand_orth(r, n);
            let d: Vec<f64> = (0..n).map(|_| r.sym() * 3.0).collect();
            (from_eig(&q, &d, n), "mixed signature")
        }
        3 => {
            let mut d: Vec<f64> = (0..n).map(|_| r.logu(-2.0, 2.0)).collect();
            let i = r.int(0, n - 1);
            d[i] = -r.logu(-5.0, 1.0);
            (from_ldl(r, n, &d), "one negative pivot")
        }
        4 => {
            let d: Vec<f64> = (0..n).map(|_| r.logu(-2.0, 2.0)).collect();
            (from_ldl(r, n, &d), "positive pivots")
        }
        5 => {
            let mut a = vec![0.0; n * n];
            for i in 0..n {
                for j in 0..=i {
                    let v = r.int(0, 6) as f64 - 3.0 + if i == j { r.int(0, 2 * n) as f64 } else { 0.0 };
                    a[i * n + j] = v;
                    a[j * n + i] = v;
                }
            }
            (a, "integers")
        }
        6 => (sym(r, n, 1.0), "random"),
        7 => {
            let mut a = vec![0.0; n * n];
            for i in 0..n {
                a[i * n + i] = if r.chance(0.1) { -r.f() } else { r.f() + 0.1 };
            }
            (a, "diagonal")
        }
        _ => {
            let mut a = sym(r, n, 1.0);
            for i in 0..n {
                a[i * n + i] += n as f64;
            }
            if r.chance(0.5) {
                a[n * n - 1] = -0.3;
            }
            (a, "dominant")
        }
    };
    a.iter_mut().for_each(|v| *v *= s);
    (a, kind)
}

fn amax(a: &[f64]) -> f64 {
    a.iter().fold(0.0f64, |m, v| m.max(v.abs()))
}
fn abs_quad(a: &[f64], n: usize, v: &[f64]) -> f64 {
    let mut s = 0.0;
    for i in 0..n {
        for j in 0..n {
            s += (v[i] * a[i * n + j] * v[j]).abs();
        }
    }
    s
}
fn scaled_lmin(a: &[f64], n: usize) -> f64 {
    let m = amax(a);
    if m == 0.0 {
        return 0.0;
    }
    let b: Vec<f64> = a.iter().map(|v| v / m).collect();
    let (w, _) = jacobi(&b, n);
    w.iter().fold(f64::INFINITY, |x, y| x.min(*y))
}

/// Judges a refusal of the manager: the witness proves it.
fn judge_witness(k: &mut Case, mgr: &mut LDLTMgr, a: &[f64], n: usize, strict: bool, ctx: &dyn Fn() -> String) -> Option<(Vec<f64>, f64)> {
    let ep = mgr.witness();
    let v = mgr.wit.data().to_vec();
    let (s, e) = mgr.pos;
    if !k.check(v.len() == n && s < e && e <= n, || format!("witness of length {} with range {s}..{e}; {}", v.len(), ctx())) {
        return None;
    }
    if !k.check((0..n).all(|i| v[i] == 0.0 || (s..e).contains(&i)), || format!("the witness {v:?} is not zero outside its range {s}..{e}; {}", ctx())) {
        return None;
    }
    let q = quad(a, n, &v);
    let tol = 1e-9 * abs_quad(a, n, &v);
    let nz = v.iter().any(|x| *x != 0.0);
    if !k.check(nz && (if strict { ep > 0.0 } else { ep >= 0.0 }) && (q + ep).abs() <= tol, || {
        format!("witness v={} has v'Av = {q:e}, but ep = {ep:e}; {}", short(&v), ctx())
    }) {
        return None;
    }
    // quadratic form of any matrix
    let b = sym(&mut k.rng, n, 1.0);
    let got = mgr.sym_quad(&Arr::with_data(b.clone(), n, n));
    let want = quad(&b, n, &v);
    if !k.check((got - want).abs() <= 1e-10 * abs_quad(&b, n, &v), || format!("sym_quad gives {got:e}, v'Bv is {want:e}, v={}; {}", short(&v), ctx())) {
        return None;
    }
    Some((v, ep))
}

pub fn c15(k: &mut Case) {
    let huge = k.rng.chance(0.0006);
    let n = match k.rng.int(0, 19) {
        _ if huge => k.rng.int(41, 130),
        0 | 1 => 1,
        19 => k.rng.int(15, if k.thorough() { 60 } else { 40 }),
        _ => k.rng.int(2, 9),
    };
    let mut mgr = LDLTMgr::new(n);
    let uses = if huge { 2 } else { k.rng.int(1, 6) };
    for u in 0..uses {
        let (mut a, kind) = gen_sym(&mut k.rng, n);
        let ctx = |a: &[f64]| format!("use {u} of the object, n={n} [{kind}] A={}", short(a));
        if k.rng.chance(0.06) {
            let i = k.rng.int(0, n - 1);
            let j = k.rng.int(0, i);
            let bad = *k.rng.pick(&[f64::NAN, f64::NAN, -f64::NAN]);
            a[i * n + j] = bad;
            a[j * n + i] = bad;
            let m = Arr::with_data(a.clone(), n, n);
            let r = mgr.factorize(&m);
            k.ev("NaN entries");
            k.eval(hvec(1, &a));
            if !k.check(!r && !mgr.is_spd(), || format!("a matrix with a NaN at ({i},{j}) was accepted; {}", ctx(&a))) {
                return;
            }
            continue;
        }
        let lm = scaled_lmin(&a, n);
        let m = Arr::with_data(a.clone(), n, n);
        let lazy = k.rng.chance(0.5);
        let r = if lazy { mgr.factor(|i, j| a[i * n + j]) } else { mgr.factorize(&m) };
        k.ev(if r { "accepted" } else { "refused" });
        k.ev(&format!("kind {kind}"));
        k.eval(hvec(hkey(&[n as f64]), &a));
        if !k.check(r == mgr.is_spd(), || format!("returned {r}, is_spd() {}; {}", mgr.is_spd(), ctx(&a))) {
            return;
        }
        let tie = lm.abs() <= 1e-10 * n as f64;
        if !tie && !k.check(r == (lm > 0.0), || format!("returned {r}, but the smallest eigenvalue is {:e}; {}", lm * amax(&a), ctx(&a))) {
            return;
        }
        if tie {
            k.ev("near singular (acceptance not judged)");
        }
        let mut fresh = LDLTMgr::new(n);
        let rf = fresh.factorize(&m);
        if !k.check(rf == r, || format!("a fresh object returns {rf}, this one {r}; {}", ctx(&a))) {
            return;
        }
        if r {
            let rt = mgr.sqrt();
            let d = rt.data().to_vec();
            let sc = amax(&a);
            let mut ok = d.len() == n * n;
            for i in 0..n {
                for j in 0..n {
                    if !ok {
                        break;
                    }
                    if j < i && d[i * n + j] != 0.0 || i == j && !(d[i * n + i] > 0.0) {
                        ok = false;
                    }
                    let p: f64 = (0..n).map(|l| d[l * n + i] * d[l * n + j]).sum();
                    if (p - a[i * n + j]).abs() > 1e-11 * sc * n as f64 {
                        ok = false;
                    }
                }
            }
            if !k.check(ok, || format!("sqrt() = {} is not the upper triangular factor of A; {}", short(&d), ctx(&a))) {
                return;
            }
            k.ev("factors multiplied back");
            let same = fresh.sqrt().data().iter().zip(&d).all(|(x, y)| x.to_bits() == y.to_bits());
            if !k.check(same, || format!("sqrt() depends on earlier use of the object; {}", ctx(&a))) {
                return;
            }
        } else {
            let c2 = || ctx(&a);
            let w = judge_witness(k, &mut mgr, &a, n, false, &c2);
            if w.is_none() {
                return;
            }
            let (v, ep) = w.unwrap();
            k.ev("witnesses checked");
            k.ev(&format!("refused at pivot {}", if mgr.pos.1 == n { "last" } else if mgr.pos.1 == 1 { "first" } else { "middle" }));
            let e2 = fresh.witness();
            let same = e2.to_bits() == ep.to_bits() && fresh.wit.data() == &v[..];
            if !k.check(same, || format!("the witness depends on earlier use of the object: {} vs {} ; {}", short(&v), short(fresh.wit.data()), ctx(&a))) {
                return;
            }
        }
        k.sample(|| format!("{} -> {r}", ctx(&a)));
    }
}

/// factor_with_allow_semidefinite's arithmetic on this matrix, and whether every step of it is exact
fn exact_semidefinite(a: &[f64], n: usize) -> (bool, bool) {
    let mut s = vec![0.0; n * n];
    let mut start = 0;
    let mut exact = true;
    let sub2 = |x: f64, y: f64, exact: &mut bool| {
        let z = x - y;
        let bb = z - x;
        if (x - (z - bb)) + (-y - bb) != 0.0 {
            *exact = false;
        }
        z
    };
    for i in 0..n {
        let mut d = a[i * n + start];
        for j in start..i {
            s[j * n + i] = d;
            let p = s[j * n + j];
            let v = d / p;
            if v.mul_add(p, -d) != 0.0 || (1.0 / p) * d != v {
                exact = false; // (also where multiplying by the reciprocal would round)
            }
            s[i * n + j] = v;
            let stop = j + 1;
            let mut t = 0.0;
            for k in start..stop {
                let (x, y) = (s[i * n + k], s[k * n + stop]);
                let pr = x * y;
                if x.mul_add(y, -pr) != 0.0 {
                    exact = false;
                }
                t = sub2(t, -pr, &mut exact);
            }
            d = sub2(a[i * n + stop], t, &mut exact);
        }
        s[i * n + i] = d;
        if d < 0.0 {
            return (false, exact);
        }
        if d == 0.0 {
            start = i + 1;
        }
    }
    (true, exact)
}

pub fn c16(k: &mut Case) {
    let n = if k.rng.chance(0.0006) {
        k.rng.int(25, 90)
    } else if k.rng.chance(0.03) {
        k.rng.int(9, 24)
    } else {
        k.rng.int(1, 8)
    };
    let mut mgr = LDLTMgr::new(n);
    let uses = k.rng.int(1, if n > 8 { 2 } else { 6 });
    for u in 0..uses {
        let psd = k.rng.chance(0.6);
        let (a, kind): (Vec<f64>, &str) = if psd {
            // Gram matrix of few small integer vectors
            let rank = k.rng.int(0, n);
            let mut a = vec![0.0; n * n];
            let style = if n > 8 && k.rng.chance(0.7) { 4 } else { k.rng.int(0, 3) };
            for _ in 0..rank {
                // in large dimensions mostly vectors that touch few neighbouring coordinates
                let (lo, w) = (k.rng.int(0, n - 1), k.rng.int(1, 3));
                let v: Vec<f64> = (0..n)
                    .map(|i| match style {
                        4 => if i >= lo && i < lo + w { k.rng.int(0, 2) as f64 - 1.0 } else { 0.0 },
                        0 => k.rng.int(0, 2) as f64 - 1.0,
                        1 => *k.rng.pick(&[0.0, 1.0, 2.0, -2.0, 4.0]),
                        2 => if k.rng.chance(0.3) { 1.0 } else { 0.0 },
                        _ => k.rng.int(0, 4) as f64 - 2.0,
                    })
                    .collect();
                for i in 0..n {
                    for j in 0..n {
                        a[i * n + j] += v[i] * v[j];
                    }
                }
            }
            let s = *k.rng.pick(&[1.0, 0.25, 1024.0]);
            a.iter_mut().for_each(|v| *v *= s);
            (a, "gram")
        } else {
            gen_sym(&mut k.rng, n)
        };
        let ctx = || format!("use {u} of the object, n={n} [{kind}] A={}", short(&a));
        if k.rng.chance(0.02) {
            let i = k.rng.int(0, n - 1);
            let mut b = a.clone();
            b[i * n + i] = f64::NAN;
            let r = mgr.factor_with_allow_semidefinite(|i, j| b[i * n + j]);
            k.ev("NaN on the diagonal");
            if !k.check(!r && !mgr.is_spd(), || format!("a matrix with a NaN at ({i},{i}) was accepted; {}", ctx())) {
                return;
            }
        }
        let r = mgr.factor_with_allow_semidefinite(|i, j| a[i * n + j]);
        let lm = scaled_lmin(&a, n);
        k.eval(hvec(hkey(&[n as f64, 16.0]), &a));
        k.ev(if r { "accepted" } else { "refused" });
        let mut fresh = LDLTMgr::new(n);
        let rf = fresh.factor_with_allow_semidefinite(|i, j| a[i * n + j]);
        if !k.check(r == rf && r == mgr.is_spd(), || format!("returned {r}, a fresh object {rf}, is_spd() {}; {}", mgr.is_spd(), ctx())) {
            return;
        }
        if psd {
            if exact_semidefinite(&a, n).1 {
                k.ev(if lm.abs() < 1e-9 { "singular semidefinite with exact factors" } else { "definite with exact factors" });
                if !k.check(r, || format!("a positive semidefinite matrix was refused; {}", ctx())) {
                    return;
                }
            } else {
                k.ev("inexact (acceptance not judged)");
            }
        }
        if lm > 1e-10 * n as f64 && !k.check(r, || format!("a positive definite matrix (scaled smallest eigenvalue {lm:e}) was refused; {}", ctx())) {
            return;
        }
        // no zero pivot: the plain and the semidefinite factorization must agree
        if (0..n).any(|i| a[i * n + i] < 0.0) {
            k.ev("negative diagonal entry");
            if !k.check(!r, || format!("a matrix with a negative diagonal entry was accepted; {}", ctx())) {
                return;
            }
        }
        if !psd {
            let mut regular = true;
            for m in 1..=n {
                let sc = amax(&a);
                let sub: Vec<f64> = (0..m * m).map(|t| a[(t / m) * n + t % m] / sc).collect();
                let (w, _) = jacobi(&sub, m);
                if w.iter().any(|x| !(x.abs() > 1e-9 * n as f64)) {
                    regular = false;
                }
            }
            if regular {
                k.ev("regular matrices compared with their signature");
                if !k.check(r == (lm > 0.0), || format!("no leading minor vanishes and the smallest eigenvalue is {:e}, but the answer is {r}; {}", lm * amax(&a), ctx())) {
                    return;
                }
            }
        }
        if !r {
            let w = judge_witness(k, &mut mgr, &a, n, true, &ctx);
            if w.is_none() {
                return;
            }
            k.ev("witnesses checked");
            let (v, ep) = w.unwrap();
            let e2 = fresh.witness();
            if !k.check(e2.to_bits() == ep.to_bits() && fresh.wit.data() == &v[..], || format!("the witness depends on earlier use of the object; {}", ctx())) {
                return;
            }
        }
        k.sample(|| format!("{} -> {r}", ctx()));
    }
}

fn lmi_at(b: &[f64], fs: &[Vec<f64>], x: &[f64], m: usize) -> Vec<f64> {
    let mut f = b.to_vec();
    for (xk, fk) in x.iter().zip(fs) {
        for i in 0..m * m {
            f[i] -= xk * fk[i];
        }
    }
    f
}

pub fn c17(k: &mut Case) {
    let big = k.rng.int(0, 999);
    let n = match k.rng.int(0, 49) {
        _ if big < 2 => k.rng.int(17, 90),
        0 => k.rng.int(7, 16),
        _ => k.rng.int(1, 6),
    };
    let m = match k.rng.int(0, 49) {
        _ if big == 2 => k.rng.int(21, 48),
        0 => k.rng.int(8, 20),
        _ => k.rng.int(1, 7),
    };
    let hom = k.rng.chance(0.35);
    let s = if k.rng.chance(0.2) { k.rng.logu(-8.0, 8.0) } else { 1.0 };
    let mut fs: Vec<Vec<f64>> = (0..n)
        .map(|_| {
            let mut f = sym(&mut k.rng, m, s);
            if k.rng.chance(0.2) {
                // sparse
                for i in 0..m {
                    for j in 0..i {
                        if k.rng.chance(0.6) {
                            f[i * m + j] = 0.0;
                            f[j * m + i] = 0.0;
                        }
                    }
                }
            }
            f
        })
        .collect();
    // a point with a positive definite value
    let mut y: Vec<f64> = (0..n).map(|_| k.rng.sym() * 3.0).collect();
    let q = rand_orth(&mut k.rng, m);
    let d: Vec<f64> = (0..m).map(|_| s * k.rng.uni(0.1, 2.0)).collect();
    let pd = from_eig(&q, &d, m);
    let mut b = vec![0.0; m * m];
    if hom {
        // sum y_k F_k = pd: solve for the first matrix
        if y[0].abs() < 0.1 {
            y[0] = 0.5;
        }
        for i in 0..m * m {
            let rest: f64 = (1..n).map(|l| y[l] * fs[l][i]).sum();
            fs[0][i] = (pd[i] - rest) / y[0];
        }
        for i in 0..m {
            for j in 0..i {
                fs[0][j * m + i] = fs[0][i * m + j];
            }
        }
    } else {
        b = pd.clone();
        for (yk, fk) in y.iter().zip(&fs) {
            for i in 0..m * m {
                b[i] += yk * fk[i];
            }
        }
    }
    // value of the matrix inequality at a point
    let neg: Vec<Vec<f64>> = fs.iter().map(|f| f.iter().map(|v| -v).collect()).collect();
    let val = |x: &[f64]| if hom { lmi_at(&vec![0.0; m * m], &neg, x, m) } else { lmi_at(&b, &fs, x, m) };
    let lmin = |x: &[f64]| {
        let (w, _) = jacobi(&val(x), m);
        w.iter().fold(f64::INFINITY, |a, c| a.min(*c))
    };
    let arrs: Vec<Arr> = fs.iter().map(|f| Arr::with_data(f.clone(), m, m)).collect();
    let ba = Arr::with_data(b.clone(), m, m);
    let mut lazy = LMIOracle::new(arrs.clone(), ba.clone());
    let mut expl = LMIOldOracle::new(arrs.clone(), ba.clone());
    let mut zero = LMI0Oracle::new(arrs.clone());
    let ctx = |x: &[f64]| format!("{} n={n} m={m} x={x:?} F={fs:?} B={b:?}", if hom { "LMI0" } else { "LMI" });
    // points of the feasible set: y and points where rays from y leave it
    let mut feas: Vec<Vec<f64>> = vec![y.clone()];
    let mut exits: Vec<(Vec<f64>, Vec<f64>)> = vec![];
    for _ in 0..4 {
        let u = k.rng.unit(n);
        let at = |t: f64| axpy(&y, t, &u);
        let mut hi = 1e-3;
        while lmin(&at(hi)) > 0.0 && hi < 1e3 {
            hi *= 2.0;
        }
        if hi >= 1e3 {
            feas.push(at(hi / 2.0));
            continue;
        }
        let mut lo = 0.0;
        for _ in 0..50 {
            let mid = 0.5 * (lo + hi);
            if lmin(&at(mid)) > 0.0 {
                lo = mid
            } else {
                hi = mid
            }
        }
        feas.push(at(lo));
        exits.push((at(lo), u));
    }
    for _ in 0..k.rng.int(2, 6) {
        let x: Vec<f64> = match k.rng.int(0, 3) {
            0 => (0..n).map(|_| k.rng.sym() * 5.0).collect(),
            1 => y.iter().map(|v| v + 0.01 * k.rng.sym()).collect(),
            _ if !exits.is_empty() => {
                // just beyond the boundary
                let (p, u) = k.rng.pick(&exits).clone();
                let t = k.rng.logu(-5.0, 0.5);
                axpy(&p, t, &u)
            }
            _ => (0..n).map(|_| k.rng.sym() * 5.0).collect(),
        };
        let xa = Arr::from(x.clone());
        let f = val(&x);
        let sc = amax(&f).max(amax(&b)).max(fs.iter().zip(&x).map(|(f, v)| amax(f) * v.abs()).fold(0.0, f64::max));
        let lm = lmin(&x);
        let tie = lm.abs() <= 1e-9 * sc * m as f64;
        k.eval(hvec(hkey(&[n as f64, m as f64, hom as u8 as f64]), &x));
        let answers: Vec<(&str, Option<(Vec<f64>, f64)>, Option<(Vec<f64>, f64)>)> = if hom {
            let c = |r: Option<(Arr, f64)>| r.map(|(g, b)| (g.data().to_vec(), b));
            vec![("LMI0Oracle", c(zero.assess_feas(&xa)), c(LMI0Oracle::new(arrs.clone()).assess_feas(&xa)))]
        } else {
            let c = |r: Option<(Arr, SingleCut)>| r.map(|(g, b)| (g.data().to_vec(), b.0));
            vec![
                ("LMIOracle", c(lazy.assess_feas(&xa)), c(LMIOracle::new(arrs.clone(), ba.clone()).assess_feas(&xa))),
                ("LMIOldOracle", c(expl.assess_feas(&xa)), c(LMIOldOracle::new(arrs.clone(), ba.clone()).assess_feas(&xa))),
            ]
        };
        for (name, a, fresh) in &answers {
            k.ev(&format!("{name} {}", if a.is_none() { "accepted" } else { "cut" }));
            if !k.check(a == fresh, || format!("{name}: the answer {a:?} differs from that of a fresh oracle {fresh:?}; {}", ctx(&x))) {
                return;
            }
            if !tie && !k.check(a.is_none() == (lm > 0.0), || format!("{name}: accepted {}, smallest eigenvalue {lm:e}; {}", a.is_none(), ctx(&x))) {
                return;
            }
            if tie {
                k.ev("near the boundary (acceptance not judged)");
            }
            if let Some((g, beta)) = a {
                if !k.check(*beta >= 0.0 && g.len() == n && g.iter().all(|v| v.is_finite()), || format!("{name}: malformed cut {a:?}; {}", ctx(&x))) {
                    return;
                }
                for z in &feas {
                    let dz = sub(z, &x);
                    let h = dot(g, &dz) + beta;
                    // the witness is at least of length one; rounding is relative to its parts
                    let parts: f64 = g.iter().zip(&dz).map(|(p, q)| (p * q).abs()).sum::<f64>() + beta;
                    k.ev("feasible points tested against a cut");
                    if !k.check(h <= 1e-9 * parts + 1e-9 * sc, || format!("{name}: the cut g={g:?} beta={beta:e} excludes the feasible point {z:?}: g.(y-x)+beta = {h:e}; {}", ctx(&x))) {
                        return;
                    }
                }
                // beta is the violation -v'F(x)v of a vector v that also gives g: along the line to y the
                // form -(g.(z-x)+beta) must stay within the eigenvalue range of the matrix there
                for z in [&y, &x] {
                    let h = -(dot(g, &sub(z, &x)) + beta);
                    let (w, _) = jacobi(&val(z), m);
                    let (lo, hi) = w.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |a, c| (a.0.min(*c), a.1.max(*c)));
                    // v has last entry one
                    if lo > 0.0 && !k.check(h >= lo * (1.0 - 1e-6) - 1e-9 * sc, || format!("{name}: form {h:e} of the witness at {z:?} below the smallest eigenvalue {lo:e}..{hi:e}; {}", ctx(&x))) {
                        return;
                    }
                }
            }
        }
        if answers.len() == 2 && !tie {
            if let (Some((g1, b1)), Some((g2, b2))) = (&answers[0].1, &answers[1].1) {
                let gs = amax(g1).max(amax(g2));
                let ok = (b1 - b2).abs() <= 1e-7 * (b1.abs() + sc * 1e-3) && g1.iter().zip(g2).all(|(p, q)| (p - q).abs() <= 1e-7 * gs);
                k.ev("lazy and explicit cuts compared");
                if !k.check(ok, || format!("lazy cut {:?} and explicit cut {:?} differ; {}", answers[0].1, answers[1].1, ctx(&x))) {
                    return;
                }
            }
        }
        k.sample(|| format!("{:?} at smallest eigenvalue {lm:e}; {}", answers[0].1, ctx(&x)));
    }
}
