//! C01-C06: monitors on the search spaces. Every update of every history is judged from the observed
//! state before and after it, in the coordinates where the old ellipsoid is the unit ball.
use crate::lin::*;
use crate::mon::*;
use crate::refgeo::*;
use crate::rng::Rng;
use crate::space::*;
use ellalgo_rs::cutting_plane::CutStatus;

pub struct View {
    pub n: usize,
    pub c: Vec<f64>,
    pub p: Vec<f64>,
    pub l: Vec<f64>,
    pub cond: f64,
    pub lmin: f64,
}

fn finite(v: &[f64]) -> bool {
    v.iter().all(|x| x.is_finite())
}

/// extreme eigenvalues of LLᵀ, by a few power iterations (good to a factor of about two)
fn eig_range(l: &[f64], n: usize, r: &mut Rng) -> (f64, f64) {
    let mut hi = 0.0f64;
    let mut lo = 0.0f64;
    let mut x = r.unit(n);
    let mut y = x.clone();
    for _ in 0..12 {
        x = lmul(l, n, &ltmul(l, n, &x));
        hi = norm(&x);
        if hi == 0.0 || !hi.is_finite() {
            break;
        }
        x.iter_mut().for_each(|v| *v /= hi);
        y = bwd(l, n, &fwd(l, n, &y));
        lo = norm(&y);
        if lo == 0.0 || !lo.is_finite() {
            break;
        }
        y.iter_mut().for_each(|v| *v /= lo);
    }
    for i in 0..n {
        let d = l[i * n + i] * l[i * n + i];
        hi = hi.max(d);
        lo = lo.max(1.0 / d);
    }
    (1.0 / lo, hi)
}

/// Observes a space. Err: it is not a finite symmetric positive definite ellipsoid.
pub fn view(sp: &Sp, r: &mut Rng) -> Result<View, String> {
    let c = sp.center();
    let n = c.len();
    if !finite(&c) {
        return Err(format!("{}: centre is not finite: {:?}", sp.name(), c));
    }
    let mut p = sp.shape();
    if !finite(&p) {
        return Err(format!("{}: shape is not finite", sp.name()));
    }
    for i in 0..n {
        for j in 0..i {
            let (a, b) = (p[i * n + j], p[j * n + i]);
            let s = (p[i * n + i].abs() * p[j * n + j].abs()).sqrt();
            if (a - b).abs() > 1e-12 * s {
                return Err(format!("{}: shape is not symmetric at ({i},{j}): {a:e} vs {b:e}", sp.name()));
            }
            p[j * n + i] = a;
        }
    }
    match chol(&p, n) {
        None => Err(format!("{}: shape is not positive definite: {:?}", sp.name(), short(&p))),
        Some(l) => {
            let (lo, hi) = eig_range(&l, n, r);
            Ok(View { n, c, p, l, cond: hi / lo, lmin: lo })
        }
    }
}

pub fn short(v: &[f64]) -> String {
    if v.len() <= 16 {
        format!("{v:?}")
    } else {
        format!("{:?}...({} values)", &v[..16], v.len())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum What {
    Contain,
    Volume,
    Status,
    Well,
}

pub struct Cut<'a> {
    pub op: Op,
    pub g: &'a [f64],
    pub b: Beta,
    pub kind: &'static str,
}
impl std::fmt::Debug for Cut<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?} cut [{}] g={} beta={:?}", self.op, self.kind, short(self.g), self.b)
    }
}

/// What the definition of the cut says about its status.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Expect {
    NoSoln,
    NoEffect,
    Success,
    /// shallow cut whose first hyperplane misses the ellipsoid: Success or NoEffect
    Shallow,
    /// too close to a tie for rounding
    Tie,
}

/// (expected status, lo, hi): the cut keeps lo <= t <= hi, t = g.(x-c)/tau, of the unit ball
pub fn expect(n: usize, op: Op, a0: f64, a1: Option<f64>) -> (Expect, f64, f64) {
    let nf = n as f64;
    let a0 = if op == Op::Central { 0.0 } else { a0 };
    let m = 1e-9;
    let hi = (-a0).min(1.0);
    let lo = a1.map_or(-1.0, |a| (-a).max(-1.0));
    if let Some(a1) = a1 {
        if a1 < a0 - m {
            return (Expect::NoSoln, lo, hi);
        }
        if a1 < -1.0 - m {
            return (Expect::NoSoln, lo, hi);
        }
        if (a1 - a0).abs() <= m || (a1 + 1.0).abs() <= m {
            return (Expect::Tie, lo, hi);
        }
    }
    if a0 > 1.0 + m {
        return (Expect::NoSoln, lo, hi);
    }
    if (a0 - 1.0).abs() <= m {
        return (Expect::Tie, lo, hi);
    }
    let second = a1.is_some_and(|a| a < 1.0 - m);
    if a1.is_some_and(|a| (a - 1.0).abs() <= m) {
        return (Expect::Tie, lo, hi);
    }
    if op == Op::Central {
        return (Expect::Success, lo, hi);
    }
    let e = if second {
        if a0 < -1.0 {
            return (Expect::Shallow, lo, hi);
        }
        1.0 + nf * a0 * a1.unwrap()
    } else {
        1.0 + nf * a0
    };
    if e.abs() <= m {
        return (Expect::Tie, lo, hi);
    }
    (if e < 0.0 { Expect::NoEffect } else { Expect::Success }, lo, hi)
}

pub struct StepOut {
    /// false: end the history (violation, degenerate or no longer representable)
    pub go: bool,
    /// logdet of the new shape minus logdet of the old one, as the definition predicts it
    pub pred: Option<f64>,
    pub view: Option<View>,
}

pub fn st(s: &CutStatus) -> &'static str {
    match s {
        CutStatus::Success => "Success",
        CutStatus::NoSoln => "NoSoln",
        CutStatus::NoEffect => "NoEffect",
        CutStatus::Unknown => "Unknown",
    }
}

/// Applies one cut to the real search space and judges the observed transition.
pub fn step(k: &mut Case, what: What, sp: &mut Sp, before: &View, cut: &Cut) -> StepOut {
    let n = before.n;
    let nf = n as f64;
    let end = StepOut { go: false, pred: None, view: None };
    let lg = ltmul(&before.l, n, cut.g);
    let tau = norm(&lg);
    if !(tau.is_finite() && tau > 1e-120 && tau < 1e120) {
        k.ev("gradient out of range");
        return end;
    }
    let ghat: Vec<f64> = lg.iter().map(|v| v / tau).collect();
    let (ex, lo, hi) = expect(n, cut.op, cut.b.b0() / tau, cut.b.b1().map(|b| b / tau));
    let old = sp.clone();
    let status = sp.upd(cut.op, cut.g, cut.b);
    let who = sp.name();
    let key = hvec(hvec(hkey(&[nf, tau, cut.b.b0(), cut.b.b1().unwrap_or(9.9), cut.op as u8 as f64]), cut.g), &before.c);
    if ex == Expect::Tie {
        k.ev("tie (not judged)");
    }
    k.ev(&format!("{} {}", who, st(&status)));
    k.ev(&format!("kind {}", cut.kind));
    let ctx = |m: String| {
        format!(
            "{m}\n   {who} n={n} cond={:.2e} tau={tau:e} alpha0={:.6} alpha1={:?} {cut:?} status={}\n   centre={} P={}",
            before.cond,
            cut.b.b0() / tau,
            cut.b.b1().map(|b| b / tau),
            st(&status),
            short(&before.c),
            short(&before.p)
        )
    };
    if what == What::Status {
        k.eval(key);
        // tsq is that of the state before the update
        let ab: f64 = (0..n)
            .map(|i| (0..n).map(|j| (cut.g[i] * before.p[i * n + j] * cut.g[j]).abs()).sum::<f64>())
            .sum();
        let t = sp.tsq();
        if !k.check((t - tau * tau).abs() <= 1e-9 * tau * tau + 1e-12 * ab, || {
            ctx(format!("tsq() = {t:e} but the squared extent along the gradient was {:e}", tau * tau))
        }) {
            return end;
        }
        let ok = match ex {
            Expect::Tie => true,
            Expect::Shallow => matches!(status, CutStatus::Success | CutStatus::NoEffect),
            Expect::NoSoln => status == CutStatus::NoSoln,
            Expect::NoEffect => status == CutStatus::NoEffect,
            Expect::Success => status == CutStatus::Success,
        };
        if !k.check(ok, || ctx(format!("expected {ex:?}, got {}", st(&status)))) {
            return end;
        }
        if status != CutStatus::Success {
            k.ev("refusals compared");
            let (c1, p1) = (sp.center(), sp.shape());
            let sc = before.p.iter().fold(0.0f64, |m, v| m.max(v.abs()));
            let same = c1.iter().zip(&before.c).all(|(a, b)| (a - b).abs() <= 1e-13 * b.abs())
                && p1.iter().zip(&old.shape()).all(|(a, b)| (a - b).abs() <= 1e-12 * sc);
            if !k.check(same, || ctx(format!("a {} update changed the search space: centre {:?}", st(&status), short(&c1)))) {
                return end;
            }
            return StepOut { go: true, pred: Some(0.0), view: None };
        }
    }
    if status != CutStatus::Success {
        if what == What::Contain || what == What::Volume || what == What::Well {
            k.trivial();
        }
        return StepOut { go: true, pred: Some(0.0), view: None };
    }
    if ex == Expect::NoSoln {
        // a status error (judged by C03); nothing is left that could be discarded
        return end;
    }
    if what == What::Status {
        return StepOut { go: true, pred: None, view: None };
    }
    // ---- Success: look at the new ellipsoid in the old one's coordinates
    if hi - lo < 1e-6 {
        k.ev("degenerate slab (not judged)");
        return end;
    }
    let mv_ref = match minvol(n, lo, hi) {
        Some(m) => m,
        None => {
            k.ev("no reference");
            return end;
        }
    };
    let a2 = mv_ref.a2;
    let cmax = before.c.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let errn = 1e-13 * before.cond * nf.sqrt();
    let errc = 4e-16 * cmax * nf / before.lmin.sqrt();
    let tol = 1e-7 + errn / a2 + 4.0 * errc / a2.sqrt();
    if tol > 1e-3 || ex == Expect::Tie {
        k.ev("step too ill-conditioned to judge");
        return end;
    }
    let after = match view(sp, &mut k.rng) {
        Ok(v) => v,
        Err(e) => {
            k.fail(ctx(format!("after the update: {e}")));
            return end;
        }
    };
    let yc = fwd(&before.l, n, &sub(&after.c, &before.c));
    // N = L^-1 P' L^-T
    let mut nn = vec![0.0; n * n];
    for j in 0..n {
        let col: Vec<f64> = (0..n).map(|i| after.p[i * n + j]).collect();
        let y = fwd(&before.l, n, &col);
        for i in 0..n {
            nn[i * n + j] = y[i];
        }
    }
    for i in 0..n {
        let row: Vec<f64> = (0..n).map(|j| nn[i * n + j]).collect();
        let y = fwd(&before.l, n, &row);
        for j in 0..n {
            nn[i * n + j] = y[j];
        }
    }
    for i in 0..n {
        for j in 0..i {
            let v = 0.5 * (nn[i * n + j] + nn[j * n + i]);
            nn[i * n + j] = v;
            nn[j * n + i] = v;
        }
    }
    let ln = match chol(&nn, n) {
        Some(l) => l,
        None => {
            k.fail(ctx("the new shape is not positive definite relative to the old one".into()));
            return end;
        }
    };
    let ld = logdet_chol(&ln, n);
    k.eval(key);
    match what {
        What::Contain => {
            let mut worst = (0.0f64, vec![]);
            let mut pts = 0;
            let form = |y: &[f64]| {
                let z = fwd(&ln, n, &sub(y, &yc));
                dot(&z, &z)
            };
            let ts = [lo, hi, 0.5 * (lo + hi), k.rng.uni(lo, hi)];
            for (ti, &t) in ts.iter().enumerate() {
                let rad = (1.0 - t * t).max(0.0).sqrt();
                let reps = if n == 1 { 1 } else { 3 };
                for rep in 0..reps {
                    let mut v = if rep == 0 && n > 1 {
                        let mut e = vec![0.0; n];
                        e[k.rng.int(0, n - 1)] = 1.0;
                        e
                    } else {
                        k.rng.unit(n)
                    };
                    for it in 0..if ti < 2 { 4 } else { 1 } {
                        let d = dot(&v, &ghat);
                        v = axpy(&v, -d, &ghat);
                        let s = norm(&v);
                        let vv: Vec<f64> = if s < 1e-9 || n == 1 {
                            vec![0.0; n]
                        } else {
                            // again, so that a small remainder is orthogonal to full precision
                            let u: Vec<f64> = v.iter().map(|x| x / s).collect();
                            let u = axpy(&u, -dot(&u, &ghat), &ghat);
                            let s = norm(&u);
                            u.iter().map(|x| x / s).collect()
                        };
                        let y: Vec<f64> = (0..n).map(|i| t * ghat[i] + rad * vv[i]).collect();
                        let f = form(&y);
                        pts += 1;
                        if !(f <= worst.0) {
                            worst = (f, y.clone());
                        }
                        if it < 3 {
                            // climb: move towards the gradient of the (convex) form
                            v = bwd(&ln, n, &fwd(&ln, n, &sub(&y, &yc)));
                        }
                    }
                }
            }
            k.evn("points of the kept part tested for membership", pts);
            let x = axpy(&before.c, 1.0, &lmul(&before.l, n, &worst.1));
            if !k.check(worst.0 <= 1.0 + tol, || {
                ctx(format!(
                    "a point of the old ellipsoid that satisfies the cut is outside the new one: x={} membership form {:.9} > 1 (tolerance {tol:.1e})",
                    short(&x),
                    worst.0
                ))
            }) {
                return end;
            }
            k.sample(|| ctx(format!("worst membership form over the kept part {:.9}", worst.0)));
        }
        What::Volume => {
            let vtol = tol * nf.max(2.0);
            let shallow = ex == Expect::Shallow;
            if !k.check(ld <= vtol, || ctx(format!("the volume grew: log det ratio {ld:e}"))) {
                return end;
            }
            if !shallow {
                if !k.check((ld - mv_ref.logdet).abs() <= vtol, || {
                    ctx(format!(
                        "log det ratio {ld:.9} but the smallest ellipsoid containing the kept part [{lo},{hi}] has {:.9}",
                        mv_ref.logdet
                    ))
                }) {
                    return end;
                }
                k.ev("compared with the minimum-volume ellipsoid");
            }
            if hi <= 0.0 {
                let bound = -1.0 / (nf + 1.0);
                if !k.check(ld <= bound + vtol, || ctx(format!("progress: log det ratio {ld} above {bound}"))) {
                    return end;
                }
                k.ev("progress bound checked");
            }
            if cut.b.b1().is_some() && hi <= 0.0 {
                if let Some(s) = minvol(n, -1.0, hi) {
                    if !k.check(ld <= s.logdet + vtol, || ctx("a parallel cut shrank less than its single cut".into())) {
                        return end;
                    }
                }
            }
            k.sample(|| ctx(format!("log det ratio {ld:.9}, optimum {:.9}", mv_ref.logdet)));
        }
        What::Well => {
            let d = norm(&yc);
            if !k.check(d <= 1.0 + tol, || ctx(format!("the new centre is outside the old ellipsoid: {d}"))) {
                return end;
            }
            k.sample(|| ctx(format!("centre moved by {d:.6} of the half-width, cond now {:.2e}", after.cond)));
        }
        What::Status => {}
    }
    StepOut {
        go: true,
        pred: if ex == Expect::Shallow { Some(ld) } else { Some(mv_ref.logdet) },
        view: Some(after),
    }
}

pub fn pick_space(r: &mut Rng, i: &Init) -> Sp {
    match r.int(0, 4) {
        0 => i.ell(true),
        1 | 2 => i.ell(false),
        _ => i.stable(),
    }
}

fn gscale(v: &View) -> f64 {
    // gradients are sized so that tau stays in range whatever the scale of the ellipsoid
    let t: f64 = (0..v.n).map(|i| v.p[i * v.n + i]).sum::<f64>() / v.n as f64;
    1.0 / t.sqrt()
}

fn walk(k: &mut Case, what: What) {
    let big = k.rng.chance(0.04);
    let n = if big { k.rng.int(20, if k.thorough() { 130 } else { 90 }) } else { gen_dim(&mut k.rng, 20) };
    let wide = k.rng.chance(0.2);
    let init = gen_init(&mut k.rng, n, wide);
    let mut sp = pick_space(&mut k.rng, &init);
    if big {
        sp = init.ell(k.rng.chance(0.5));
    }
    let steps = if big { 4 } else { k.rng.int(1, 40) };
    let unit_g = k.rng.chance(0.3);
    let deep_only = k.rng.chance(0.3);
    let mut v = match view(&sp, &mut k.rng) {
        Ok(v) => v,
        Err(e) => {
            k.fail(format!("a freshly constructed space: {e}; {init:?}"));
            return;
        }
    };
    if what == What::Status && !k.check(sp.tsq() == 0.0, || format!("a new space reports tsq {:e} before any cut", sp.tsq())) {
        return;
    }
    let mut prev = vec![0.0; n];
    k.ev("histories");
    for s in 0..steps {
        if v.cond > 1e9 {
            k.ev("history ended: ill-conditioned");
            break;
        }
        let sc = if unit_g && !wide { 1.0 } else { gscale(&v) };
        let mut g = gen_grad(&mut k.rng, n, &prev, sc);
        if k.rng.chance(0.04) {
            // a very loud or very quiet description of the same hyperplane
            let m = k.rng.logu(-60.0, 60.0);
            g.iter_mut().for_each(|x| *x *= m);
        }
        let tau = norm(&ltmul(&v.l, n, &g));
        let mut op = *k.rng.pick(&[Op::Bias, Op::Bias, Op::Q, Op::Q, Op::Central]);
        let (mut b, mut kind) = gen_beta(&mut k.rng, n, tau);
        if deep_only && s + 1 < steps {
            // long productive histories, then one arbitrary cut
            if k.rng.chance(0.5) {
                b = Beta::S(tau * k.rng.uni(0.0, 0.3));
                kind = "deep";
            } else {
                let a = k.rng.uni(0.0, 0.2);
                b = Beta::P(a * tau, Some((a + k.rng.uni(0.5, 1.2)) * tau));
                kind = "parallel deep";
            }
        }
        if op == Op::Central {
            // the first depth must be irrelevant
            if let Beta::P(b0, Some(b1)) = b {
                if k.rng.chance(0.5) {
                    b = Beta::P(b0, Some(b1.abs()));
                }
            }
        }
        if k.rng.chance(0.03) && what == What::Status && zero_gradient(k, &sp, &v) {
            return;
        }
        if k.rng.chance(0.03) && what == What::Status && coinciding(k, &sp, &v, &g, tau) {
            return;
        }
        if n == 1 && op == Op::Central && k.rng.chance(0.5) {
            op = Op::Bias;
        }
        let cut = Cut { op, g: &g, b, kind };
        let o = step(k, what, &mut sp, &v, &cut);
        if !o.go {
            break;
        }
        if let Some(nv) = o.view {
            v = nv;
        } else if what == What::Status {
            match view(&sp, &mut k.rng) {
                Ok(nv) => v = nv,
                Err(_) => {
                    k.ev("history ended: degenerate");
                    break;
                }
            }
        }
        prev = g;
    }
}

/// A cut with zero gradient cuts nothing: NoSoln if it is unsatisfiable, NoEffect otherwise.
fn zero_gradient(k: &mut Case, sp: &Sp, v: &View) -> bool {
    let mut s = sp.clone();
    let g = vec![0.0; v.n];
    let op = *k.rng.pick(&[Op::Bias, Op::Central, Op::Q]);
    let a = k.rng.sym();
    let b = *k.rng.pick(&[Beta::S(0.0), Beta::S(a), Beta::P(0.0, Some(a)), Beta::P(a, Some(a + 0.5)), Beta::P(a, None)]);
    let stt = s.upd(op, &g, b);
    let b0 = if op == Op::Central { 0.0 } else { b.b0() };
    let b1 = b.b1();
    let none = b0 > 0.0 || b1.is_some_and(|b1| b1 < 0.0 || b1 < b0);
    k.ev("zero gradient");
    k.eval(hkey(&[v.n as f64, b0, b1.unwrap_or(7.7), a]));
    let ok = stt == if none { CutStatus::NoSoln } else { CutStatus::NoEffect };
    let same = s.center() == v.c && s.shape().iter().zip(&sp.shape()).all(|(x, y)| x.to_bits() == y.to_bits()) && s.tsq() == 0.0;
    !k.check(ok && same, || {
        format!(
            "zero gradient, {} {op:?} {b:?}: status {} (unsatisfiable: {none}), tsq {}, space unchanged: {same}, centre {:?}",
            s.name(),
            st(&stt),
            s.tsq(),
            short(&s.center())
        )
    })
}

/// A parallel cut whose hyperplanes coincide is an equality: it has solutions inside the ellipsoid.
fn coinciding(k: &mut Case, sp: &Sp, v: &View, g: &[f64], tau: f64) -> bool {
    let a = k.rng.uni(-0.9, 0.9);
    let b = a * tau;
    let op = *k.rng.pick(&[Op::Bias, Op::Q]);
    let mut s = sp.clone();
    let stt = s.upd(op, g, Beta::P(b, Some(b)));
    k.ev("coinciding hyperplanes");
    k.eval(hvec(hkey(&[v.n as f64, a, tau]), g));
    let c = s.center();
    let e = dot(g, &sub(&c, &v.c)) / tau + a;
    let cmax = v.c.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let tol = 1e-6 + 1e-12 * v.cond + 1e-14 * cmax * norm(g) / tau;
    !k.check(stt == CutStatus::Success && e.abs() <= tol, || {
        format!("{} {op:?}: coinciding hyperplanes at depth {a} of the half-width: status {}, new centre off the hyperplane by {e:e}; g={} centre={}", s.name(), st(&stt), short(g), short(&v.c))
    })
}

pub fn c01(k: &mut Case) {
    walk(k, What::Contain);
}
pub fn c02(k: &mut Case) {
    walk(k, What::Volume);
}
pub fn c03(k: &mut Case) {
    walk(k, What::Status);
}

/// C05: long histories.
/// Tens of thousands of cuts so shallow that the ellipsoid hardly shrinks, beside a plain re-computation.
fn marathon(k: &mut Case) {
    let n = k.rng.int(2, 5);
    let init = gen_init(&mut k.rng, n, false);
    let mut sp = pick_space(&mut k.rng, &init);
    let v = match view(&sp, &mut k.rng) {
        Ok(v) if v.cond < 1e6 => v,
        _ => return,
    };
    let steps = if k.thorough() { 200_000 } else { 70_000 };
    let (mut p, mut c) = (v.p.clone(), v.c.clone());
    let nf = n as f64;
    let deep = *k.rng.pick(&[1e-3, 1e-2, 3e-2]);
    let sc = gscale(&v);
    for s in 0..steps {
        let g: Vec<f64> = k.rng.unit(n).iter().map(|x| x * sc).collect();
        let pg: Vec<f64> = (0..n).map(|i| dot(&p[i * n..i * n + n], &g)).collect();
        let tsq = dot(&g, &pg);
        let tau = tsq.sqrt();
        let u = deep * k.rng.uni(0.2, 1.0); // 1 + n·alpha
        let al = (u - 1.0) / nf;
        let st = sp.upd(Op::Bias, &g, Beta::S(al * tau));
        k.eval(hkey(&[s as f64, tsq, al]));
        let t = sp.tsq();
        if !k.check(st == CutStatus::Success && (t - tsq).abs() <= 1e-6 * tsq, || {
            format!("{}: update {s} of a long history of shallow cuts: {st:?}, tsq {t:e}, expected Success and {tsq:e} (n={n}, depth {al} tau)", sp.name())
        }) {
            return;
        }
        let rho = u / (nf + 1.0) * tau;
        let sg = 2.0 * u / ((nf + 1.0) * (1.0 + al));
        let de = nf * nf * (1.0 - al * al) / (nf * nf - 1.0);
        for i in 0..n {
            c[i] -= rho * pg[i] / tsq;
            for j in 0..=i {
                p[i * n + j] = de * (p[i * n + j] - sg * pg[i] * pg[j] / tsq);
                p[j * n + i] = p[i * n + j]; // an asymmetry would grow
            }
        }
        if s % 4096 == 4095 || s + 1 == steps {
            let w = match view(&sp, &mut k.rng) {
                Ok(w) => w,
                Err(e) => {
                    k.fail(format!("after {} shallow cuts: {e}", s + 1));
                    return;
                }
            };
            let ok = (0..n).all(|i| {
                (w.c[i] - c[i]).abs() <= 1e-6 * (p[i * n + i].sqrt() + c[i].abs())
                    && (0..n).all(|j| (w.p[i * n + j] - p[i * n + j]).abs() <= 1e-6 * (p[i * n + i] * p[j * n + j]).sqrt())
            });
            if !k.check(ok, || format!("{}: after {} shallow cuts (n={n}) centre {:?} shape {:?}, expected {c:?} {p:?}", sp.name(), s + 1, w.c, w.p)) {
                return;
            }
            if w.cond > 1e7 {
                break;
            }
        }
    }
    k.evn("updates in marathons", steps as u64);
}

pub fn c05(k: &mut Case) {
    if k.rng.chance(0.01) {
        return marathon(k);
    }
    match k.idx % 4 {
        0 => walk(k, What::Well),
        1 => tangent(k),
        _ => long(k),
    }
}

fn long(k: &mut Case) {
    let n = if k.rng.chance(0.02) { k.rng.int(13, 40) } else { k.rng.int(1, 12) };
    let wide = k.rng.chance(0.3);
    let init = gen_init(&mut k.rng, n, wide);
    let mut sp = pick_space(&mut k.rng, &init);
    let steps = if k.thorough() { 3000 } else { 700 };
    let mode = k.rng.int(0, 3);
    let mut v = match view(&sp, &mut k.rng) {
        Ok(v) => v,
        Err(e) => {
            k.fail(format!("a freshly constructed space: {e}; {init:?}"));
            return;
        }
    };
    let ld0 = logdet_chol(&v.l, n);
    let mut pred = 0.0;
    let mut done = 0u64;
    let mut prev = vec![0.0; n];
    let mut target = v.c.clone();
    if mode == 2 {
        target = axpy(&v.c, 0.5, &lmul(&v.l, n, &k.rng.unit(n)));
    }
    for s in 0..steps {
        if v.cond > 1e8 {
            k.ev("history ended: ill-conditioned");
            break;
        }
        let vol = logdet_chol(&v.l, n) / n as f64;
        if !(-450.0..450.0).contains(&vol) {
            k.ev("history ended: scale exhausted");
            break;
        }
        let sc = gscale(&v);
        let mut g: Vec<f64> = match mode {
            0 => gen_grad(&mut k.rng, n, &prev, sc),
            1 => {
                // round robin over the coordinates
                let mut g = vec![0.0; n];
                g[s % n] = if k.rng.chance(0.5) { sc } else { -sc };
                g
            }
            2 => {
                let d = sub(&v.c, &target);
                let m = norm(&d);
                if m == 0.0 {
                    k.rng.unit(n).iter().map(|x| x * sc).collect()
                } else {
                    d.iter().map(|x| x / m * sc).collect()
                }
            }
            _ => k.rng.unit(n).iter().map(|x| x * sc).collect(),
        };
        let mut tau = norm(&ltmul(&v.l, n, &g));
        if mode == 2 {
            // cut through the target, keeping it: never let rounding choose its side
            let d = dot(&g, &sub(&v.c, &target)) / tau;
            if !(0.0..0.5).contains(&d) {
                g = k.rng.unit(n).iter().map(|x| x * sc).collect();
                tau = norm(&ltmul(&v.l, n, &g));
            }
        }
        let a = match mode {
            1 => 0.0,
            _ => k.rng.uni(0.0, 0.15),
        };
        let op = *k.rng.pick(&[Op::Bias, Op::Q, Op::Central]);
        let b = if k.rng.chance(0.3) {
            Beta::P(a * tau, Some(tau * (a + k.rng.uni(0.6, 1.3))))
        } else {
            Beta::S(a * tau)
        };
        let cut = Cut { op, g: &g, b, kind: "long history" };
        let o = step(k, What::Well, &mut sp, &v, &cut);
        if !o.go {
            break;
        }
        done += 1;
        if let Some(p) = o.pred {
            pred += p;
        }
        if let Some(nv) = o.view {
            v = nv;
        }
        prev = g;
    }
    if k.failed() {
        return;
    }
    k.evn("updates in long histories", done);
    let ld = logdet_chol(&v.l, n) - ld0;
    let tol = 1e-6 * (done as f64 + 1.0) + 1e-9 * ld.abs();
    let name = sp.name();
    k.check((ld - pred).abs() <= tol, || {
        format!("{name}: after {done} updates the log det changed by {ld} but the shrink factors multiply to {pred} (n={n}, mode {mode})")
    });
}

/// Cuts that only touch the ellipsoid leave a flat one: later updates must still be finite.
fn tangent(k: &mut Case) {
    let n = k.rng.int(1, 8);
    let c: Vec<f64> = (0..n).map(|_| k.rng.int(0, 6) as f64 - 3.0).collect();
    let r = *k.rng.pick(&[1.0, 2.0, 0.5, 4.0]);
    let mut m = vec![0.0; n * n];
    for i in 0..n {
        m[i * n + i] = 1.0;
    }
    let init = Init { n, kind: Kind::Scalar, kappa: r * r, m, c: c.clone() };
    let mut sp = if k.rng.chance(0.6) { init.stable() } else { init.ell(k.rng.chance(0.3)) };
    let mut g = vec![0.0; n];
    let ax = k.rng.int(0, n - 1);
    let s = if k.rng.chance(0.5) { 1.0 } else { -1.0 };
    g[ax] = s;
    let op = *k.rng.pick(&[Op::Bias, Op::Q]);
    let stt = sp.upd(op, &g, Beta::S(r));
    let name = sp.name();
    k.ev("tangent cuts");
    k.eval(hkey(&[n as f64, r, ax as f64, s, c[0]]));
    if stt == CutStatus::Success {
        let x = sp.center();
        let mut w = c.clone();
        w[ax] -= s * r;
        let ok = x.iter().zip(&w).all(|(a, b)| (a - b).abs() <= 1e-9 * (1.0 + b.abs()));
        if !k.check(ok, || format!("{name}: a tangent cut g={g:?} beta={r} from {c:?} leaves centre {x:?}, expected {w:?}")) {
            return;
        }
        for _ in 0..5 {
            let g = gen_grad(&mut k.rng, n, &g, 1.0);
            let b = *k.rng.pick(&[Beta::S(0.0), Beta::S(0.1), Beta::P(0.0, Some(0.1)), Beta::P(0.01, Some(0.2)), Beta::S(-0.1)]);
            let op = *k.rng.pick(&[Op::Bias, Op::Q, Op::Central]);
            let stt = sp.upd(op, &g, b);
            let (x, t) = (sp.center(), sp.tsq());
            let ok = finite(&x) && t.is_finite() && t.abs() < 1e-9 && x.iter().zip(&w).all(|(a, b)| (a - b).abs() <= 1e-6 * (1.0 + b.abs()));
            if !k.check(ok, || format!("{name}: after a tangent cut the single point {w:?} is left, but {op:?} {b:?} g={g:?} gives {} centre {x:?} tsq {t}", st(&stt))) {
                return;
            }
        }
    }
}

/// C04: the same ellipsoid, the same cuts, every representation.
pub fn c04(k: &mut Case) {
    let big = k.rng.chance(0.05);
    let n = if big { k.rng.int(20, 80) } else { gen_dim(&mut k.rng, 16) };
    let wide = k.rng.chance(0.2);
    let init = gen_init(&mut k.rng, n, wide);
    let p0 = init.p();
    let l0 = chol(&p0, n).unwrap();
    let sc0: f64 = (0..n).map(|i| p0[i * n + i]).sum::<f64>() / n as f64;
    let mut reps = vec![init.ell(false), init.ell(true), init.stable()];
    // the same ellipsoid through the other constructors
    let full = Init { kind: Kind::Full, ..init.clone() };
    if init.kind != Kind::Full {
        reps.push(full.ell(false));
        reps.push(full.stable());
    }
    // kappa folded into the matrix
    let folded = Init { kind: Kind::Full, kappa: 1.0, m: p0.clone(), ..init.clone() };
    reps.push(folded.stable());
    reps.push(folded.ell(false));
    // constructors describe the documented ellipsoid
    for sp in &reps {
        let name = sp.name();
        if !k.check(sp.center() == init.c, || format!("{name}: constructed centre {:?} is not the given {:?}", short(&sp.center()), short(&init.c))) {
            return;
        }
        for _ in 0..3 {
            let u: Vec<f64> = k.rng.unit(n).iter().map(|v| v / sc0.sqrt()).collect();
            let w = norm(&ltmul(&l0, n, &u));
            let q = sp.quad(&u);
            k.eval(hvec(hkey(&[n as f64, w]), &u));
            if !k.check((q - w * w).abs() <= 1e-9 * w * w + 1e-12, || {
                format!("{name} ({:?} constructor): uᵀPu = {q:e}, expected {:e} for u={}\n   kappa={} M={}", init.kind, w * w, short(&u), init.kappa, short(&init.m))
            }) {
                return;
            }
        }
    }
    k.ev("constructor comparisons");
    let gentle = k.rng.chance(0.5);
    let steps = if big { 6 } else if gentle { k.rng.int(20, 80) } else { k.rng.int(1, 30) };
    let mut prev = vec![0.0; n];
    // bound on the accumulated relative difference that rounding alone may cause
    let mut drift = 1e-15 * (n as f64);
    for s in 0..steps {
        let v = match view(&reps[0], &mut k.rng) {
            Ok(v) => v,
            Err(_) => {
                k.ev("history ended: degenerate");
                return;
            }
        };
        if v.cond > 1e7 {
            k.ev("history ended: ill-conditioned");
            return;
        }
        let mut v = v;
        if k.rng.chance(0.08) {
            // recentre: nothing else may change
            let x: Vec<f64> = v.c.iter().map(|t| if k.rng.chance(0.3) { *t } else { t + k.rng.sym() * v.lmin.sqrt() }).collect();
            let u: Vec<f64> = k.rng.unit(n).iter().map(|t| t / sc0.sqrt()).collect();
            for sp in reps.iter_mut() {
                let (q, t) = (sp.quad(&u), sp.tsq());
                sp.set_center(&x);
                let ok = sp.center() == x && sp.quad(&u).to_bits() == q.to_bits() && sp.tsq().to_bits() == t.to_bits();
                if !k.check(ok, || format!("{}: set_xc({}) gave centre {}, extent {q:e} -> {:e}, tsq {t:e} -> {:e}", sp.name(), short(&x), short(&sp.center()), sp.quad(&u), sp.tsq())) {
                    return;
                }
            }
            k.ev("recentred");
            v.c = x;
        }
        let mut g = gen_grad(&mut k.rng, n, &prev, gscale(&v));
        if k.rng.chance(0.04) {
            let m = k.rng.logu(-60.0, 60.0);
            g.iter_mut().for_each(|x| *x *= m);
        }
        let tau = norm(&ltmul(&v.l, n, &g));
        let (mut b, mut kind) = gen_beta(&mut k.rng, n, tau);
        if gentle && k.rng.chance(0.9) {
            let a = k.rng.uni(-0.2 / n as f64, 0.15);
            kind = "gentle";
            b = if k.rng.chance(0.5) { Beta::S(a * tau) } else { Beta::P(a * tau, Some((a.abs() + k.rng.uni(0.6, 1.3)) * tau)) };
        }
        let op = *k.rng.pick(&[Op::Bias, Op::Bias, Op::Q, Op::Central]);
        let (ex, lo, hi) = expect(n, op, b.b0() / tau, b.b1().map(|x| x / tau));
        if ex == Expect::Tie || hi - lo < 1e-3 && ex != Expect::NoSoln {
            continue;
        }
        if s > 0 && matches!(ex, Expect::NoSoln | Expect::NoEffect) && k.rng.chance(0.7) {
            continue;
        }
        // a synchronised copy: EllStable rebuilt from Ell's own matrix must take the same step
        if let (Sp::E(e), true) = (&reps[0], k.rng.chance(0.3)) {
            let m = Init { n, kind: Kind::Full, kappa: e.kappa, m: e.mq.data().to_vec(), c: e.xc.data().to_vec() };
            reps.truncate(7);
            reps.push(m.stable());
            k.ev("resynchronised EllStable");
        }
        let sts: Vec<CutStatus> = reps.iter_mut().map(|r| r.upd(op, &g, b)).collect();
        k.ev("steps compared");
        k.eval(hvec(hkey(&[n as f64, tau, b.b0()]), &g));
        let t0 = reps[0].tsq();
        let c0 = reps[0].center();
        let width = v.lmin.sqrt();
        let cmax = c0.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        // an update divides differences by the (squared) relative width it leaves
        let local = 1e-15 * v.cond * n as f64 + 1e-15 * cmax / width;
        drift += local;
        let tol = 1e-7 + 100.0 * drift;
        let shrink = match ex {
            Expect::NoSoln | Expect::NoEffect => 1.0,
            _ => minvol(n, lo, hi).map_or(1.0, |m| m.a2.min(1.0)),
        };
        drift /= shrink;
        for i in 1..reps.len() {
            let nm = format!("{} (#{i}) vs Ell", reps[i].name());
            let what = format!("step {s}, n={n} cond={:.1e} {op:?} [{kind}] g={} {b:?} tau={tau:e}", v.cond, short(&g));
            if !k.check(sts[i] == sts[0], || format!("{nm}: status {} vs {}; {what}", st(&sts[i]), st(&sts[0]))) {
                return;
            }
            let t = reps[i].tsq();
            if !k.check((t - t0).abs() <= tol * t0.abs(), || format!("{nm}: tsq {t:e} vs {t0:e}; {what}")) {
                return;
            }
            let c = reps[i].center();
            let d = norm(&fwd(&v.l, n, &sub(&c, &c0)));
            if !k.check(d <= tol * 10.0 && finite(&c), || format!("{nm}: centres differ by {d:e} half-widths: {:?} vs {:?}; {what}", short(&c), short(&c0))) {
                return;
            }
            for _ in 0..2 {
                let u = bwd(&v.l, n, &k.rng.unit(n));
                let (qa, qb) = (reps[i].quad(&u), reps[0].quad(&u));
                if !k.check((qa - qb).abs() <= tol * 10.0, || format!("{nm}: extent along u={} is {qa:e} vs {qb:e}; {what}", short(&u))) {
                    return;
                }
            }
        }
        k.sample(|| format!("{} representations agree after step {s} ({op:?} [{kind}], n={n}, status {})", reps.len(), st(&sts[0])));
        prev = g;
        if drift > 1e-8 {
            k.ev("history ended: rounding");
            return;
        }
    }
}

/// C06: equivalent descriptions.
pub fn c06(k: &mut Case) {
    let n = if k.rng.chance(0.01) { k.rng.int(17, 80) } else { gen_dim(&mut k.rng, 16) };
    let init = gen_init(&mut k.rng, n, false);
    let mut sp = pick_space(&mut k.rng, &init);
    // a short history first
    let pre = k.rng.int(0, 6);
    let mut prev = vec![0.0; n];
    for _ in 0..pre {
        let g = gen_grad(&mut k.rng, n, &prev, 1.0);
        let t = sp.quad(&g).sqrt();
        let a = k.rng.uni(0.0, 0.3);
        sp.upd(Op::Bias, &g, Beta::S(a * t));
        prev = g;
    }
    let v = match view(&sp, &mut k.rng) {
        Ok(v) if v.cond < 1e7 => v,
        _ => {
            k.ev("history ended: ill-conditioned");
            return;
        }
    };
    for _ in 0..6 {
        let g = gen_grad(&mut k.rng, n, &prev, gscale(&v));
        let tau = norm(&ltmul(&v.l, n, &g));
        let (b, kind) = gen_beta(&mut k.rng, n, tau);
        let op = *k.rng.pick(&[Op::Bias, Op::Q, Op::Central]);
        let (a0, a1) = (b.b0() / tau, b.b1().map(|x| x / tau));
        let (ex, lo, hi) = expect(n, op, a0, a1);
        if ex == Expect::Tie || hi - lo < 1e-3 && ex != Expect::NoSoln {
            continue;
        }
        let mut base = sp.clone();
        let s0 = base.upd(op, &g, b);
        let what = format!("{} n={n} cond={:.1e} {op:?} [{kind}] g={} {b:?} tau={tau:e}", sp.name(), v.cond, short(&g));
        let mut alts: Vec<(String, Sp, CutStatus)> = vec![];
        {
            // positive multiples
            let m = if k.rng.chance(0.3) {
                k.rng.logu(-60.0, 60.0)
            } else {
                *k.rng.pick(&[2.0, 0.5, 3.0, 1e-6, 1e6, 7.25])
            };
            let mut s = sp.clone();
            let gm: Vec<f64> = g.iter().map(|x| x * m).collect();
            let t = s.upd(op, &gm, b.scale(m));
            alts.push((format!("cut multiplied by {m}"), s, t));
        }
        let far = tau * k.rng.uni(1.001, 100.0);
        match b {
            Beta::S(x) => {
                let mut s = sp.clone();
                let t = s.upd(op, &g, Beta::P(x, None));
                alts.push(("as parallel cut without second hyperplane".into(), s, t));
                if far > x {
                    let mut s = sp.clone();
                    let t = s.upd(op, &g, Beta::P(x, Some(far)));
                    alts.push(("with a second hyperplane beyond the ellipsoid".into(), s, t));
                }
            }
            Beta::P(x, None) => {
                let mut s = sp.clone();
                let t = s.upd(op, &g, Beta::S(x));
                alts.push(("as single cut".into(), s, t));
            }
            Beta::P(x, Some(y)) => {
                if y > tau * 1.0001 {
                    let mut s = sp.clone();
                    let t = s.upd(op, &g, Beta::P(x, Some(y.max(far))));
                    alts.push(("with the second hyperplane moved further away".into(), s, t));
                    let mut s = sp.clone();
                    let t = s.upd(op, &g, Beta::S(x));
                    alts.push(("without its irrelevant second hyperplane".into(), s, t));
                }
            }
        }
        if op == Op::Central {
            let mut s = sp.clone();
            let bb = match b {
                Beta::S(_) => Beta::S(0.0),
                Beta::P(_, y) => Beta::P(0.0, y),
            };
            let t = s.upd(Op::Bias, &g, bb);
            alts.push(("central as bias cut of depth 0".into(), s, t));
            let mut s = sp.clone();
            let bb = match b {
                Beta::S(_) => Beta::S(0.37 * tau),
                Beta::P(_, y) => Beta::P(-0.21 * tau, y),
            };
            let t = s.upd(Op::Central, &g, bb);
            alts.push(("central with another first depth".into(), s, t));
        } else if a0 >= 0.0 {
            let mut s = sp.clone();
            let t = s.upd(if op == Op::Bias { Op::Q } else { Op::Bias }, &g, b);
            alts.push(("bias vs q".into(), s, t));
        }
        let c0 = base.center();
        let t0 = base.tsq();
        let cmax = c0.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        let tol = 1e-7 + 1e-12 * v.cond + 1e-14 * cmax / v.lmin.sqrt();
        for (name, s, t) in &alts {
            k.eval(hvec(hkey(&[n as f64, tau, b.b0(), b.b1().unwrap_or(8.8)]), &g) ^ crate::rng::hash_str(name));
            k.ev(&format!("equivalence: {}", name.split(" by ").next().unwrap()));
            if !k.check(*t == s0, || format!("{name}: status {} vs {}; {what}", st(t), st(&s0))) {
                return;
            }
            let d = norm(&fwd(&v.l, n, &sub(&s.center(), &c0)));
            if !k.check(d <= 10.0 * tol, || format!("{name}: centres differ by {d:e} half-widths; {what}")) {
                return;
            }
            for _ in 0..2 {
                let u = bwd(&v.l, n, &k.rng.unit(n));
                let (qa, qb) = (s.quad(&u), base.quad(&u));
                if !k.check((qa - qb).abs() <= 10.0 * tol, || format!("{name}: extents {qa:e} vs {qb:e} along {}; {what}", short(&u))) {
                    return;
                }
            }
            if name.starts_with("cut mult") {
                continue;
            }
            let tt = s.tsq();
            if !k.check((tt - t0).abs() <= 1e-9 * t0, || format!("{name}: tsq {tt:e} vs {t0:e}; {what}")) {
                return;
            }
        }
        k.sample(|| format!("{} descriptions agree: {what}", alts.len() + 1));
    }
    equivariance(k);
}

/// Translate, permute and rescale coordinates of ellipsoid and cuts together.
fn equivariance(k: &mut Case) {
    let n = if k.rng.chance(0.02) { k.rng.int(11, 48) } else { gen_dim(&mut k.rng, 10) };
    let init = Init { kind: Kind::Full, ..gen_init(&mut k.rng, n, false) };
    let perm = k.rng.perm(n);
    let powers = k.rng.chance(0.5);
    let d: Vec<f64> = (0..n)
        .map(|_| if powers { 2f64.powi(k.rng.int(0, 6) as i32 - 3) } else { k.rng.uni(0.3, 3.0) })
        .collect();
    let sh: Vec<f64> = (0..n).map(|_| k.rng.sym() * init.p()[0].sqrt()).collect();
    // y_i = d_i * x_perm(i) + sh_i
    let map = |x: &[f64]| -> Vec<f64> { (0..n).map(|i| d[i] * x[perm[i]] + sh[i]).collect() };
    let mut m2 = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..n {
            m2[i * n + j] = d[i] * d[j] * init.m[perm[i] * n + perm[j]];
        }
    }
    let init2 = Init { m: m2, c: map(&init.c), ..init.clone() };
    let st_a = k.rng.chance(0.5);
    let (mut a, mut b) = if st_a { (init.stable(), init2.stable()) } else { (init.ell(false), init2.ell(k.rng.chance(0.5))) };
    let mut prev = vec![0.0; n];
    // relative rounding difference of the two histories: thin cuts magnify what came before
    let mut err = 0.0f64;
    for s in 0..8 {
        let v = match view(&a, &mut k.rng) {
            Ok(v) if v.cond < 1e7 => v,
            _ => return,
        };
        err += 1e-15 * v.cond;
        let g = gen_grad(&mut k.rng, n, &prev, gscale(&v));
        let tau = norm(&ltmul(&v.l, n, &g));
        let (be, kind) = gen_beta(&mut k.rng, n, tau);
        let op = *k.rng.pick(&[Op::Bias, Op::Q, Op::Central]);
        let (ex, lo, hi) = expect(n, op, be.b0() / tau, be.b1().map(|x| x / tau));
        if ex == Expect::Tie || hi - lo < 1e-3 && ex != Expect::NoSoln {
            continue;
        }
        if ex == Expect::Success || ex == Expect::Shallow {
            let width = (hi.min(1.0) - lo.max(-1.0)).clamp(1e-3, 1.0);
            err *= 1.0 + 0.5 / (width * width);
            if err > 1e-8 {
                k.ev("equivariance history ended: rounding magnified");
                return;
            }
        }
        let g2: Vec<f64> = (0..n).map(|i| g[perm[i]] / d[i]).collect();
        let sa = a.upd(op, &g, be);
        let sb = b.upd(op, &g2, be);
        k.ev("equivariance steps");
        k.eval(hvec(hkey(&[n as f64, tau, be.b0()]), &g2));
        let cmax = a.center().iter().chain(&b.center()).fold(0.0f64, |m, x| m.max(x.abs()));
        let tol = 1e-6 + 1e-11 * v.cond + 1e-13 * cmax / v.lmin.sqrt();
        let (ca, cb) = (a.center(), b.center());
        // back to the x coordinates
        let mut back = vec![0.0; n];
        for i in 0..n {
            back[perm[i]] = (cb[i] - sh[i]) / d[i];
        }
        let dd = norm(&fwd(&v.l, n, &sub(&back, &ca)));
        let (ta, tb) = (a.tsq(), b.tsq());
        if !k.check(sa == sb && dd <= tol && (ta - tb).abs() <= tol * ta, || {
            format!(
                "{} step {s} n={n} {op:?} [{kind}] g={} {be:?}: in transformed coordinates (scale {d:?}, permutation {perm:?}) status {} vs {}, centres differ by {dd:e} half-widths, tsq {ta:e} vs {tb:e}",
                a.name(), short(&g), st(&sb), st(&sa)
            )
        }) {
            return;
        }
        prev = g;
    }
}
