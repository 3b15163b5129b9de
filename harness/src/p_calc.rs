//! C07: the cut calculator. Parameters (rho, sigma, delta) are read as the ellipsoid they describe in
//! the coordinates where the old one is the unit ball and t = g.(x-c)/tau is the first axis: centre
//! -rho/tau, squared semi-axes delta(1-sigma) along and delta across.
use crate::mon::*;
use crate::p_space::{expect, st, Expect};
use crate::refgeo::minvol;
use crate::space::*;
use ellalgo_rs::cutting_plane::{CutStatus, ParallelCut};
use ellalgo_rs::ell_calc::{EllCalc, EllCalcCore};

type Res = (CutStatus, (f64, f64, f64));

fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * (a.abs() + b.abs())
}
/// same status and, on Success, the same parameters (rho compared on the scale of tau)
fn same(a: &Res, b: &Res, tau: f64, tol: f64) -> bool {
    if a.0 != b.0 {
        return false;
    }
    if a.0 != CutStatus::Success {
        return true;
    }
    let ((r, s, d), (r2, s2, d2)) = (a.1, b.1);
    (r - r2).abs() <= tol * tau && (s - s2).abs() <= tol && close(d, d2, tol)
}

fn direct(c: &EllCalc, op: Op, b: Beta, tsq: f64) -> Res {
    match (op, b) {
        (Op::Bias, Beta::S(x)) => c.calc_bias_cut(x, tsq),
        (Op::Q, Beta::S(x)) => c.calc_bias_cut_q(x, tsq),
        (Op::Central, Beta::S(_)) => c.calc_central_cut(tsq),
        (Op::Bias, Beta::P(x, Some(y))) => c.calc_parallel_bias_cut(x, y, tsq),
        (Op::Q, Beta::P(x, Some(y))) => c.calc_parallel_q(x, y, tsq),
        (Op::Central, Beta::P(_, Some(y))) => c.calc_parallel_central_cut(y, tsq),
        (op, Beta::P(x, None)) => direct(c, op, Beta::S(x), tsq),
    }
}
fn combined(c: &EllCalc, op: Op, b: Beta, tsq: f64) -> Res {
    let pc = ParallelCut(b.b0(), b.b1());
    match op {
        Op::Bias => c.calc_single_or_parallel_bias_cut(&pc, tsq),
        Op::Q => c.calc_single_or_parallel_q(&pc, tsq),
        Op::Central => c.calc_single_or_parallel_central_cut(&pc, tsq),
    }
}

/// does the described ellipsoid contain the kept part, and how large is it
fn judge(k: &mut Case, n: usize, lo: f64, hi: f64, tau: f64, p: (f64, f64, f64), shallow: bool, ctx: &str) -> bool {
    let nf = n as f64;
    let (rho, sigma, delta) = p;
    if !k.check(rho.is_finite() && sigma.is_finite() && delta.is_finite(), || format!("parameters not finite: {p:?}; {ctx}")) {
        return false;
    }
    let c = -rho / tau;
    let (a2, b2) = (delta * (1.0 - sigma), delta);
    let w = hi - lo;
    if w < 1e-5 {
        return true;
    }
    if !k.check(a2 > 0.0 && b2 > 0.0, || format!("the described ellipsoid is not positive definite: {p:?}; {ctx}")) {
        return false;
    }
    // rounding of sigma near one is magnified in 1-sigma
    let e = 1e-9 + 2e-15 * delta / a2 + 1e-15 / a2.sqrt();
    for t in [lo, hi, 0.5 * (lo + hi)] {
        let f = (t - c) * (t - c) / a2 + if n > 1 { (1.0 - t * t) / b2 } else { 0.0 };
        if !k.check(f <= 1.0 + 4.0 * e, || {
            format!("points at t={t} of the kept part [{lo},{hi}] are outside the described ellipsoid: form {f:.12}; parameters {p:?}; {ctx}")
        }) {
            return false;
        }
    }
    let ld = a2.ln() + (nf - 1.0) * b2.ln();
    if shallow {
        return k.check(ld <= 1e-9 * nf, || format!("the described ellipsoid is larger than the old one: {p:?}; {ctx}"));
    }
    let m = match minvol(n, lo, hi) {
        Some(m) => m,
        None => return true,
    };
    k.ev("compared with the minimum-volume ellipsoid");
    if !k.check((ld - m.logdet).abs() <= 4.0 * e + 1e-11 * nf, || {
        format!("log volume {ld:.12} instead of the minimum {:.12} over [{lo},{hi}]; parameters {p:?}; {ctx}", m.logdet)
    }) {
        return false;
    }
    k.check((c - m.c).abs() <= 1e-3 * w.max(a2.sqrt()), || format!("centre at {c} instead of {}; parameters {p:?}; {ctx}", m.c))
}

pub fn c07(k: &mut Case) {
    let n = match k.rng.int(0, 5) {
        0 => 1,
        1 => 2,
        2 => k.rng.int(2, 5),
        3 => k.rng.int(5, 40),
        4 if k.rng.chance(0.05) => k.rng.int(1000, 300_000),
        4 => k.rng.int(40, 1000),
        _ => k.rng.int(1, 10),
    };
    let calc = EllCalc::new(n);
    let core = EllCalcCore::new(n as f64);
    let mut off = EllCalc::new(n);
    off.use_parallel_cut = false;
    for round in 0..20 {
        let tau = match k.rng.int(0, 3) {
            0 => k.rng.logu(-60.0, 60.0),
            1 => *k.rng.pick(&[1.0, 0.1, 2.0, 10.0]),
            _ => k.rng.logu(-3.0, 3.0),
        };
        let tsq = tau * tau;
        let (mut b, mut kind) = gen_beta(&mut k.rng, n, tau);
        if round % 10 == 9 {
            // both hyperplanes coincide
            let a = k.rng.uni(-0.9, 0.9);
            b = Beta::P(a * tau, Some(a * tau));
            kind = "coinciding";
        }
        let op = *k.rng.pick(&[Op::Bias, Op::Q, Op::Central]);
        let (a0, a1) = (b.b0() / tau, b.b1().map(|x| x / tau));
        let (ex, lo, hi) = expect(n, op, a0, a1);
        let ctx = format!("{op:?} [{kind}] n={n} tau={tau:e} alpha0={a0} alpha1={a1:?}");
        k.ev(&format!("kind {kind}"));
        k.eval(hkey(&[n as f64, tau, b.b0(), b.b1().unwrap_or(9.9), op as u8 as f64]));
        let r = direct(&calc, op, b, tsq);
        k.ev(&format!("status {}", st(&r.0)));
        let rc = combined(&calc, op, b, tsq);
        if !k.check(same(&r, &rc, tau, 1e-12), || format!("combined entry point gives {rc:?}, direct one {r:?}; {ctx}")) {
            return;
        }
        if kind == "coinciding" {
            if op != Op::Central {
                // the equality g.(x-c) = -beta has solutions: the limit of thin slabs
                let nf = n as f64;
                let d = if n == 1 { r.1 .2 } else { nf / (nf - 1.0) * (1.0 - a0 * a0) };
                let ok = r.0 == CutStatus::Success && (r.1 .0 / tau - a0).abs() <= 1e-6 && (n == 1 || (r.1 .1 - 1.0).abs() <= 1e-6 && close(r.1 .2, d, 1e-6));
                let flat = (r.1 .2 * (1.0 - r.1 .1)).abs() <= 1e-6;
                if !k.check(ok && flat, || format!("coinciding hyperplanes: {r:?}, expected Success (rho/tau {a0}, sigma 1, delta {d}); {ctx}")) {
                    return;
                }
            }
            continue;
        }
        let ok = match ex {
            Expect::Tie => true,
            Expect::Shallow => matches!(r.0, CutStatus::Success | CutStatus::NoEffect),
            Expect::NoSoln => r.0 == CutStatus::NoSoln,
            Expect::NoEffect => r.0 == CutStatus::NoEffect,
            Expect::Success => r.0 == CutStatus::Success,
        };
        if !k.check(ok, || format!("expected {ex:?}, got {r:?}; {ctx}")) {
            return;
        }
        if ex == Expect::Tie {
            k.ev("tie (not judged)");
            continue;
        }
        if r.0 == CutStatus::Success && !judge(k, n, lo, hi, tau, r.1, ex == Expect::Shallow, &ctx) {
            return;
        }
        // scaling of lengths
        let mut s = *k.rng.pick(&[1e-20, 1e20, 3.7, 0.125, 1e6]);
        if !(1e-60..1e60).contains(&(s * tau)) {
            s = 1.0 / s; // the squares of squares stay representable
        }
        let rs = direct(&calc, op, b.scale(s), (tau * s) * (tau * s));
        let q = rs.1;
        let back = (rs.0, (q.0 / s, q.1, q.2));
        let tol = 1e-9 + if r.0 == CutStatus::Success { 1e-14 / (r.1 .2 * (1.0 - r.1 .1)).abs().max(1e-9) } else { 0.0 };
        if !k.check(same(&r, &back, tau, tol), || format!("lengths scaled by {s}: {q:?} instead of (s*rho, sigma, delta) of {r:?}; {ctx}")) {
            return;
        }
        // parallel switched off
        let ro = direct(&off, op, b, tsq);
        match b {
            Beta::S(_) | Beta::P(_, None) => {
                if !k.check(same(&r, &ro, tau, 1e-12), || format!("use_parallel_cut=false changes a single cut: {ro:?} vs {r:?}; {ctx}")) {
                    return;
                }
            }
            Beta::P(x, Some(y)) => {
                let crossed = y < if op == Op::Central { 0.0 } else { x };
                if !crossed && y > -tau {
                    let rs = direct(&calc, op, Beta::S(x), tsq);
                    k.ev("use_parallel_cut off compared");
                    if !k.check(same(&ro, &rs, tau, 1e-12), || format!("use_parallel_cut=false: {ro:?}, first hyperplane alone: {rs:?}; {ctx}")) {
                        return;
                    }
                }
            }
        }
        // alternative formulas of the core
        if n >= 2 && r.0 == CutStatus::Success {
            let p = r.1;
            let w = |q: (f64, f64, f64)| (CutStatus::Success, q);
            match (op, b) {
                (Op::Central, Beta::S(_)) => {
                    let q = [core.calc_bias_cut(0.0, tau), core.calc_bias_cut_fast(0.0, tau, tau), core.calc_central_cut(tsq)];
                    for x in q {
                        if !k.check(same(&w(x), &w(p), tau, 1e-9), || format!("core formulas for a central cut disagree: {x:?} vs {p:?}; {ctx}")) {
                            return;
                        }
                    }
                    k.ev("core alternatives compared");
                }
                (Op::Bias | Op::Q, Beta::S(x)) => {
                    let q = [core.calc_bias_cut(x, tau), core.calc_bias_cut_fast(x, tau, tau + n as f64 * x)];
                    for y in q {
                        if !k.check(same(&w(y), &w(p), tau, 1e-9), || format!("core formulas for a bias cut disagree: {y:?} vs {p:?}; {ctx}")) {
                            return;
                        }
                    }
                    k.ev("core alternatives compared");
                }
                (Op::Bias | Op::Q, Beta::P(x, Some(y))) if a1.unwrap() < 1.0 - 1e-6 && a0 > -1.0 + 1e-6 => {
                    let b0b1 = x * y;
                    let eta = tsq + n as f64 * b0b1;
                    let ba = (x + y) * 0.5;
                    let hs = (tsq + b0b1) * 0.5 + n as f64 * ba * ba;
                    let kap = hs + (hs * hs - eta * (n as f64 + 1.0) * ba * ba).max(0.0).sqrt();
                    let amp = kap / (kap - eta).abs().max(1e-300);
                    let mut q = vec![(core.calc_parallel_bias_cut(x, y, tsq), 1e-9), (core.calc_parallel_bias_cut_fast(x, y, tsq, b0b1, eta), 1e-9)];
                    let disc = hs * hs - eta * (n as f64 + 1.0) * ba * ba;
                    if amp < 1e4 && disc > 1e-6 * hs * hs {
                        q.push((core.calc_parallel_bias_cut_fast_old(x, y, tsq, b0b1, eta), 1e-8));
                        k.ev("old parallel formula compared");
                    }
                    for (z, t) in q {
                        if !k.check(same(&w(z), &w(p), tau, t), || format!("core formulas for a parallel cut disagree: {z:?} vs {p:?}; {ctx}")) {
                            return;
                        }
                    }
                    k.ev("core alternatives compared");
                }
                (Op::Central, Beta::P(_, Some(y))) if y < tau * (1.0 - 1e-6) && y > 1e-6 * tau => {
                    let q = [core.calc_parallel_central_cut(y, tsq), core.calc_parallel_bias_cut(0.0, y, tsq)];
                    for z in q {
                        if !k.check(same(&w(z), &w(p), tau, 1e-8), || format!("core formulas for a parallel central cut disagree: {z:?} vs {p:?}; {ctx}")) {
                            return;
                        }
                    }
                    k.ev("core alternatives compared");
                }
                _ => {}
            }
        }
        k.sample(|| format!("{ctx} -> {r:?}"));
    }
}
