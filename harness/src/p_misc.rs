//! C34: options, cuts, statuses and errors carry and show what they hold.
use crate::mon::Case;
use crate::rng::{hash_str, mix};
use ellalgo_rs::cutting_plane::{CutStatus, Options, ParallelCut, SingleCut};
use ellalgo_rs::error::{EllipsoidError, EllipsoidResult};

fn word(k: &mut Case) -> String {
    let n = k.rng.int(0, 24);
    (0..n).map(|_| *k.rng.pick(&['a', 'k', 'Z', ' ', '7', '.', '(', '{', '}', '%', '\\', '\n', 'é', '漢', '"', ':'])).collect()
}
fn num(k: &mut Case) -> f64 {
    match k.rng.int(0, 4) {
        0 => k.rng.normal(),
        1 => k.rng.logu(-300.0, 300.0),
        2 => -k.rng.logu(-20.0, 20.0),
        3 => k.rng.int(0, 2000) as f64,
        _ => *k.rng.pick(&[0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324]),
    }
}
fn count(k: &mut Case) -> usize {
    match k.rng.int(0, 3) {
        0 => k.rng.int(0, 3),
        1 => *k.rng.pick(&[usize::MAX, u32::MAX as usize, u32::MAX as usize + 1, 65536, 65535, i32::MAX as usize + 1]),
        _ => k.rng.int(0, 5_000_000),
    }
}
/// the numbers written in a text
fn numbers(s: &str) -> Vec<f64> {
    s.split(|c: char| !(c.is_ascii_digit() || "+-.eEinf".contains(c)))
        .filter_map(|t| t.trim_end_matches('.').parse::<f64>().ok())
        .collect()
}
fn error(k: &mut Case) -> EllipsoidError {
    match k.rng.int(0, 4) {
        0 => EllipsoidError::NonConvergence {
            iterations: count(k),
            max_iters: count(k),
            final_value: if k.rng.chance(0.5) { Some(num(k)) } else { None },
        },
        1 => EllipsoidError::Infeasible { reason: word(k) },
        2 => EllipsoidError::NumericalInstability { details: word(k), value: if k.rng.chance(0.5) { Some(num(k)) } else { None } },
        3 => EllipsoidError::InvalidParameters { details: word(k) },
        _ => EllipsoidError::MatrixError { details: word(k) },
    }
}

pub fn c34(k: &mut Case) {
    // options
    let (m, t) = (count(k), num(k));
    let o = Options::new(m, t);
    k.eval(mix(m as u64 ^ t.to_bits()));
    k.ev("options built");
    if !k.check(o.max_iters == m && o.tolerance.to_bits() == t.to_bits() && !o.verbose, || {
        format!("Options::new({m}, {t:e}) holds max_iters {}, tolerance {:e}, verbose {}", o.max_iters, o.tolerance, o.verbose)
    }) {
        return;
    }
    let o = Options::default();
    if !k.check(o.max_iters == 2000 && o.tolerance == 1e-20 && !o.verbose, || {
        format!("Options::default() holds max_iters {}, tolerance {:e}, verbose {}", o.max_iters, o.tolerance, o.verbose)
    }) {
        return;
    }
    // cuts
    let (b0, b1) = (num(k), if k.rng.chance(0.5) { Some(num(k)) } else { None });
    let c = ParallelCut(b0, b1);
    let d = c;
    k.ev("cuts built");
    if !k.check(
        c.beta0().to_bits() == b0.to_bits()
            && c.beta1().map(f64::to_bits) == b1.map(f64::to_bits)
            && c == d
            && (c == ParallelCut(b0, None)) == b1.is_none()
            && SingleCut(b0) == SingleCut(b0),
        || format!("ParallelCut({b0:e}, {b1:?}) reads back as {:?}, {:?}", c.beta0(), c.beta1()),
    ) {
        return;
    }
    // statuses: each shows its own meaning
    let all = [
        (CutStatus::Success, "success"),
        (CutStatus::NoSoln, "no solution"),
        (CutStatus::NoEffect, "no effect"),
        (CutStatus::Unknown, "unknown"),
    ];
    for (i, (s, w)) in all.iter().enumerate() {
        let text = s.to_string().to_lowercase();
        k.ev("statuses shown");
        let only = all.iter().enumerate().all(|(j, (_, v))| text.contains(v) == (i == j));
        let eq = all.iter().enumerate().all(|(j, (r, _))| (r == s) == (i == j));
        if !k.check(only && eq, || format!("status {s:?} ({w}) is shown as {s}")) {
            return;
        }
    }
    // errors
    for _ in 0..4 {
        let e = error(k);
        let f = error(k);
        k.eval(hash_str(&format!("{e:?}")));
        let r: EllipsoidResult<()> = Err(e.clone());
        let b: Box<dyn std::error::Error> = Box::new(e.clone());
        let text = e.to_string();
        if !k.check(b.to_string() == text && r == Err(e.clone()) && e.clone() == e && e.clone().to_string() == text, || {
            format!("{e:?} and its copies differ")
        }) {
            return;
        }
        k.ev("errors shown");
        if e != f {
            k.ev("different errors compared");
            if !k.check(text != f.to_string(), || format!("{e:?} and {f:?} are shown alike: {text}")) {
                return;
            }
        }
        let ok = match &e {
            EllipsoidError::NonConvergence { iterations, max_iters, final_value } => {
                let ns = numbers(&text);
                let has = |v: f64| ns.iter().any(|x| *x == v || (x - v).abs() <= 1e-3 * v.abs());
                k.ev(if final_value.is_some() { "with a final value" } else { "without a final value" });
                text.contains(&iterations.to_string())
                    && text.contains(&max_iters.to_string())
                    && final_value.map_or(ns.len() == 2, |v| ns.len() == 3 && has(v))
            }
            EllipsoidError::NumericalInstability { details, value } => {
                let rest = text.replacen(details.as_str(), "", 1);
                let ns = numbers(&rest);
                text.contains(details.as_str())
                    && value.map_or(true, |v| ns.iter().any(|x| *x == v || (x - v).abs() <= 1e-3 * v.abs()))
            }
            EllipsoidError::Infeasible { reason } => text.contains(reason.as_str()),
            EllipsoidError::InvalidParameters { details } | EllipsoidError::MatrixError { details } => text.contains(details.as_str()),
        };
        if !k.check(ok, || format!("{e:?} is shown as {text}")) {
            return;
        }
    }
}
