//! Reference geometry, independent of the library's formulas: the part of the unit ball of R^n with
//! lo <= t <= hi along one axis, and the smallest ellipsoid (by numeric search) that contains it.
#[derive(Clone, Copy, Debug)]
pub struct MinVol {
    /// centre along the axis
    pub c: f64,
    /// squared semi-axis along / across the axis
    pub a2: f64,
    pub b2: f64,
    /// log of det = ln a2 + (n-1) ln b2
    pub logdet: f64,
}

fn best_for(n: f64, lo: f64, hi: f64, c: f64) -> Option<(f64, f64, f64)> {
    // maximise ln p + (n-1) ln q with A_i p + B_i q <= 1, p >= q
    let a = [(lo - c) * (lo - c), (hi - c) * (hi - c)];
    let b = [1.0 - lo * lo, 1.0 - hi * hi];
    let mut best: Option<(f64, f64, f64)> = None;
    let mut consider = |p: f64, q: f64| {
        if !(p > 0.0 && q > 0.0 && p.is_finite() && q.is_finite()) {
            return;
        }
        if p < q * (1.0 - 1e-12) {
            return;
        }
        // scale onto the boundary of the feasible set: rounding cannot reject a candidate
        let s = (a[0] * p + b[0] * q).max(a[1] * p + b[1] * q);
        if !(s > 0.0) {
            return;
        }
        let (p, q) = (p / s, q / s);
        let f = p.ln() + (n - 1.0) * q.ln();
        if best.is_none_or(|x| f > x.0) {
            best = Some((f, p, q));
        }
    };
    for i in 0..2 {
        if a[i] > 0.0 && b[i] > 0.0 {
            consider(1.0 / (n * a[i]), (n - 1.0) / (n * b[i]));
        }
    }
    let det = a[0] * b[1] - a[1] * b[0];
    if det != 0.0 {
        consider((b[1] - b[0]) / det, (a[0] - a[1]) / det);
    }
    let m = (a[0] + b[0]).max(a[1] + b[1]);
    if m > 0.0 {
        consider(1.0 / m, 1.0 / m);
    }
    best
}

/// Smallest ellipsoid containing {y in unit ball: lo <= y_1 <= hi}, -1 <= lo < hi <= 1.
pub fn minvol(n: usize, lo: f64, hi: f64) -> Option<MinVol> {
    if n == 1 {
        let w = (hi - lo) / 2.0;
        return Some(MinVol {
            c: (lo + hi) / 2.0,
            a2: w * w,
            b2: 1.0,
            logdet: 2.0 * w.ln(),
        });
    }
    let nf = n as f64;
    let f = |c: f64| best_for(nf, lo, hi, c).map_or(f64::NEG_INFINITY, |x| x.0);
    // the whole ball is always a candidate (c = 0, a = b = 1)
    let mut bc = 0.0;
    let mut bf = if best_for(nf, lo, hi, 0.0).is_some() { f(0.0) } else { f64::NEG_INFINITY };
    let k = 200;
    for i in 0..=k {
        let c = lo + (hi - lo) * i as f64 / k as f64;
        let v = f(c);
        if v > bf {
            bf = v;
            bc = c;
        }
    }
    let h = (hi - lo) / k as f64;
    let (mut a, mut b) = ((bc - h).max(lo), (bc + h).min(hi));
    let g = (5f64.sqrt() - 1.0) / 2.0;
    let (mut x1, mut x2) = (b - g * (b - a), a + g * (b - a));
    let (mut f1, mut f2) = (f(x1), f(x2));
    for _ in 0..70 {
        if f1 > f2 {
            b = x2;
            x2 = x1;
            f2 = f1;
            x1 = b - g * (b - a);
            f1 = f(x1);
        } else {
            a = x1;
            x1 = x2;
            f1 = f2;
            x2 = a + g * (b - a);
            f2 = f(x2);
        }
    }
    let m = (a + b) / 2.0;
    if f(m) > bf {
        bc = m;
        bf = f(m);
    }
    let _ = bf;
    let (l, p, q) = best_for(nf, lo, hi, bc)?;
    let mut r = MinVol {
        c: bc,
        a2: 1.0 / p,
        b2: 1.0 / q,
        logdet: -l,
    };
    if r.logdet > 0.0 {
        r = MinVol { c: 0.0, a2: 1.0, b2: 1.0, logdet: 0.0 };
    }
    Some(r)
}
