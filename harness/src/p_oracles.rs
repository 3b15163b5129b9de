//! C18-C23, C26, C27: the packaged oracles, queried with a history and driven by the real drivers.
use crate::lin::*;
use crate::mon::*;
use crate::rng::Rng;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_stable::EllStable;
use ellalgo_rs::oracles::lowpass_oracle::{create_lowpass_case, LowpassOracle};
use ellalgo_rs::oracles::maxcut_oracle::MaxcutOracle;
use ellalgo_rs::oracles::profit_oracle::{ProfitOracle, ProfitOracleQ, ProfitRbOracle};
use ellalgo_rs::oracles::svm_oracle::SvmOracle;
use ellalgo_rs::quasicvx::MyOracle;

fn arr(v: &[f64]) -> Arr {
    Arr::from(v.to_vec())
}
fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}
fn vclose(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol)
}

// ---------------------------------------------------------------- C18 lowpass oracle
struct Band {
    n: usize,
    m: usize,
    wp: f64,
    ws: f64,
}
impl Band {
    fn row(&self, i: usize) -> Vec<f64> {
        let w = std::f64::consts::PI * i as f64 / (self.m - 1) as f64;
        (0..self.n).map(|j| if j == 0 { 1.0 } else { 2.0 * (w * j as f64).cos() }).collect()
    }
    /// 0 pass, 1 transition, 2 stop
    fn kind(&self, i: usize) -> u8 {
        let f = i as f64 / (self.m - 1) as f64;
        if f <= self.wp {
            0
        } else if f <= self.ws {
            1
        } else {
            2
        }
    }
}
fn edge(r: &mut Rng, m: usize, lo: f64, hi: f64) -> f64 {
    loop {
        let w = r.uni(lo, hi);
        let k = w * (m - 1) as f64;
        let d = (k - k.round()).abs();
        if d > 1e-6 {
            return w;
        }
    }
}

/// (gradient, depth, opposite depth) of every violated constraint, and whether any constraint is a tie
fn lowpass_truth(b: &Band, rows: &[Vec<f64>], x: &[f64], lp: f64, up: f64, sp: f64, eps: f64) -> (f64, Vec<(usize, f64, f64, Option<f64>)>, f64) {
    // returns (largest violation, candidate cuts as (index or m for x0, sign, depth, opposite), peak of the stop band)
    let mut worst = f64::NEG_INFINITY;
    let mut cuts = vec![];
    let mut peak = f64::NEG_INFINITY;
    for (i, row) in rows.iter().enumerate() {
        let v = dot(row, x);
        match b.kind(i) {
            0 => {
                worst = worst.max(v - up).max(lp - v);
                if v - up > -eps {
                    cuts.push((i, 1.0, v - up, Some(v - lp)));
                }
                if lp - v > -eps {
                    cuts.push((i, -1.0, lp - v, Some(up - v)));
                }
            }
            1 => {
                worst = worst.max(-v);
                if -v > -eps {
                    cuts.push((i, -1.0, -v, None));
                }
            }
            _ => {
                peak = peak.max(v);
                worst = worst.max(v - sp).max(-v);
                if v - sp > -eps {
                    cuts.push((i, 1.0, v - sp, Some(v)));
                }
                if -v > -eps {
                    cuts.push((i, -1.0, -v, Some(sp - v)));
                }
            }
        }
    }
    worst = worst.max(-x[0]);
    if -x[0] > -eps {
        cuts.push((rows.len(), -1.0, -x[0], None));
    }
    (worst, cuts, peak)
}

pub fn c18(c: &mut Case) {
    let r = &mut c.rng;
    let n = if r.chance(0.1) { 1 } else if r.chance(0.0005) { r.int(65, 140) } else { if r.chance(0.01) { r.int(21, 64) } else { r.int(2, if c.tier == Tier::Thorough { 40 } else { 20 }) } };
    let m = 15 * n;
    // a special family in which only the sign of the leading coefficient can be wrong
    let lead = n >= 2 && r.chance(0.05);
    let wp = if lead { edge(r, m, 0.6, 0.8) } else { edge(r, m, 0.02, 0.6) };
    let ws = edge(r, m, wp + 0.02, 0.95);
    let b = Band { n, m, wp, ws };
    let rows: Vec<Vec<f64>> = (0..m).map(|i| b.row(i)).collect();
    // a response of roughly lowpass shape, then levels placed around it so that it is inside or just outside
    let smooth = r.uni(0.0, 1.0);
    let mut x: Vec<f64> = (0..n)
        .map(|j| {
            let wc = std::f64::consts::PI * 0.5 * (wp + ws);
            let ideal = if j == 0 { wc / std::f64::consts::PI } else { (wc * j as f64).sin() / (std::f64::consts::PI * j as f64) };
            ideal * (1.0 - smooth * j as f64 / n as f64)
        })
        .collect();
    let amp = *r.pick(&[0.0, 1e-3, 0.1, 1.0]);
    for v in x.iter_mut() {
        *v += amp * r.normal() / n as f64;
    }
    let resp = |x: &[f64]| -> Vec<f64> { rows.iter().map(|w| dot(w, x)).collect() };
    // lift so that the response is non-negative off the pass band
    let v = resp(&x);
    let low = (0..m).filter(|&i| b.kind(i) > 0).map(|i| v[i]).fold(f64::INFINITY, f64::min);
    let lift = r.logu(-6.0, -1.0);
    x[0] += lift - low;
    if lead {
        x = vec![0.0; n];
        let tiny = if r.chance(0.4) { -250.0 } else { -6.0 };
        x[0] = r.logu(tiny, -1.0) * if r.chance(0.5) { 1.0 } else { -1.0 };
        x[1] = -1.0;
    }
    let v = resp(&x);
    let pmin = (0..m).filter(|&i| b.kind(i) == 0).map(|i| v[i]).fold(f64::INFINITY, f64::min);
    let pmax = (0..m).filter(|&i| b.kind(i) == 0).map(|i| v[i]).fold(f64::NEG_INFINITY, f64::max);
    let smax = (0..m).filter(|&i| b.kind(i) == 2).map(|i| v[i]).fold(f64::NEG_INFINITY, f64::max);
    let s1 = r.logu(-6.0, -1.0);
    let s2 = r.logu(-6.0, -1.0);
    let s3 = r.logu(-6.0, -1.0);
    let (mut lp, mut up, mut sp) = (pmin - s1, pmax + s2, smax + s3);
    match r.int(0, 7) {
        0 => lp = pmin + s1.min(0.4 * (pmax - pmin).max(s2)),
        1 => up = pmax - s2.min(0.4 * (pmax - pmin).max(s1)),
        2 => sp = smax - s3,
        _ => {}
    }
    if !(lp < up) || sp <= 0.0 {
        return;
    }
    let mut o = LowpassOracle::new(n, wp, ws, lp, up, sp);
    let scale = 1.0 + lp.abs().max(up.abs()).max(sp) + norm(&x);
    let steps = r.int(1, 14);
    let mut hist = vec![];
    for _ in 0..steps {
        let mut q = x.clone();
        match c.rng.int(0, 9) {
            0 => {}
            1 => {
                let s = c.rng.logu(-7.0, 0.0);
                for t in q.iter_mut() {
                    *t += s * c.rng.normal();
                }
            }
            2 => q[0] -= lift * c.rng.uni(0.0, 2.0),
            3 => {
                let k = c.rng.int(0, m - 1);
                let s = c.rng.logu(-7.0, -1.0) * if c.rng.chance(0.5) { -1.0 } else { 1.0 };
                q = axpy(&q, s / n as f64, &rows[k]);
            }
            4 => q = vec![0.0; n],
            5 => q = c.rng.normals(n),
            6 => {
                let s = c.rng.logu(-5.0, 0.5);
                for t in q.iter_mut() {
                    *t *= 1.0 + if c.rng.chance(0.5) { s } else { -s };
                }
            }
            7 => q[0] = -c.rng.logu(-6.0, 0.0),
            _ => {
                // one coefficient only
                let k = c.rng.int(0, n - 1);
                let s = c.rng.logu(-6.0, -1.0);
                q[k] += if c.rng.chance(0.5) { s } else { -s };
            }
        }
        let optim = c.rng.chance(0.5);
        let mut gam = match c.rng.int(0, 3) {
            0 => sp,
            1 => sp * c.rng.uni(0.5, 1.5),
            2 => smax + c.rng.logu(-6.0, -1.0),
            _ => c.rng.logu(-4.0, 0.5),
        };
        let level = if optim { gam } else { o.sp_sq };
        let sc = scale + norm(&q) + level.abs();
        let eps = 1e-10 * sc * n as f64;
        let (worst, cand, peak) = lowpass_truth(&b, &rows, &q, lp, up, level, eps);
        let xq = arr(&q);
        let gam0 = gam;
        let (cut, shrunk) = if optim {
            let (cut, s) = o.assess_optim(&xq, &mut gam);
            (Some(cut), s)
        } else {
            let cut = o.assess_feas(&xq);
            let s = cut.is_none();
            (cut, s)
        };
        hist.push((q.clone(), optim));
        c.eval(hvec(hkey(&[wp, ws, lp, up, level, optim as u8 as f64]), &q));
        let ctx = || format!("n={n} wpass={wp} wstop={ws} lp={lp} up={up} level={level} optim={optim} x={q:?} (query {} of this oracle)", hist.len());
        let rest = rows.iter().enumerate().all(|(i, row)| {
            let v = dot(row, &q);
            match b.kind(i) {
                0 => v < up - eps && v > lp + eps,
                1 => v > eps,
                _ => v > eps && v < level - eps,
            }
        });
        if rest && q[0].abs() <= eps {
            // only the sign of the leading coefficient decides, and that is exact
            c.ev("sign of the leading coefficient judged exactly");
            if !c.check(shrunk == (q[0] >= 0.0), || format!("verdict {shrunk} for a leading coefficient of {:e}: {}", q[0], ctx())) {
                return;
            }
        } else if worst.abs() <= eps {
            c.ev("ties not judged");
        } else {
            c.ev(match (optim, shrunk) {
                (false, true) => "accepted",
                (false, false) => "refused",
                (true, true) => "improved",
                (true, false) => "not improved",
            });
            if !c.check(shrunk == (worst < 0.0), || format!("verdict {shrunk} but the largest violation is {worst:e}: {}", ctx())) {
                return;
            }
        }
        if !c.check(xq.data() == &q[..], || format!("query modified: {}", ctx())) {
            return;
        }
        if shrunk {
            if optim {
                let (g, ParallelCut(b0, b1)) = cut.unwrap();
                let ok = close(gam, peak, eps)
                    && b0 == 0.0
                    && b1.map_or(true, |t| close(t, peak, eps))
                    && rows.iter().enumerate().any(|(i, row)| b.kind(i) == 2 && dot(row, &q) >= peak - eps && vclose(row, g.data(), 1e-9));
                if !c.check(ok, || format!("improvement: gamma {gam} (stop-band peak {peak}), cut {:?} {b0} {b1:?}: {}", g.data(), ctx())) {
                    return;
                }
            }
        } else {
            let (g, ParallelCut(b0, b1)) = cut.unwrap();
            if !c.check(!optim || gam == gam0, || format!("gamma changed {gam0} -> {gam} without improvement: {}", ctx())) {
                return;
            }
            let mut hit = None;
            for (i, s, d, opp) in &cand {
                let row: Vec<f64> = if *i == m {
                    (0..n).map(|j| if j == 0 { 1.0 } else { 0.0 }).collect()
                } else {
                    rows[*i].clone()
                };
                let gok = row.iter().zip(g.data()).all(|(a, t)| (a * s - t).abs() <= 1e-9);
                let ook = match (opp, b1) {
                    (None, None) => true,
                    (Some(a), Some(t)) => close(*a, t, eps),
                    _ => false,
                };
                if gok && g.len() == n && close(*d, b0, eps) && ook {
                    hit = Some(*i);
                    break;
                }
            }
            if !c.check(hit.is_some(), || format!("cut {:?} {b0} {b1:?} is not that of a violated constraint: {}", g.data(), ctx())) {
                return;
            }
            let i = hit.unwrap();
            c.ev(if i == m {
                "cut: leading coefficient"
            } else {
                ["cut: pass band", "cut: transition band", "cut: stop band"][b.kind(i) as usize]
            });
        }
        c.sample(|| format!("n={n} wpass={wp:.3} wstop={ws:.3} level={level:.3e} worst violation {worst:.2e} accepted {shrunk}"));
    }
}

// ---------------------------------------------------------------- C19 packaged case
pub fn c19(c: &mut Case) {
    let small = c.idx >= if c.thorough() { 400 } else { 24 };
    let n = if small { c.rng.int(1, 60) } else { *c.rng.pick(&[24usize, 28, 32, 32]) };
    let o = create_lowpass_case(n);
    let (lp, up, sp) = (o.lp_sq, o.up_sq, o.sp_sq);
    let m = 15 * n;
    c.eval(hkey(&[n as f64, c.idx as f64]));
    let ok = 0.0 < lp && lp < 1.0 && 1.0 < up && close(lp * up, 1.0, 1e-9) && 0.0 < sp && sp < lp;
    if !c.check(ok, || format!("levels lp={lp} up={up} sp={sp}")) {
        return;
    }
    let (np, ns) = (o.nwpass, o.nwstop);
    if !c.check(np > 0 && np <= ns && (n < 2 || np < ns) && ns < m as i32, || format!("n={n}: bands nwpass={np} nwstop={ns} of {m}")) {
        return;
    }
    let b = Band { n, m, wp: (np as f64 - 0.5) / (m - 1) as f64, ws: (ns as f64 - 0.5) / (m - 1) as f64 };
    if !c.check(o.spectrum.len() == m, || format!("{} frequencies, expected {m}", o.spectrum.len())) {
        return;
    }
    for i in 0..m {
        let row = b.row(i);
        if !c.check(vclose(&row, o.spectrum[i].data(), 1e-9), || format!("n={n} spectrum row {i}: {:?} expected {row:?}", o.spectrum[i].data())) {
            return;
        }
    }
    c.evn("spectrum rows compared", m as u64);
    if small {
        return;
    }
    // complete designs on both ellipsoids
    let rows: Vec<Vec<f64>> = (0..m).map(|i| b.row(i)).collect();
    let mut peaks = vec![];
    for stable in [false, true] {
        let kappa = *c.rng.pick(&[40.0, 40.0, 20.0, 60.0]);
        let mut o = create_lowpass_case(n);
        let mut gam = o.sp_sq;
        let opts = Options { max_iters: 80_000, tolerance: 1e-14, verbose: c.rng.chance(0.2) };
        let x0 = Arr::new(n);
        let (x, it) = if stable {
            let mut e = EllStable::new_with_scalar(kappa, x0);
            cutting_plane_optim(&mut o, &mut e, &mut gam, &opts)
        } else {
            let mut e = Ell::new_with_scalar(kappa, x0);
            if c.rng.chance(0.3) {
                e.no_defer_trick = true;
            }
            cutting_plane_optim(&mut o, &mut e, &mut gam, &opts)
        };
        c.eval(hkey(&[n as f64, kappa, stable as u8 as f64]));
        c.evn("design iterations observed", it as u64);
        let what = if stable { "EllStable" } else { "Ell" };
        let x = match x {
            None => {
                c.fail(format!("no design found for n={n} kappa={kappa} on {what} after {it} iterations"));
                return;
            }
            Some(x) => x,
        };
        c.ev(&format!("designs on {what}"));
        let (worst, _, peak) = lowpass_truth(&b, &rows, x.data(), lp, up, sp, 0.0);
        c.check(worst <= 1e-9, || format!("n={n} {what}: returned design violates the specification by {worst:e}"));
        c.check(close(peak, gam, 1e-9), || format!("n={n} {what}: gamma {gam} but the stop-band peak is {peak}"));
        c.check(it < 80_000, || format!("n={n} {what}: did not finish"));
        peaks.push(gam);
        c.sample(|| format!("n={n} kappa={kappa} {what}: stop-band peak {gam:.6} in {it} iterations"));
    }
    c.ev("designs compared across ellipsoids");
    c.check((peaks[0] - peaks[1]).abs() <= 1e-2 * peaks[0], || format!("n={n}: stop-band peaks {peaks:?} differ between Ell and EllStable"));
}

// ---------------------------------------------------------------- C20-C22 profit
#[derive(Clone, Debug)]
struct Profit {
    p: f64,
    a: f64,
    k: f64,
    e: [f64; 2],
    v: [f64; 2],
}
impl Profit {
    fn cobb(&self, y: &[f64]) -> f64 {
        (self.p * self.a) * (self.e[0] * y[0] + self.e[1] * y[1]).exp()
    }
    fn cost(&self, y: &[f64]) -> f64 {
        self.v[0] * y[0].exp() + self.v[1] * y[1].exp()
    }
    fn profit(&self, y: &[f64]) -> f64 {
        self.cobb(y) - self.cost(y)
    }
    /// maximiser, when the elasticities sum to less than one
    fn best(&self) -> Vec<f64> {
        let s = self.p * self.a;
        let rest = 1.0 - self.e[0] - self.e[1];
        // x_i = e_i * s * F / v_i
        let f = ((s.ln() * (self.e[0] + self.e[1])
            + self.e[0] * (self.e[0] / self.v[0]).ln()
            + self.e[1] * (self.e[1] / self.v[1]).ln())
            / rest)
            .exp();
        let mut y = vec![(self.e[0] * s * f / self.v[0]).ln(), (self.e[1] * s * f / self.v[1]).ln()];
        if y[0] > self.k.ln() {
            y[0] = self.k.ln();
            y[1] = ((s * self.e[1] / self.v[1]).ln() + self.e[0] * y[0]) / (1.0 - self.e[1]);
        }
        y
    }
}
fn gen_profit(r: &mut Rng) -> Profit {
    loop {
        let mut q = Profit {
            p: r.logu(0.0, 2.0),
            a: r.logu(0.0, 2.0),
            k: r.logu(0.0, 3.0),
            e: [r.uni(0.02, 0.7), r.uni(0.02, 0.7)],
            v: [r.logu(-0.5, 2.0), r.logu(-0.5, 2.0)],
        };
        if r.chance(0.2) {
            q = Profit { p: 20.0, a: 40.0, k: 30.5, e: [0.1, 0.4], v: [10.0, 35.0] };
        }
        if r.chance(0.15) {
            q.k = q.k.round().max(1.0);
        }
        if q.e[0] + q.e[1] > 0.93 {
            continue;
        }
        let y = q.best();
        if r.chance(0.3) {
            // capacity near the free optimum
            let mut f = q.clone();
            f.k = 1e300;
            let yf = f.best();
            q.k = (yf[0] + r.uni(-1.0, 1.0)).exp();
        }
        if y.iter().all(|t| t.abs() < 14.0) && q.profit(&q.best()) > 0.0 {
            return q;
        }
    }
}
/// Points within the limit whose profit exceeds gamma (worst-case profit by the given function).
fn good_points(r: &mut Rng, k: f64, gamma: f64, y: &[f64], best: &[f64], f: &dyn Fn(&[f64]) -> f64, out: &mut Vec<Vec<f64>>) {
    let lk = k.ln();
    if !(f(best) > gamma) {
        return;
    }
    out.push(best.to_vec());
    for _ in 0..10 {
        // walk from the optimum in a random direction until the profit drops to gamma (or the limit binds)
        let d = match r.int(0, 3) {
            0 => sub(y, best),
            _ => {
                let a = r.uni(0.0, 2.0 * std::f64::consts::PI);
                vec![a.cos(), a.sin()]
            }
        };
        let m = norm(&d);
        if m < 1e-12 {
            continue;
        }
        let d: Vec<f64> = d.iter().map(|t| t / m).collect();
        let (mut lo, mut hi) = (0.0, 40.0);
        if d[0] > 0.0 {
            hi = f64::min(hi, (lk - best[0]).max(0.0) / d[0]);
        }
        if f(&axpy(best, hi, &d)) > gamma {
            lo = hi;
        } else {
            for _ in 0..50 {
                let mid = 0.5 * (lo + hi);
                if f(&axpy(best, mid, &d)) > gamma {
                    lo = mid;
                } else {
                    hi = mid;
                }
            }
        }
        let pt = axpy(best, lo, &d);
        if f(&pt) > gamma && pt[0] <= lk {
            out.push(pt);
        }
    }
}
fn gen_query(r: &mut Rng, q: &Profit, best: &[f64]) -> Vec<f64> {
    let lk = q.k.ln();
    match r.int(0, 6) {
        0 => vec![r.uni(-6.0, 8.0), r.uni(-6.0, 8.0)],
        1 => {
            let s = r.logu(-5.0, 0.5);
            vec![best[0] + s * r.normal(), best[1] + s * r.normal()]
        }
        2 => vec![lk + r.logu(-6.0, 0.5), best[1] + r.normal()],
        3 => vec![lk - r.logu(-6.0, 0.5), best[1] + 0.3 * r.normal()],
        4 => vec![0.0, r.uni(-3.0, 4.0)],
        5 => vec![r.int(1, 40) as f64, r.int(1, 40) as f64].iter().map(|t: &f64| t.ln()).collect(),
        _ => vec![best[0].min(lk) - r.logu(-3.0, 0.5), best[1] + r.normal() * 0.5],
    }
}
fn gen_gamma(r: &mut Rng, top: f64, here: f64) -> f64 {
    match r.int(0, 5) {
        0 => 0.0,
        1 => top * r.uni(0.0, 1.0),
        2 => top * (1.0 - r.logu(-6.0, 0.0)),
        3 => (here * (1.0 + r.logu(-6.0, -1.0) * if r.chance(0.5) { 1.0 } else { -1.0 })).max(0.0),
        4 => top * r.uni(1.0, 1.5),
        _ => -r.logu(-1.0, 4.0),
    }
}

/// Judges one answer against the (worst-case) problem `w`; returns false after a violation.
#[allow(clippy::too_many_arguments)]
fn judge_profit(
    c: &mut Case,
    w: &Profit,
    y: &[f64],
    gam0: f64,
    gam: f64,
    g: &[f64],
    beta: f64,
    shrunk: bool,
    good: &[Vec<f64>],
    robust_tie: bool,
    ctx: &dyn Fn() -> String,
) -> bool {
    let lk = w.k.ln();
    let cobb = w.cobb(y);
    let cost = w.cost(y);
    let prof = cobb - cost;
    let eps = 1e-11 * (cobb + cost + gam0.abs());
    let over = y[0] - lk;
    let tie = over.abs() <= 1e-12 * (1.0 + lk.abs()) || (prof - gam0).abs() <= eps;
    let is_good = over <= 0.0 && prof >= gam0;
    if tie {
        c.ev("ties not judged");
    } else if !c.check(shrunk == is_good, || format!("improved={shrunk} but y0-ln(limit)={over:e}, profit {prof}, gamma {gam0}: {}", ctx())) {
        return false;
    }
    if shrunk {
        if !c.check(close(gam, prof, eps) && gam >= gam0 - eps, || format!("gamma {gam0} -> {gam}, profit there {prof}: {}", ctx())) {
            return false;
        }
    } else if !c.check(gam == gam0, || format!("gamma changed {gam0} -> {gam} without improvement: {}", ctx())) {
        return false;
    }
    // the cut
    let q = [w.v[0] * y[0].exp(), w.v[1] * y[1].exp()];
    let ok = if shrunk {
        beta.abs() <= 1e-11 && (robust_tie || vclose(g, &[q[0] / cobb - w.e[0], q[1] / cobb - w.e[1]], 1e-9 * (1.0 + cost / cobb)))
    } else {
        let viol = ((gam0 + cost) / cobb).ln();
        let s = 1.0 + cost / (gam0 + cost).abs();
        let t = 1e-9 * s;
        (over >= -1e-12 * (1.0 + lk.abs()) && close(beta, over, t) && vclose(g, &[1.0, 0.0], 1e-9))
            || (viol >= -t
                && close(beta, viol, t)
                && (robust_tie || vclose(g, &[q[0] / (gam0 + cost) - w.e[0], q[1] / (gam0 + cost) - w.e[1]], t)))
    };
    if !c.check(ok && g.len() == 2 && beta >= -1e-11, || format!("cut {g:?} {beta} is not that of a constraint violated at the query (improved={shrunk}, gamma {gam}): {}", ctx())) {
        return false;
    }
    if gam >= 0.0 {
        for z in good {
            let d = sub(z, y);
            let h = dot(g, &d) + beta;
            c.ev("good points tested against a cut");
            if !c.check(h <= 1e-8 * (1.0 + norm(g) * norm(&d) + beta.abs()), || {
                format!("cut {g:?} {beta} discards {z:?}, where the profit {} exceeds gamma {gam}, by {h:e}: {}", w.profit(z), ctx())
            }) {
                return false;
            }
        }
    }
    true
}

pub fn c20(c: &mut Case) {
    let q = gen_profit(&mut c.rng);
    let best = q.best();
    let top = q.profit(&best);
    let mut o = ProfitOracle::new((q.p, q.a, q.k), arr(&q.e), arr(&q.v));
    for step in 0..c.rng.int(1, 12) {
        let y = gen_query(&mut c.rng, &q, &best);
        let gam0 = gen_gamma(&mut c.rng, top, q.profit(&y));
        let mut gam = gam0;
        let xq = arr(&y);
        let ((g, SingleCut(beta)), shrunk) = o.assess_optim(&xq, &mut gam);
        c.eval(hvec(hkey(&[q.p, q.a, q.k, q.e[0], q.e[1], q.v[0], q.v[1], gam0]), &y));
        c.ev(if shrunk { "improved" } else { "not improved" });
        let ctx = || format!("{q:?} y={y:?} query {}", step + 1);
        if !c.check(xq.data() == &y[..], || format!("query modified: {}", ctx())) {
            return;
        }
        let mut good = vec![];
        good_points(&mut c.rng, q.k, gam, &y, &best, &|z| q.profit(z), &mut good);
        let g = g.data().to_vec();
        if !judge_profit(c, &q, &y, gam0, gam, &g, beta, shrunk, &good, false, &ctx) {
            return;
        }
        c.sample(|| format!("{q:?} y={y:?} gamma {gam0:.4e}->{gam:.4e} improved {shrunk}"));
    }
    if c.rng.chance(0.3) {
        // a complete run
        let mut gam = 0.0;
        let rad = 2.0 * (norm(&best) + 3.0);
        let opts = Options { max_iters: 4000, tolerance: 1e-16, verbose: c.rng.chance(0.2) };
        let stable = c.rng.chance(0.5);
        let (y, it) = if stable {
            let mut e = EllStable::new_with_scalar(rad * rad, arr(&[0.0, 0.0]));
            cutting_plane_optim(&mut o, &mut e, &mut gam, &opts)
        } else {
            let mut e = Ell::new_with_scalar(rad * rad, arr(&[0.0, 0.0]));
            cutting_plane_optim(&mut o, &mut e, &mut gam, &opts)
        };
        c.ev("complete runs");
        c.eval(hkey(&[q.p, q.a, q.k, q.e[0], q.v[0], -7.0]));
        let gap = top - gam;
        let sc = q.cobb(&best);
        let ok = y.as_ref().is_some_and(|y| y[0] <= q.k.ln() + 1e-12 && close(q.profit(y.data()), gam, 1e-10 * sc)) && gap.abs() <= 1e-5 * sc;
        c.check(ok, || format!("run on {q:?} (stable={stable}): returned {y:?} gamma {gam} after {it}, maximum {top} at {best:?}"));
    }
}

pub fn c21(c: &mut Case) {
    let q = gen_profit(&mut c.rng);
    let r = &mut c.rng;
    let zero = r.chance(0.2);
    let f = |r: &mut Rng, lim: f64| if zero || r.chance(0.2) { 0.0 } else { lim * r.logu(-3.0, 0.0) };
    let (e1, e2) = (f(r, 0.9 * q.e[0]), f(r, 0.9 * q.e[1]));
    let (e3, e4, e5) = (f(r, 0.8 * q.p), f(r, 0.8 * q.k), f(r, 0.9 * q.v[0].min(q.v[1])));
    let ui = [e1, e2];
    let mut o = ProfitRbOracle::new((q.p, q.a, q.k), arr(&q.e), arr(&q.v), (e1, e2, e3, e4, e5));
    let mut twin = ProfitOracle::new((q.p, q.a, q.k), arr(&q.e), arr(&q.v));
    let worst = |y: &[f64]| Profit {
        p: q.p - e3,
        a: q.a,
        k: q.k - e4,
        e: [
            if y[0] > 0.0 { q.e[0] - e1 } else { q.e[0] + e1 },
            if y[1] > 0.0 { q.e[1] - e2 } else { q.e[1] + e2 },
        ],
        v: [q.v[0] + e5, q.v[1] + e5],
    };
    let wp = |y: &[f64]| worst(y).profit(y);
    // worst-case optimum by coordinate search over the four sign patterns (concave pieces)
    let mut best = worst(&[1.0, 1.0]).best();
    let lk = (q.k - e4).ln();
    best[0] = best[0].min(lk);
    let mut stepsz = 1.0;
    while stepsz > 1e-9 && norm(&best) < 40.0 {
        let mut moved = false;
        for k in 0..8 {
            let a = k as f64 * std::f64::consts::FRAC_PI_4;
            let z = [(best[0] + stepsz * a.cos()).min(lk), best[1] + stepsz * a.sin()];
            if wp(&z) > wp(&best) {
                best = z.to_vec();
                moved = true;
            }
        }
        if !moved {
            stepsz *= 0.5;
        }
    }
    let top = wp(&best).max(0.0);
    for step in 0..c.rng.int(1, 12) {
        let mut y = gen_query(&mut c.rng, &worst(&best), &best);
        if c.rng.chance(0.2) {
            let k = c.rng.int(0, 1);
            y[k] = *c.rng.pick(&[0.0, -0.0, 1e-9, -1e-9]);
        }
        let w = worst(&y);
        let gam0 = gen_gamma(&mut c.rng, top, w.profit(&y));
        let mut gam = gam0;
        let ((g, SingleCut(beta)), shrunk) = o.assess_optim(&arr(&y), &mut gam);
        c.eval(hvec(hkey(&[q.p, q.a, q.k, q.e[0], q.e[1], e1, e2, e3, e4, e5, gam0]), &y));
        c.ev(if shrunk { "improved" } else { "not improved" });
        let ctx = || format!("{q:?} uncertainty {e1} {e2} {e3} {e4} {e5} y={y:?} query {}", step + 1);
        let mut good = vec![];
        good_points(&mut c.rng, q.k - e4, gam, &y, &best, &wp, &mut good);
        let gd = g.data().to_vec();
        let at0 = y.iter().zip(&ui).any(|(t, u)| *t == 0.0 && *u > 0.0);
        if !judge_profit(c, &w, &y, gam0, gam, &gd, beta, shrunk, &good, at0, &ctx) {
            return;
        }
        if shrunk {
            // every realisation within the uncertainty
            let mut lowest = f64::INFINITY;
            let sc = w.cobb(&y) + w.cost(&y);
            for k in 0..72u32 {
                let u = |c: &mut Case, j: u32| if k < 64 { if k >> j & 1 == 0 { -1.0 } else { 1.0 } } else { c.rng.sym() };
                let s = Profit {
                    p: q.p + e3 * u(c, 0),
                    a: q.a,
                    k: q.k + e4 * u(c, 1),
                    e: [q.e[0] + e1 * u(c, 2), q.e[1] + e2 * u(c, 3)],
                    v: [q.v[0] + e5 * u(c, 4), q.v[1] + e5 * u(c, 5)],
                };
                lowest = lowest.min(s.profit(&y));
                let ok = y[0] <= s.k.ln() + 1e-11 * (1.0 + s.k.ln().abs()) && s.profit(&y) >= gam - 1e-10 * (sc + s.cobb(&y) + s.cost(&y));
                c.ev("realisations tested");
                if !c.check(ok, || format!("realisation {s:?}: profit {} below gamma {gam} or limit exceeded: {}", s.profit(&y), ctx())) {
                    return;
                }
            }
            if !c.check(close(lowest, gam, 1e-10 * sc), || format!("gamma {gam} is not the worst-case profit {lowest}: {}", ctx())) {
                return;
            }
        }
        let exact = [e1, e2, e3, e4, e5].iter().all(|t| *t == 0.0);
        let mut gt = gam0;
        let ((g2, SingleCut(b2)), s2) = twin.assess_optim(&arr(&y), &mut gt);
        if exact {
            c.ev("compared with ProfitOracle");
            let ok = s2 == shrunk && close(gt, gam, 1e-11 * (gt.abs() + w.cobb(&y))) && close(b2, beta, 1e-10 * (1.0 + b2.abs())) && vclose(g2.data(), &gd, 1e-10 * (1.0 + norm(&gd)));
            if !c.check(ok, || format!("zero uncertainty: {gd:?} {beta} {gam} {shrunk} but ProfitOracle {:?} {b2} {gt} {s2}: {}", g2.data(), ctx())) {
                return;
            }
        }
        c.sample(|| format!("{q:?} uncertainty {e1:.3} {e2:.3} {e3:.3} {e4:.3} {e5:.3} y={y:?} improved {shrunk}"));
    }
    if c.rng.chance(0.3) && norm(&best) < 30.0 && wp(&best) > 1e-3 * worst(&best).cobb(&best) {
        let mut gam = 0.0;
        let rad = 2.0 * (norm(&best) + 3.0);
        let opts = Options { max_iters: 4000, tolerance: 1e-16, verbose: c.rng.chance(0.2) };
        let mut e = Ell::new_with_scalar(rad * rad, arr(&[0.0, 0.0]));
        let (y, it) = cutting_plane_optim(&mut o, &mut e, &mut gam, &opts);
        c.ev("complete runs");
        let sc = worst(&best).cobb(&best);
        let ok = y.as_ref().is_some_and(|y| y[0] <= lk + 1e-12 && close(wp(y.data()), gam, 1e-10 * sc)) && top - gam <= 1e-5 * sc;
        c.check(ok, || format!("run on {q:?} uncertainty {e1} {e2} {e3} {e4} {e5}: returned {y:?} gamma {gam} after {it}, worst-case maximum {top} at {best:?}"));
    }
}

pub fn c22(c: &mut Case) {
    let q = gen_profit(&mut c.rng);
    let best = q.best();
    let top = q.profit(&best);
    let mut o = ProfitOracleQ::new((q.p, q.a, q.k), arr(&q.e), arr(&q.v));
    let lk = q.k.ln();
    let mut last: Option<Vec<f64>> = None; // integer point of the last non-retry query
    for step in 0..c.rng.int(1, 12) {
        let mut y = gen_query(&mut c.rng, &q, &best);
        if c.rng.chance(0.3) {
            // inside the limit but rounding up beyond it, or between two integers
            y[0] = lk - c.rng.logu(-4.0, -0.5);
        }
        for t in y.iter_mut() {
            *t = t.min(20.0);
        }
        let lopsided = c.rng.chance(0.08);
        if lopsided {
            // one input rounds to zero, the other is large
            y = vec![c.rng.uni(-4.0, -0.7), c.rng.uni(0.0, 9.0)];
            if c.rng.chance(0.4) {
                y = vec![y[1].min(lk - 1e-6), y[0]];
            }
        }
        let gam0 = if lopsided {
            q.profit(&y) - q.cobb(&y) * c.rng.logu(-6.0, 0.0)
        } else {
            gen_gamma(&mut c.rng, top, q.profit(&y))
        };
        let retry = last.is_some() && c.rng.chance(0.3);
        let mut gam = gam0;
        let ((g, SingleCut(beta)), shrunk, x_q, more) = o.assess_optim_q(&arr(&y), &mut gam, retry);
        c.eval(hvec(hkey(&[q.p, q.a, q.k, q.e[0], q.e[1], gam0, retry as u8 as f64]), &y));
        let ctx = || format!("{q:?} y={y:?} gamma {gam0} retry={retry} query {} -> {:?} {beta} improved={shrunk} point {:?} more={more} gamma {gam}", step + 1, g.data(), x_q.data());
        let xq = x_q.data().to_vec();
        let gd = g.data().to_vec();
        let round: Vec<f64> = y.iter().map(|t| t.exp().round().max(1.0)).collect();
        let near_half = y.iter().any(|t| {
            let e = t.exp();
            (e - e.floor() - 0.5).abs() < 1e-9 * (1.0 + e)
        });
        if !c.check(more == !retry, || format!("alternatives offered wrongly: {}", ctx())) {
            return;
        }
        // is the answer about the centre itself or about the integer point?
        let at_centre = !retry && !shrunk && xq == y && {
            // the centre itself must violate a constraint then
            let over = y[0] - lk;
            let eps = 1e-11 * (q.cobb(&y) + q.cost(&y) + gam0.abs());
            over > -1e-12 * (1.0 + lk.abs()) || q.profit(&y) < gam0 + eps
        };
        if at_centre {
            c.ev("cut at the centre");
            let mut good = vec![];
            good_points(&mut c.rng, q.k, gam, &y, &best, &|z| q.profit(z), &mut good);
            if !judge_profit(c, &q, &y, gam0, gam, &gd, beta, shrunk, &good, false, &ctx) {
                return;
            }
            // the integer point of an earlier query stays the one a retry would use
            continue;
        }
        // integer point
        let z: Vec<f64> = xq.iter().map(|t| t.exp().round()).collect();
        let is_int = xq.iter().zip(&z).all(|(t, k)| close(t.exp(), *k, 1e-9 * k.abs()) && *k >= 1.0);
        if !c.check(is_int, || format!("the returned point is not a pair of positive integers: {}", ctx())) {
            return;
        }
        if retry {
            c.ev("retries");
            let l = last.clone().unwrap();
            if !c.check(vclose(&xq, &l, 1e-12), || format!("retry evaluates {xq:?}, not the earlier integer point {l:?}: {}", ctx())) {
                return;
            }
        } else {
            if !near_half && !c.check(vclose(&z, &round, 0.0), || format!("integer point {z:?}, expected {round:?}: {}", ctx())) {
                return;
            }
            // then the centre itself must have been acceptable
            let eps = 1e-11 * (q.cobb(&y) + q.cost(&y) + gam0.abs());
            if !c.check(y[0] <= lk + 1e-12 * (1.0 + lk.abs()) && q.profit(&y) >= gam0 - eps, || format!("an infeasible centre was rounded: {}", ctx())) {
                return;
            }
            last = Some(xq.clone());
        }
        c.ev(if shrunk { "integer point improved" } else { "integer point refused" });
        if shrunk && !c.check(z[0] <= q.k * (1.0 + 1e-9), || format!("improvement beyond the limit: {}", ctx())) {
            return;
        }
        // the cut must be the integer point's, expressed at the queried centre
        let shift = dot(&gd, &sub(&y, &xq)); // g.(y - yd)
        let t = 1e-9 * (1.0 + norm(&gd) * norm(&sub(&y, &xq)) + beta.abs());
        let mut good = vec![];
        good_points(&mut c.rng, q.k, gam, &y, &best, &|z| q.profit(z), &mut good);
        // depth the integer point's own cut must have
        let (cobb, cost) = (q.cobb(&xq), q.cost(&xq));
        let own: Vec<f64> = if shrunk { vec![0.0] } else { vec![xq[0] - lk, ((gam0 + cost) / cobb).ln()] };
        // (moving a depth between the points may round in either of the two products)
        let near = 1e-13 * norm(&gd) * (norm(&y) + norm(&xq));
        let snap = |b: f64| own.iter().copied().find(|d| (b - d).abs() <= near).unwrap_or(b);
        let (here, wrong) = (snap(beta - shift), snap(beta + shift));
        let dist = |b: f64| own.iter().map(|d| (b - d).abs()).fold(f64::INFINITY, f64::min);
        let right = dist(here) <= dist(wrong);
        let swapped = dist(wrong) <= t;
        if right || !swapped {
            if !judge_profit(c, &q, &xq, gam0, gam, &gd, here, shrunk, &good, false, &ctx) {
                return;
            }
        } else {
            // known finding: the shift has the wrong sign; everything else about the cut is still judged
            if !judge_profit(c, &q, &xq, gam0, gam, &gd, wrong, shrunk, &good, false, &ctx) {
                return;
            }
            c.known("q-cut-shift-sign", || ctx());
            if gam >= 0.0 && good.iter().any(|p| dot(&gd, &sub(p, &y)) + beta > 1e-6) {
                c.ev("known finding observed to discard a better point");
            }
        }
        c.sample(|| format!("{q:?} y={y:?} -> {z:?} improved {shrunk} retry {retry}"));
    }
    if c.rng.chance(0.4) {
        let mut gam = 0.0;
        let rad = 2.0 * (norm(&best) + 3.0);
        let opts = Options { max_iters: 2000, tolerance: 1e-16, verbose: c.rng.chance(0.2) };
        let mut o = ProfitOracleQ::new((q.p, q.a, q.k), arr(&q.e), arr(&q.v));
        let (y, it) = if c.rng.chance(0.5) {
            let mut e = Ell::new_with_scalar(rad * rad, arr(&[0.0, 0.0]));
            cutting_plane_optim_q(&mut o, &mut e, &mut gam, &opts)
        } else {
            let mut e = EllStable::new_with_scalar(rad * rad, arr(&[0.0, 0.0]));
            cutting_plane_optim_q(&mut o, &mut e, &mut gam, &opts)
        };
        c.ev("complete runs");
        match y {
            None => {
                c.check(gam == 0.0, || format!("no design returned but gamma {gam}: {q:?}"));
            }
            Some(y) => {
                c.ev("complete runs with a design");
                let z: Vec<f64> = y.iter().map(|t| t.exp().round()).collect();
                let ok = y.iter().zip(&z).all(|(t, k)| close(t.exp(), *k, 1e-9 * k) && *k >= 1.0)
                    && z[0] <= q.k * (1.0 + 1e-9)
                    && close(q.profit(y.data()), gam, 1e-10 * (q.cobb(y.data()) + q.cost(y.data())))
                    && gam <= top + 1e-9 * q.cobb(&best);
                c.check(ok, || format!("run on {q:?}: design {z:?} ({:?}) gamma {gam} after {it}, profit {} ", y.data(), q.profit(y.data())));
            }
        }
    }
}

// ---------------------------------------------------------------- C23 quasiconvex example
pub fn c23(c: &mut Case) {
    let mut o = MyOracle::default();
    let top = 1.0 / (2.0 * std::f64::consts::E).sqrt();
    for step in 0..c.rng.int(1, 12) {
        let r = &mut c.rng;
        let q = match r.int(0, 5) {
            0 => vec![r.uni(-3.0, 3.0), r.uni(-3.0, 6.0)],
            1 => {
                let s = r.logu(-6.0, 0.0);
                vec![0.5f64.sqrt() + s * r.normal(), 0.5 + s * r.normal()]
            }
            2 => {
                let s = r.uni(-2.0, 2.0);
                vec![s, s * s + r.logu(-6.0, 0.5) * if r.chance(0.5) { 1.0 } else { -1.0 }]
            }
            3 => vec![100.0 * r.sym(), 300.0 * r.sym()],
            4 => vec![r.logu(-8.0, 0.0), r.logu(-8.0, 0.3)],
            _ => vec![0.0, r.uni(-1.0, 2.0)],
        };
        let (s, t) = (q[0], q[1]);
        let ratio = s * (-t).exp();
        let gam0 = match r.int(0, 5) {
            0 => 0.0,
            1 => r.uni(0.0, top),
            2 => top * (1.0 - r.logu(-8.0, 0.0)),
            3 => ratio * (1.0 + r.logu(-6.0, -1.0) * if r.chance(0.5) { 1.0 } else { -1.0 }),
            4 => r.uni(top, 100.0),
            _ => -r.logu(-3.0, 1.0),
        };
        let mut gam = gam0;
        let xq = arr(&q);
        let ((g, SingleCut(beta)), shrunk) = o.assess_optim(&xq, &mut gam);
        c.eval(hkey(&[s, t, gam0]));
        c.ev(if shrunk { "improved" } else { "not improved" });
        let f0 = s * s - t;
        let f1 = -s + gam0 * t.exp();
        let e0 = 1e-12 * (s * s + t.abs());
        let e1 = 1e-12 * (s.abs() + (gam0 * t.exp()).abs());
        let ctx = || format!("s={s} t={t} gamma {gam0}->{gam} query {}: {:?} {beta} improved={shrunk}; violations {f0:e} {f1:e}", step + 1, g.data());
        if f0.abs() <= e0 || f1.abs() <= e1 {
            c.ev("ties not judged");
        } else if !c.check(shrunk == (f0 <= 0.0 && f1 <= 0.0), || format!("wrong verdict: {}", ctx())) {
            return;
        }
        if shrunk {
            let ok = close(gam, ratio, 1e-12 * ratio.abs().max(1e-300)) && gam >= gam0 - 1e-11 * (gam0.abs() + ratio.abs()) && beta == 0.0;
            if !c.check(ok, || format!("gamma is not s/exp(t): {}", ctx())) {
                return;
            }
            if !c.check(vclose(g.data(), &[-1.0, s], 1e-11 * (1.0 + s.abs())), || format!("wrong gradient: {}", ctx())) {
                return;
            }
        } else {
            if !c.check(gam == gam0, || format!("gamma changed: {}", ctx())) {
                return;
            }
            let et = gam0 * t.exp();
            let ok = (f0 >= -e0 && close(beta, f0, e0.max(1e-300)) && vclose(g.data(), &[2.0 * s, -1.0], 1e-11 * (1.0 + s.abs())))
                || (f1 >= -e1 && close(beta, f1, e1.max(1e-300)) && vclose(g.data(), &[-1.0, et], 1e-11 * (1.0 + et.abs())));
            if !c.check(ok && beta >= 0.0, || format!("the cut is not that of a violated constraint: {}", ctx())) {
                return;
            }
        }
        if gam >= 0.0 {
            for _ in 0..12 {
                // a point of the feasible set with ratio above gamma: t >= s^2, s > gamma e^t
                let s2 = c.rng.logu(-3.0, 0.3);
                let tmax = (s2 / gam).ln().min(10.0);
                if !(tmax > s2 * s2) {
                    continue;
                }
                let u = match c.rng.int(0, 3) {
                    0 => 0.0,
                    1 => 1.0 - 1e-9,
                    _ => c.rng.f(),
                };
                let t2 = s2 * s2 + u * (tmax - s2 * s2);
                let h = g[0] * (s2 - s) + g[1] * (t2 - t) + beta;
                let sc = (g[0] * (s2 - s)).abs() + (g[1] * (t2 - t)).abs() + beta;
                c.ev("good points tested against a cut");
                if !c.check(h <= 1e-10 * (1.0 + sc), || format!("cut discards ({s2},{t2}) with ratio {}: {}", s2 * (-t2).exp(), ctx())) {
                    return;
                }
            }
        }
        c.sample(|| format!("s={s:.4} t={t:.4} gamma {gam0:.4} improved {shrunk}"));
    }
    if c.rng.chance(0.2) {
        let kappa = c.rng.logu(0.5, 3.0);
        let x0 = [c.rng.sym(), c.rng.sym()];
        let mut gam = 0.0;
        let opts = Options { max_iters: 4000, tolerance: 1e-18, verbose: c.rng.chance(0.2) };
        let stable = c.rng.chance(0.5);
        let (x, it) = if stable {
            let mut e = EllStable::new_with_scalar(kappa + 8.0, arr(&x0));
            cutting_plane_optim(&mut o, &mut e, &mut gam, &opts)
        } else {
            let mut e = Ell::new_with_scalar(kappa + 8.0, arr(&x0));
            cutting_plane_optim(&mut o, &mut e, &mut gam, &opts)
        };
        c.ev("complete runs");
        c.eval(hkey(&[kappa, x0[0], x0[1]]));
        let ok = x.as_ref().is_some_and(|x| x[0] * x[0] <= x[1] + 1e-12 && close(x[0] * (-x[1]).exp(), gam, 1e-12)) && (gam - top).abs() <= 1e-6;
        c.check(ok, || format!("run from {x0:?} kappa {kappa} stable={stable}: {x:?} gamma {gam} after {it}, maximum {top}"));
    }
}

// ---------------------------------------------------------------- C26 SVM
pub fn c26(c: &mut Case) {
    let r = &mut c.rng;
    let nf = if r.chance(0.004) { r.int(21, 90) } else if r.chance(0.01) { r.int(9, 20) } else { r.int(1, 8) };
    let m = if r.chance(0.02) { r.int(31, 400) } else { r.int(1, 30) };
    let scale = r.logu(-1.0, 1.0);
    let wstar = r.unit(nf);
    let bstar = r.sym() * scale;
    let gap = scale * r.logu(-1.5, 0.0);
    let mut data = vec![];
    let mut lab = vec![];
    for i in 0..m {
        let y: i32 = if m > 1 && i == 0 { 1 } else if m > 1 && i == 1 { -1 } else if r.chance(0.5) { 1 } else { -1 };
        let mut x: Vec<f64> = r.normals(nf).iter().map(|t| t * scale).collect();
        let d = dot(&wstar, &x) + bstar;
        let want = y as f64 * (gap + scale * r.f() * r.f());
        x = axpy(&x, want - d, &wstar);
        data.extend(x);
        lab.push(y);
    }
    let separable = r.chance(0.7);
    if !separable {
        for l in lab.iter_mut() {
            if r.chance(0.3) {
                *l = -*l;
            }
        }
    }
    if r.chance(0.2) && m > 2 {
        // a duplicate of a sample
        let (i, j) = (r.int(0, m - 1), r.int(0, m - 1));
        for k in 0..nf {
            data[j * nf + k] = data[i * nf + k];
        }
        lab[j] = lab[i];
    }
    let margin = |x: &[f64], i: usize| lab[i] as f64 * (dot(&x[..nf], &data[i * nf..(i + 1) * nf]) + x[nf]);
    let minm = |x: &[f64]| (0..m).map(|i| margin(x, i)).fold(f64::INFINITY, f64::min);
    let mut o = SvmOracle::new(Arr::from_shape_vec(m, nf, data.clone()), lab.clone());
    if r.chance(0.1) {
        // whole-number samples of one class: the smallest margin is exactly 1 - d
        let y = if r.chance(0.5) { 1.0 } else { -1.0 };
        let z: Vec<f64> = (0..m * nf).map(|_| r.int(0, 8) as f64 - 4.0).collect();
        let mut x: Vec<f64> = (0..nf).map(|_| r.int(0, 6) as f64 - 3.0).collect();
        let d = (r.int(0, 2) as f64 - 1.0) * 2f64.powi(-(r.int(5, 40) as i32));
        let s = (0..m).map(|i| y * dot(&x, &z[i * nf..(i + 1) * nf])).fold(f64::INFINITY, f64::min);
        x.push(y * (1.0 - d - s));
        let mut o = SvmOracle::new(Arr::from_shape_vec(m, nf, z.clone()), vec![y as i32; m]);
        let mut gam = f64::NEG_INFINITY;
        let ((g, SingleCut(depth)), _) = o.assess_optim(&arr(&x), &mut gam);
        c.eval(hvec(hkey(&z), &x));
        c.ev("margins next to 1 judged exactly");
        let zero = g.iter().all(|t| *t == 0.0);
        let ok = if d <= 0.0 { gam == 0.0 && zero && depth == 0.0 } else { gam == 1.0 - d && depth == 1.0 - d && g[nf] == -y };
        if !c.check(ok, || format!("samples {z:?} of class {y}, x={x:?}, smallest margin 1-{d:e}: gradient {:?} depth {depth} gamma {gam}", g.data())) {
            return;
        }
    }
    let mut star: Vec<f64> = wstar.iter().map(|t| 2.0 * t / gap).collect();
    star.push(2.0 * bstar / gap);
    for step in 0..c.rng.int(1, 8) {
        let r = &mut c.rng;
        let x: Vec<f64> = match r.int(0, 3) {
            0 => r.normals(nf + 1),
            1 => star.iter().map(|t| t * r.logu(-1.0, 1.0)).collect(),
            2 => star.iter().map(|t| t + 0.3 * r.normal() / scale).collect(),
            _ => star.iter().map(|t| t * (0.5 + r.logu(-8.0, -1.0) * r.sym())).collect(),
        };
        let gam0 = *r.pick(&[f64::NEG_INFINITY, 0.0, -3.0, 0.7]);
        let mut gam = gam0;
        let ((g, SingleCut(depth)), _improved) = o.assess_optim(&arr(&x), &mut gam);
        let mm = minm(&x);
        let eps = 1e-11 * (1.0 + norm(&x) * (1.0 + 10.0 * scale * (nf as f64).sqrt()));
        c.eval(hvec(hkey(&data), &x));
        let ctx = || format!("{m} samples, {nf} features, x={x:?}, smallest margin {mm}, answer {:?} depth {depth} gamma {gam} query {}", g.data(), step + 1);
        if (mm - 1.0).abs() <= eps {
            c.ev("ties not judged");
            continue;
        }
        let zero = g.iter().all(|t| *t == 0.0);
        if mm >= 1.0 {
            c.ev("separated");
            if !c.check(gam == 0.0 && zero && depth == 0.0 && g.len() == nf + 1, || format!("a separator must give gamma 0, a zero gradient and depth 0: {}", ctx())) {
                return;
            }
            continue;
        }
        c.ev("not separated");
        if !c.check(close(gam, mm, eps) && close(depth, mm, eps), || format!("gamma or depth is not the smallest margin: {}", ctx())) {
            return;
        }
        let ok = (0..m).any(|i| {
            let mut want: Vec<f64> = data[i * nf..(i + 1) * nf].iter().map(|t| -(lab[i] as f64) * t).collect();
            want.push(-(lab[i] as f64));
            margin(&x, i) <= mm + eps && vclose(&want, g.data(), 1e-11 * (1.0 + norm(&want)))
        });
        if !c.check(ok, || format!("the gradient is not that of a worst sample: {}", ctx())) {
            return;
        }
        for _ in 0..8 {
            let r = &mut c.rng;
            let z: Vec<f64> = if separable && r.chance(0.5) {
                star.iter().map(|t| t * r.logu(-1.0, 2.0)).collect()
            } else {
                x.iter().zip(&star).map(|(a, b)| a + r.f() * (b - a) + 0.1 * r.normal() / scale).collect()
            };
            if minm(&z) < gam {
                continue;
            }
            c.ev("better separators tested against a cut");
            let h = dot(g.data(), &sub(&z, &x));
            if !c.check(h <= 1e-9 * (1.0 + norm(g.data()) * norm(&sub(&z, &x))), || format!("cut discards {z:?} with smallest margin {}: {}", minm(&z), ctx())) {
                return;
            }
        }
    }
    if separable && nf <= 20 && c.rng.chance(0.5) {
        let n = nf + 1;
        let big = (0..m).map(|i| (1.0 + dot(&data[i * nf..(i + 1) * nf], &data[i * nf..(i + 1) * nf])).sqrt()).fold(0.0, f64::max);
        let rad = norm(&star) + 2.0 / big;
        let ball = 1.0 / big;
        let bound = if n == 1 { 60.0 } else { 2.0 * n as f64 * (n as f64 + 1.0) * (rad / ball).ln() + 10.0 };
        let opts = Options { max_iters: bound as usize + 5, tolerance: 0.0, verbose: c.rng.chance(0.2) };
        let mut gam = f64::NEG_INFINITY;
        let stable = c.rng.chance(0.5);
        let (x, it) = if stable {
            let mut e = EllStable::new_with_scalar(rad * rad, Arr::new(n));
            cutting_plane_optim(&mut o, &mut e, &mut gam, &opts)
        } else {
            let mut e = Ell::new_with_scalar(rad * rad, Arr::new(n));
            cutting_plane_optim(&mut o, &mut e, &mut gam, &opts)
        };
        c.ev("complete runs");
        c.evn("run iterations observed", it as u64);
        c.eval(hvec(9, &data));
        let ok = x.as_ref().is_some_and(|x| minm(x.data()) >= 1.0 - 1e-9) && gam == 0.0;
        c.check(ok, || format!("run on separable data ({m} samples, {nf} features, gap {gap}, stable={stable}): {x:?} gamma {gam} after {it} of {} iterations, smallest margin {:?}", bound, x.as_ref().map(|x| minm(x.data()))));
        c.sample(|| format!("{m} samples, {nf} features: separated after {it} iterations"));
    }
}

// ---------------------------------------------------------------- C27 max-cut
pub fn c27(c: &mut Case) {
    let r = &mut c.rng;
    let n = if r.chance(0.003) { r.int(61, 160) } else if r.chance(0.01) { r.int(15, 60) } else { r.int(1, 14) };
    let mut w = vec![0.0; n * n];
    let dens = *r.pick(&[0.3, 0.7, 1.0]);
    let integer = r.chance(0.5);
    let neg = r.chance(0.3);
    for i in 0..n {
        for j in 0..i {
            if r.chance(dens) {
                let mut t = if integer { r.int(1, 9) as f64 } else { r.logu(-2.0, 2.0) };
                if neg && r.chance(0.4) {
                    t = -t;
                }
                w[i * n + j] = t;
                w[j * n + i] = t;
            }
        }
        if r.chance(0.2) {
            w[i * n + i] = r.normal();
        }
    }
    let tot: f64 = w.iter().map(|t| t.abs()).sum::<f64>() + 1.0;
    let side = |x: &[f64]| -> Vec<bool> { x.iter().map(|t| *t >= 0.0).collect() };
    let value = |x: &[f64]| {
        let s = side(x);
        let mut v = 0.0;
        for i in 0..n {
            for j in 0..i {
                if s[i] != s[j] {
                    v += w[i * n + j];
                }
            }
        }
        v
    };
    let mut o = MaxcutOracle::new(Arr::from_shape_vec(n, n, w.clone()));
    let mut carried = f64::NEG_INFINITY;
    for step in 0..r.int(1, 10) {
        let r = &mut c.rng;
        let mut x = r.normals(n);
        for t in x.iter_mut() {
            if r.chance(0.15) {
                *t = *r.pick(&[0.0, -0.0, 1e-300, -1e-300, -1e-310, 5e-324, -5e-324]);
            }
        }
        let v = value(&x);
        let gam0 = match r.int(0, 4) {
            0 => f64::NEG_INFINITY,
            1 if integer => {
                let d = *r.pick(&[0.0, 0.0, 1.0, -1.0]) * 2f64.powi(-(r.int(5, 43) as i32));
                if (v + d) - v == d { v + d } else { v }
            }
            2 => v + 1e-3 * r.normal(),
            3 => 0.0,
            _ => carried,
        };
        let mut gam = gam0;
        let ((g, SingleCut(depth)), improved) = o.assess_optim(&arr(&x), &mut gam);
        carried = gam.max(carried);
        c.eval(hvec(hvec(3, &w), &x));
        c.ev(if improved { "improved" } else { "not improved" });
        let eps = 1e-12 * tot;
        let ctx = || format!("n={n} w={w:?} x={x:?} cut value {v} gamma {gam0}->{gam} improved={improved} gradient {:?} query {}", g.data(), step + 1);
        let tie = !integer && (v - gam0).abs() <= eps;
        if integer && v == gam0 {
            c.ev("exact ties judged");
        }
        if !tie && !c.check(improved == (v > gam0), || format!("wrong verdict: {}", ctx())) {
            return;
        }
        if !c.check(if improved { close(gam, v, eps) } else { gam.to_bits() == gam0.to_bits() }, || format!("wrong gamma: {}", ctx())) {
            return;
        }
        let wd = if improved { -v } else { gam0 };
        if !c.check(close(depth, wd, eps) || depth == wd, || format!("depth is {depth}, not minus the improved value or the gamma to beat: {}", ctx())) {
            return;
        }
        let s = side(&x);
        let want: Vec<f64> = (0..n).map(|i| -2.0 * (0..n).filter(|&j| s[i] != s[j]).map(|j| w[i * n + j]).sum::<f64>()).collect();
        if !c.check(vclose(g.data(), &want, 1e-11 * tot), || format!("gradient should be {want:?}: {}", ctx())) {
            return;
        }
    }
    if c.rng.chance(0.5) {
        let x0 = c.rng.normals(n);
        let kappa = c.rng.logu(-1.0, 2.0);
        let mut gam = *c.rng.pick(&[f64::NEG_INFINITY, 0.0]);
        let g0 = gam;
        let opts = Options { max_iters: 200, tolerance: 1e-12, verbose: c.rng.chance(0.2) };
        let (x, it) = if c.rng.chance(0.5) {
            let mut e = EllStable::new_with_scalar(kappa, arr(&x0));
            cutting_plane_optim(&mut o, &mut e, &mut gam, &opts)
        } else {
            let mut e = Ell::new_with_scalar(kappa, arr(&x0));
            cutting_plane_optim(&mut o, &mut e, &mut gam, &opts)
        };
        c.ev("complete runs");
        c.eval(hvec(hvec(4, &w), &x0));
        let ok = match &x {
            None => gam == g0,
            Some(x) => close(gam, value(x.data()), 1e-12 * tot) && gam >= value(&x0) - 1e-12 * tot,
        };
        c.check(ok, || format!("run on n={n} w={w:?} from {x0:?}: {x:?} gamma {gam} after {it}"));
        c.sample(|| format!("n={n}: cut value {gam:.4} after {it} iterations"));
    }
}
