//! C13, C14: complete runs on problems whose answer is known by construction.
use crate::lin::*;
use crate::mon::*;
use crate::rng::Rng;
use crate::space::*;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::oracles::lmi_oracle::LMIOracle;

fn arr(v: &[f64]) -> Arr {
    Arr::from(v.to_vec())
}

// ---------------------------------------------------------------- feasibility
#[derive(Clone, Debug)]
enum Con {
    /// a.x <= u (and >= l)
    Strip(Vec<f64>, f64, f64),
    /// |x - p| <= rho
    Ball(Vec<f64>, f64),
}
impl Con {
    /// violation, gradient, distance to the opposite limit
    fn cut(&self, x: &[f64]) -> Option<(Vec<f64>, f64, Option<f64>)> {
        match self {
            Con::Strip(a, l, u) => {
                let v = dot(a, x);
                if v > *u {
                    Some((a.clone(), v - u, if l.is_finite() { Some(v - l) } else { None }))
                } else if v < *l {
                    Some((a.iter().map(|t| -t).collect(), l - v, if u.is_finite() { Some(u - v) } else { None }))
                } else {
                    None
                }
            }
            Con::Ball(p, rho) => {
                let d = sub(x, p);
                let m = norm(&d);
                if m > *rho {
                    Some((d.iter().map(|t| t / m).collect(), m - rho, None))
                } else {
                    None
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Rule {
    First,
    Worst,
    Least,
    Random,
    Robin,
    Resist,
}

struct Poly<C> {
    cons: Vec<Con>,
    rule: Rule,
    deep: bool,
    par: bool,
    rng: Rng,
    at: usize,
    /// for the resisting oracle: any hyperplane that separates x from this ball
    ball: (Vec<f64>, f64),
    queries: usize,
    _c: std::marker::PhantomData<C>,
}
impl<C> Poly<C> {
    fn ask(&mut self, x: &[f64]) -> Option<(Vec<f64>, f64, Option<f64>)> {
        self.queries += 1;
        let mut bad: Vec<(Vec<f64>, f64, Option<f64>)> = vec![];
        let m = self.cons.len();
        if self.rule == Rule::Resist {
            let d = sub(x, &self.ball.0);
            let dn = norm(&d);
            let r = self.ball.1;
            if dn <= r {
                return None;
            }
            // random g with g.d >= r|g|
            for _ in 0..20 {
                let mut g = self.rng.unit(x.len());
                if dot(&g, &d) < 0.0 {
                    g.iter_mut().for_each(|v| *v = -*v);
                }
                let s = dot(&g, &d) - r;
                if s >= 0.0 {
                    let sc = self.rng.logu(-3.0, 3.0);
                    return Some((g.iter().map(|v| v * sc).collect(), s * sc, Some((s + 2.0 * r) * sc)));
                }
            }
            let g: Vec<f64> = d.iter().map(|v| v / dn).collect();
            return Some((g, dn - r, Some(dn + r)));
        }
        for j in 0..m {
            let i = if self.rule == Rule::Robin { (self.at + 1 + j) % m } else { j };
            if let Some(c) = self.cons[i].cut(x) {
                if matches!(self.rule, Rule::First | Rule::Robin) {
                    self.at = i;
                    return Some(c);
                }
                bad.push(c);
            }
        }
        if bad.is_empty() {
            return None;
        }
        bad.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
        let i = match self.rule {
            Rule::Worst => bad.len() - 1,
            Rule::Least => 0,
            _ => self.rng.int(0, bad.len() - 1),
        };
        Some(bad.swap_remove(i))
    }
}
impl OracleFeas<Arr> for Poly<SingleCut> {
    type CutChoice = SingleCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, SingleCut)> {
        let deep = self.deep;
        self.ask(x.data()).map(|(g, b, _)| (arr(&g), SingleCut(if deep { b } else { 0.0 })))
    }
}
impl OracleFeas<Arr> for Poly<ParallelCut> {
    type CutChoice = ParallelCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, ParallelCut)> {
        let (deep, par) = (self.deep, self.par);
        self.ask(x.data()).map(|(g, b, c)| (arr(&g), ParallelCut(if deep { b } else { 0.0 }, if par { c } else { None })))
    }
}

/// An initial ellipsoid that contains the ball (c, r) and lies in a ball of radius rr.
fn start(rng: &mut Rng, n: usize, c: &[f64], r: f64, rr: f64) -> (Sp, f64) {
    let room = (rr - r).max(0.0);
    let off = rng.f() * 0.9 * room;
    let u = rng.unit(n);
    let xc: Vec<f64> = (0..n).map(|i| c[i] + off * u[i]).collect();
    let full = rng.chance(0.4);
    let need = off + r; // every semi-axis at least this
    let init = if full && need < rr {
        let q = rand_orth(rng, n);
        let d: Vec<f64> = (0..n).map(|_| { let s = rng.uni(need, rr) * (1.0 + 1e-12); s * s }).collect();
        let kap = *rng.pick(&[1.0, 4.0]);
        Init { n, kind: Kind::Full, kappa: kap, m: from_eig(&q, &d, n).iter().map(|v| v / kap).collect(), c: xc }
    } else {
        let mut m = vec![0.0; n * n];
        (0..n).for_each(|i| m[i * n + i] = 1.0);
        Init { n, kind: Kind::Scalar, kappa: rr * rr, m, c: xc }
    };
    let sp = match rng.int(0, 4) {
        0 => init.ell(true),
        1 | 2 => init.ell(false),
        _ => init.stable(),
    };
    (sp, rr)
}

fn run_feas<O, T>(om: &mut O, sp: &mut Sp, opt: &Options) -> (Option<Vec<f64>>, usize)
where
    O: OracleFeas<Arr, CutChoice = T>,
    T: UpdateByCutChoice<ellalgo_rs::ell::Ell, ArrayType = Arr> + UpdateByCutChoice<ellalgo_rs::ell_stable::EllStable, ArrayType = Arr>,
{
    let (x, i) = match sp {
        Sp::E(e) => cutting_plane_feas(om, e, opt),
        Sp::S(e) => cutting_plane_feas(om, e, opt),
    };
    (x.map(|a| a.data().to_vec()), i)
}
fn run_optim<O, T>(om: &mut O, sp: &mut Sp, gamma: &mut f64, opt: &Options) -> (Option<Vec<f64>>, usize)
where
    O: OracleOptim<Arr, CutChoice = T>,
    T: UpdateByCutChoice<ellalgo_rs::ell::Ell, ArrayType = Arr> + UpdateByCutChoice<ellalgo_rs::ell_stable::EllStable, ArrayType = Arr>,
{
    let (x, i) = match sp {
        Sp::E(e) => cutting_plane_optim(om, e, gamma, opt),
        Sp::S(e) => cutting_plane_optim(om, e, gamma, opt),
    };
    (x.map(|a| a.data().to_vec()), i)
}

pub fn bound(n: usize, rr: f64, r: f64) -> usize {
    let nf = n as f64;
    (2.0 * nf * (nf + 1.0) * (rr / r).ln()).max(0.0).ceil() as usize + 1
}

pub fn c13(k: &mut Case) {
    if k.idx % 8 == 7 {
        return c13_lmi(k);
    }
    let n = if k.rng.chance(0.003) { k.rng.int(13, 32) } else { *k.rng.pick(&[1, 2, 2, 3, 4, 5, 6, 8, 10, 12]) };
    let scale = if k.rng.chance(0.7) { 1.0 } else { k.rng.logu(-15.0, 15.0) };
    let rr = scale * k.rng.uni(1.0, 10.0);
    let r = rr * k.rng.logu(-4.0, -0.3);
    let c: Vec<f64> = (0..n).map(|_| k.rng.sym() * rr * *k.rng.pick(&[0.0, 1.0, 10.0])).collect();
    let rule = *k.rng.pick(&[Rule::First, Rule::Worst, Rule::Least, Rule::Random, Rule::Robin, Rule::Resist]);
    let mut cons = vec![];
    for _ in 0..k.rng.int(1, 3 * n + 2) {
        if k.rng.chance(0.15) {
            let rho = r * k.rng.logu(0.0, 2.0);
            let u = k.rng.unit(n);
            let off = (rho - r) * k.rng.f();
            cons.push(Con::Ball(axpy(&c, off, &u), rho * (1.0 + 1e-12)));
        } else {
            let s = if k.rng.chance(0.3) { k.rng.logu(-3.0, 3.0) } else { 1.0 };
            let a: Vec<f64> = if k.rng.chance(0.2) {
                let mut e = vec![0.0; n];
                e[k.rng.int(0, n - 1)] = s;
                e
            } else {
                k.rng.unit(n).iter().map(|v| v * s).collect()
            };
            let an = norm(&a);
            let m = dot(&a, &c);
            let slack = 1e-12 * (m.abs() + an * rr);
            let u = m + an * r * k.rng.logu(0.0, 1.0) + slack;
            let l = if k.rng.chance(0.5) { m - an * r * k.rng.logu(0.0, 2.0) - slack } else { f64::NEG_INFINITY };
            cons.push(Con::Strip(a, l, u));
        }
    }
    let feasible = k.rng.chance(0.85);
    if !feasible {
        let u = k.rng.unit(n);
        let m = dot(&u, &c);
        cons.push(Con::Strip(u.clone(), f64::NEG_INFINITY, m - 0.1 * r));
        cons.push(Con::Strip(u.iter().map(|v| -v).collect(), f64::NEG_INFINITY, -m - 0.1 * r));
    }
    let (mut sp, rr) = start(&mut k.rng, n, &c, r, rr);
    let name = sp.name();
    let kb = bound(n, rr, r);
    let opt = Options::new(if feasible { kb + 5 } else { kb * 2 + 200 }, 0.0);
    let rule = if feasible || rule != Rule::Resist { rule } else { Rule::Random };
    let single = k.rng.chance(0.5);
    let deep = k.rng.chance(0.7);
    let par = k.rng.chance(0.8);
    let seed = k.rng.u64();
    let check = cons.clone();
    let ball = (c.clone(), r);
    let (x, it, q) = if single {
        let mut om: Poly<SingleCut> = Poly { cons, rule, deep, par, rng: Rng::new(seed), at: 0, ball: ball.clone(), queries: 0, _c: Default::default() };
        let (x, it) = run_feas(&mut om, &mut sp, &opt);
        (x, it, om.queries)
    } else {
        let mut om: Poly<ParallelCut> = Poly { cons, rule, deep, par, rng: Rng::new(seed), at: 0, ball: ball.clone(), queries: 0, _c: Default::default() };
        let (x, it) = run_feas(&mut om, &mut sp, &opt);
        (x, it, om.queries)
    };
    let ctx = format!(
        "{name} n={n} {rule:?} {} {} R={rr:e} r={r:e} R/r={:.1e}, {} constraints, centre of the feasible ball {c:?}",
        if single { "single" } else { "parallel" },
        if deep { "deep" } else { "central" },
        rr / r,
        check.len()
    );
    k.eval(hvec(hkey(&[n as f64, r, rr, seed as f64]), &c));
    k.evn("oracle queries observed", q as u64);
    if feasible {
        k.ev(&format!("feasible {name}"));
        k.ev(&format!("rule {rule:?}"));
        if !k.check(x.is_some(), || format!("a feasible problem was given up after {it} iterations (bound {kb}); {ctx}")) {
            return;
        }
        if !k.check(it <= kb, || format!("{it} iterations, above the bound {kb}; {ctx}")) {
            return;
        }
        if rule != Rule::Resist {
            let x = x.unwrap();
            let bad = check.iter().find(|c| c.cut(&x).is_some());
            k.check(bad.is_none(), || format!("the returned point {x:?} violates {bad:?}; {ctx}"));
        }
        k.sample(|| format!("solved in {it} iterations, bound {kb}; {ctx}"));
    } else {
        k.ev("infeasible");
        k.check(x.is_none(), || format!("an infeasible problem got the answer {x:?}; {ctx}"));
    }
}

fn sym_rand(r: &mut Rng, m: usize) -> Vec<f64> {
    let mut a = vec![0.0; m * m];
    for i in 0..m {
        for j in 0..=i {
            let v = r.sym();
            a[i * m + j] = v;
            a[j * m + i] = v;
        }
    }
    a
}

fn c13_lmi(k: &mut Case) {
    let n = k.rng.int(1, 5);
    let m = k.rng.int(1, 5);
    let c: Vec<f64> = (0..n).map(|_| k.rng.sym() * 2.0).collect();
    let fs: Vec<Vec<f64>> = (0..n).map(|_| sym_rand(&mut k.rng, m)).collect();
    let rr = k.rng.uni(1.0, 10.0);
    let r = rr * k.rng.logu(-3.0, -0.5);
    // B = sum c_k F_k + S with lambda_min(S) >= r * sqrt(sum |F_k|^2)
    let fn2: f64 = fs.iter().map(|f| dot(f, f)).sum::<f64>().sqrt();
    let q = rand_orth(&mut k.rng, m);
    let d: Vec<f64> = (0..m).map(|_| r * fn2 * k.rng.uni(1.001, 2.0)).collect();
    let mut b = from_eig(&q, &d, m);
    for (ck, f) in c.iter().zip(&fs) {
        for i in 0..m * m {
            b[i] += ck * f[i];
        }
    }
    let mut om = LMIOracle::new(fs.iter().map(|f| Arr::with_data(f.clone(), m, m)).collect(), Arr::with_data(b.clone(), m, m));
    let (mut sp, rr) = start(&mut k.rng, n, &c, r, rr);
    let name = sp.name();
    let kb = bound(n, rr, r);
    let (x, it) = run_feas(&mut om, &mut sp, &Options::new(kb + 5, 0.0));
    k.eval(hvec(hkey(&[n as f64, m as f64, r]), &c));
    k.ev("feasible LMI");
    let ctx = format!("{name} LMI n={n} m={m} R={rr} r={r:e} centre {c:?} F={fs:?} B={b:?}");
    if !k.check(x.is_some() && it <= kb, || format!("LMI with a feasible ball: {x:?} after {it} iterations, bound {kb}; {ctx}")) {
        return;
    }
    let x = x.unwrap();
    let mut f = b.clone();
    for (xk, fk) in x.iter().zip(&fs) {
        for i in 0..m * m {
            f[i] -= xk * fk[i];
        }
    }
    let (w, _) = jacobi(&f, m);
    let lo = w.iter().fold(f64::INFINITY, |a, b| a.min(*b));
    k.check(lo > -1e-9 * fn2, || format!("returned point {x:?} has smallest eigenvalue {lo:e}; {ctx}"));
}

// ---------------------------------------------------------------- optimization
#[derive(Clone, Debug)]
enum Obj {
    Linear(Vec<f64>),
    /// (x-s)'A(x-s)/2
    Quad(Vec<f64>, Vec<f64>),
    /// max a_i.(x-s)
    Max(Vec<Vec<f64>>, Vec<f64>),
    L1(Vec<f64>),
    L2(Vec<f64>),
    Linf(Vec<f64>),
}
impl Obj {
    fn eval(&self, x: &[f64]) -> (f64, Vec<f64>) {
        let n = x.len();
        match self {
            Obj::Linear(c) => (dot(c, x), c.clone()),
            Obj::Quad(a, s) => {
                let d = sub(x, s);
                let g = mv(a, n, &d);
                (0.5 * dot(&g, &d), g)
            }
            Obj::Max(aa, s) => {
                let d = sub(x, s);
                let mut best = (f64::NEG_INFINITY, 0);
                for (i, a) in aa.iter().enumerate() {
                    let v = dot(a, &d);
                    if v > best.0 {
                        best = (v, i);
                    }
                }
                (best.0, aa[best.1].clone())
            }
            Obj::L1(s) => {
                let d = sub(x, s);
                (d.iter().map(|v| v.abs()).sum(), d.iter().map(|v| if *v >= 0.0 { 1.0 } else { -1.0 }).collect())
            }
            Obj::L2(s) => {
                let d = sub(x, s);
                let m = norm(&d);
                (m, if m == 0.0 { vec![0.0; n] } else { d.iter().map(|v| v / m).collect() })
            }
            Obj::Linf(s) => {
                let d = sub(x, s);
                let mut b = 0;
                for i in 0..n {
                    if d[i].abs() > d[b].abs() {
                        b = i;
                    }
                }
                let mut g = vec![0.0; n];
                g[b] = if d[b] >= 0.0 { 1.0 } else { -1.0 };
                (d[b].abs(), g)
            }
        }
    }
}

struct Prob<C> {
    obj: Obj,
    cons: Vec<Con>,
    robin: usize,
    use_robin: bool,
    improvements: u64,
    queries: u64,
    _c: std::marker::PhantomData<C>,
}
impl<C> Prob<C> {
    fn ask(&mut self, x: &[f64], gamma: &mut f64) -> ((Vec<f64>, f64, Option<f64>), bool) {
        self.queries += 1;
        let m = self.cons.len();
        for j in 0..m {
            let i = if self.use_robin { (self.robin + 1 + j) % m } else { j };
            if let Some(c) = self.cons[i].cut(x) {
                self.robin = i;
                return (c, false);
            }
        }
        let (f, g) = self.obj.eval(x);
        if f < *gamma {
            *gamma = f;
            self.improvements += 1;
            return ((g, 0.0, None), true);
        }
        ((g, f - *gamma, None), false)
    }
}
impl OracleOptim<Arr> for Prob<SingleCut> {
    type CutChoice = SingleCut;
    fn assess_optim(&mut self, x: &Arr, gamma: &mut f64) -> ((Arr, SingleCut), bool) {
        let ((g, b, _), s) = self.ask(x.data(), gamma);
        ((arr(&g), SingleCut(b)), s)
    }
}
impl OracleOptim<Arr> for Prob<ParallelCut> {
    type CutChoice = ParallelCut;
    fn assess_optim(&mut self, x: &Arr, gamma: &mut f64) -> ((Arr, ParallelCut), bool) {
        let ((g, b, c), s) = self.ask(x.data(), gamma);
        ((arr(&g), ParallelCut(b, c)), s)
    }
}

pub fn c14(k: &mut Case) {
    let n = if k.rng.chance(0.003) { k.rng.int(9, 20) } else { *k.rng.pick(&[1, 2, 2, 3, 3, 4, 5, 6, 8]) };
    let rr = k.rng.uni(1.0, 10.0);
    let xc: Vec<f64> = (0..n).map(|_| k.rng.sym() * rr * *k.rng.pick(&[0.0, 0.0, 1.0, 5.0])).collect();
    // the optimum (or the centre of the problem) inside the initial ball
    let u = k.rng.unit(n);
    let s = axpy(&xc, 0.6 * rr * k.rng.f(), &u);
    let mut cons = vec![];
    let fam = k.rng.int(0, 7);
    // obj, f*, an upper bound on max f over the feasible part of the ball, radius of a ball inside it
    let (obj, fstar, fmax, rin) = match fam {
        0 => {
            // linear over a ball
            let c: Vec<f64> = k.rng.unit(n).iter().map(|v| v * 3.0).collect();
            let rho = 0.3 * rr;
            cons.push(Con::Ball(s.clone(), rho));
            let m = dot(&c, &s);
            let cn = norm(&c);
            (Obj::Linear(c), m - cn * rho, m + cn * rho, rho)
        }
        1 => {
            let q = rand_orth(&mut k.rng, n);
            let d: Vec<f64> = (0..n).map(|_| k.rng.logu(-2.0, 2.0)).collect();
            let lm = d.iter().fold(0.0f64, |a, b| a.max(*b));
            (Obj::Quad(from_eig(&q, &d, n), s.clone()), 0.0, 0.5 * lm * 4.0 * rr * rr, rr)
        }
        2 => {
            // 0 in the interior of the convex hull of the slopes
            let mut aa: Vec<Vec<f64>> = (0..n + k.rng.int(0, 3)).map(|_| k.rng.unit(n)).collect();
            let mut sum = vec![0.0; n];
            for a in &aa {
                sum = axpy(&sum, -1.0, a);
            }
            aa.push(sum);
            let m = aa.iter().map(|a| norm(a)).fold(0.0f64, f64::max);
            (Obj::Max(aa, s.clone()), 0.0, m * 2.0 * rr, rr)
        }
        3 => (Obj::L1(s.clone()), 0.0, (n as f64).sqrt() * 2.0 * rr, rr),
        4 => (Obj::L2(s.clone()), 0.0, 2.0 * rr, rr),
        5 => (Obj::Linf(s.clone()), 0.0, 2.0 * rr, rr),
        6 => {
            // projection of s onto a half-space or strip that leaves it out
            let a = k.rng.unit(n);
            let d = rr * k.rng.uni(0.05, 0.3);
            let m = dot(&a, &s);
            let l = if k.rng.chance(0.5) { m - d - rr * 0.4 } else { f64::NEG_INFINITY };
            cons.push(Con::Strip(a, l, m - d));
            // the strip's part of the ball still holds a ball of radius about rr*0.02
            (Obj::Quad({ let mut e = vec![0.0; n * n]; (0..n).for_each(|i| e[i * n + i] = 1.0); e }, s.clone()), 0.5 * d * d, 2.0 * rr * rr, 0.02 * rr)
        }
        _ => {
            // linear over a box, via strips: optimum at a vertex
            let c: Vec<f64> = (0..n).map(|_| k.rng.sym() + 0.1).collect();
            let h = 0.3 * rr / (n as f64).sqrt();
            let mut f = 0.0;
            for i in 0..n {
                let mut e = vec![0.0; n];
                e[i] = 1.0;
                cons.push(Con::Strip(e, s[i] - h, s[i] + h));
                f += c[i] * s[i] - c[i].abs() * h;
            }
            let cs: f64 = c.iter().map(|v| v.abs()).sum();
            (Obj::Linear(c), f, f + 2.0 * cs * h, h)
        }
    };
    let vrange = fmax - fstar;
    let eps = vrange * k.rng.logu(-7.0, -2.0);
    let kb = bound(n, rr * vrange / eps, rin) + 1;
    let mut m = vec![0.0; n * n];
    (0..n).for_each(|i| m[i * n + i] = 1.0);
    let init = Init { n, kind: Kind::Scalar, kappa: rr * rr, m, c: xc.clone() };
    let mut sp = match k.rng.int(0, 4) {
        0 => init.ell(true),
        1 | 2 => init.ell(false),
        _ => init.stable(),
    };
    let name = sp.name();
    let mut gamma = f64::INFINITY;
    let opt = Options::new(kb, 0.0);
    let single = k.rng.chance(0.5);
    let use_robin = k.rng.chance(0.5);
    let o2 = obj.clone();
    let c2 = cons.clone();
    let (x, it, imp, q) = if single {
        let mut om: Prob<SingleCut> = Prob { obj, cons, robin: 0, use_robin, improvements: 0, queries: 0, _c: Default::default() };
        let (x, it) = run_optim(&mut om, &mut sp, &mut gamma, &opt);
        (x, it, om.improvements, om.queries)
    } else {
        let mut om: Prob<ParallelCut> = Prob { obj, cons, robin: 0, use_robin, improvements: 0, queries: 0, _c: Default::default() };
        let (x, it) = run_optim(&mut om, &mut sp, &mut gamma, &opt);
        (x, it, om.improvements, om.queries)
    };
    k.eval(hvec(hkey(&[n as f64, fam as f64, eps, rr]), &s));
    k.ev(&format!("family {}", ["linear over ball", "quadratic", "max of affine", "l1", "l2", "linf", "projection", "linear over box"][fam]));
    k.ev(&format!("runs on {name}"));
    k.evn("improvements observed", imp);
    k.evn("oracle queries observed", q);
    let ctx = format!("{name} n={n} {} objective {o2:?} constraints {c2:?} start {xc:?} R={rr}", if single { "single" } else { "parallel" });
    let x = match x {
        Some(x) => x,
        None => {
            k.fail(format!("no point returned after {it} iterations (bound {kb}); {ctx}"));
            return;
        }
    };
    let f = o2.eval(&x).0;
    if !k.check((f - gamma).abs() <= 1e-12 * (1.0 + f.abs()), || format!("gamma {gamma} is not the objective {f} at the returned point; {ctx}")) {
        return;
    }
    if !k.check(c2.iter().all(|c| c.cut(&x).is_none()), || format!("returned point {x:?} violates a constraint; {ctx}")) {
        return;
    }
    let gap = f - fstar;
    if !k.check(gap <= eps * (1.0 + 1e-6) + 1e-11 * vrange && gap >= -1e-9 * vrange, || {
        format!("objective {f} vs optimum {fstar}: gap {gap:e} above {eps:e} after {it} iterations (limit {kb}); {ctx}")
    }) {
        return;
    }
    k.sample(|| format!("gap {gap:e} <= {eps:e} after {it} iterations (limit {kb}); {ctx}"));
}
