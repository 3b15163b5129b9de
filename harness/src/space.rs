//! The two search spaces of the library behind one observable interface, and the random
//! ellipsoids / cuts that drive them. The shape of a space is observed through its public API only:
//! `tsq()` after a central update of a clone is gᵀPg.
use crate::lin::*;
use crate::rng::Rng;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::{CutStatus, ParallelCut, SearchSpace, SingleCut};
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_stable::EllStable;

#[derive(Clone)]
pub enum Sp {
    E(Ell),
    S(EllStable),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Bias,
    Central,
    Q,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Beta {
    S(f64),
    P(f64, Option<f64>),
}
impl Beta {
    pub fn b0(&self) -> f64 {
        match self {
            Beta::S(b) => *b,
            Beta::P(b, _) => *b,
        }
    }
    pub fn b1(&self) -> Option<f64> {
        match self {
            Beta::S(_) => None,
            Beta::P(_, b) => *b,
        }
    }
    pub fn scale(&self, s: f64) -> Beta {
        match self {
            Beta::S(b) => Beta::S(b * s),
            Beta::P(b, c) => Beta::P(b * s, c.map(|c| c * s)),
        }
    }
}

fn upd<S: SearchSpace<ArrayType = Arr>>(s: &mut S, op: Op, g: &Arr, b: Beta) -> CutStatus
where
    SingleCut: ellalgo_rs::cutting_plane::UpdateByCutChoice<S, ArrayType = Arr>,
    ParallelCut: ellalgo_rs::cutting_plane::UpdateByCutChoice<S, ArrayType = Arr>,
{
    match b {
        Beta::S(b) => {
            let cut = (g.clone(), SingleCut(b));
            match op {
                Op::Bias => s.update_bias_cut(&cut),
                Op::Central => s.update_central_cut(&cut),
                Op::Q => s.update_q(&cut),
            }
        }
        Beta::P(b0, b1) => {
            let cut = (g.clone(), ParallelCut(b0, b1));
            match op {
                Op::Bias => s.update_bias_cut(&cut),
                Op::Central => s.update_central_cut(&cut),
                Op::Q => s.update_q(&cut),
            }
        }
    }
}

impl Sp {
    pub fn name(&self) -> &'static str {
        match self {
            Sp::E(e) if e.no_defer_trick => "Ell(no-defer)",
            Sp::E(_) => "Ell",
            Sp::S(_) => "EllStable",
        }
    }
    pub fn upd(&mut self, op: Op, g: &[f64], b: Beta) -> CutStatus {
        let ga = Arr::from(g.to_vec());
        match self {
            Sp::E(e) => upd(e, op, &ga, b),
            Sp::S(e) => upd(e, op, &ga, b),
        }
    }
    pub fn center(&self) -> Vec<f64> {
        match self {
            Sp::E(e) => e.xc().data().to_vec(),
            Sp::S(e) => e.xc().data().to_vec(),
        }
    }
    pub fn set_center(&mut self, x: &[f64]) {
        match self {
            Sp::E(e) => e.set_xc(Arr::from(x.to_vec())),
            Sp::S(e) => e.set_xc(Arr::from(x.to_vec())),
        }
    }
    pub fn tsq(&self) -> f64 {
        match self {
            Sp::E(e) => e.tsq(),
            Sp::S(e) => e.tsq(),
        }
    }
    /// uᵀPu, observed through a central update of a clone
    pub fn quad(&self, u: &[f64]) -> f64 {
        let mut c = self.clone();
        c.upd(Op::Central, u, Beta::S(0.0));
        c.tsq()
    }
    /// The shape matrix P = κM.
    pub fn shape(&self) -> Vec<f64> {
        match self {
            Sp::E(e) => e.mq.data().iter().map(|v| v * e.kappa).collect(),
            Sp::S(_) => self.probe_shape(),
        }
    }
    pub fn probe_shape(&self) -> Vec<f64> {
        let n = self.center().len();
        let mut p = vec![0.0; n * n];
        let mut u = vec![0.0; n];
        let mut s = vec![0.0; n];
        for i in 0..n {
            u[i] = 1.0;
            p[i * n + i] = self.quad(&u);
            u[i] = 0.0;
            s[i] = 1.0 / p[i * n + i].sqrt();
        }
        for i in 0..n {
            for j in 0..i {
                u[i] = s[i];
                u[j] = s[j];
                let a = self.quad(&u);
                u[j] = -s[j];
                let b = self.quad(&u);
                u[i] = 0.0;
                u[j] = 0.0;
                let v = (a - b) / 4.0 / (s[i] * s[j]);
                p[i * n + j] = v;
                p[j * n + i] = v;
            }
        }
        p
    }
}

/// A concrete initial ellipsoid {x : (x-c)ᵀ (κM)⁻¹ (x-c) ≤ 1} and how it is constructed.
#[derive(Clone, Debug)]
pub struct Init {
    pub n: usize,
    pub kind: Kind,
    pub kappa: f64,
    pub m: Vec<f64>,
    pub c: Vec<f64>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Scalar,
    Diag,
    Full,
}
impl Init {
    pub fn p(&self) -> Vec<f64> {
        self.m.iter().map(|v| v * self.kappa).collect()
    }
    pub fn ell(&self, no_defer: bool) -> Sp {
        let c = Arr::from(self.c.clone());
        let n = self.n;
        let mut e = match self.kind {
            Kind::Scalar => Ell::new_with_scalar(self.kappa, c),
            Kind::Diag => Ell::new(
                Arr::from((0..n).map(|i| self.m[i * n + i]).collect::<Vec<_>>()),
                c,
            ),
            Kind::Full => {
                let m = Arr::with_data(self.m.clone(), n, n);
                if self.kappa == 1.0 {
                    Ell::from_covariance(m, c)
                } else {
                    Ell::new_with_matrix(self.kappa, m, c)
                }
            }
        };
        e.no_defer_trick = no_defer;
        Sp::E(e)
    }
    pub fn stable(&self) -> Sp {
        let c = Arr::from(self.c.clone());
        let n = self.n;
        Sp::S(match self.kind {
            Kind::Scalar => EllStable::new_with_scalar(self.kappa, c),
            Kind::Diag => EllStable::new(
                Arr::from((0..n).map(|i| self.m[i * n + i]).collect::<Vec<_>>()),
                c,
            ),
            Kind::Full => {
                EllStable::new_with_matrix(self.kappa, Arr::with_data(self.m.clone(), n, n), c)
            }
        })
    }
}

pub fn gen_dim(r: &mut Rng, max: usize) -> usize {
    let k = r.int(0, 9);
    let d = match k {
        0 => 1,
        1 | 2 => 2,
        3 => 3,
        4 => 4,
        5 | 6 => r.int(2, 8),
        7 | 8 => r.int(2, 14),
        _ => r.int(10, max.max(10)),
    };
    d.min(max)
}

/// Small whole numbers everywhere: exact coincidences of intermediate values.
fn int_init(r: &mut Rng, n: usize) -> Init {
    let kind = *r.pick(&[Kind::Scalar, Kind::Diag, Kind::Full, Kind::Full, Kind::Full]);
    let mut m = vec![0.0; n * n];
    let mut kappa = 1.0;
    match kind {
        Kind::Scalar => {
            kappa = r.int(1, 9) as f64;
            (0..n).for_each(|i| m[i * n + i] = 1.0);
        }
        Kind::Diag => (0..n).for_each(|i| m[i * n + i] = r.int(1, 9) as f64),
        Kind::Full => {
            if r.chance(0.5) {
                kappa = *r.pick(&[0.25, 0.5, 2.0, 4.0, 9.0]);
            }
            for i in 0..n {
                for j in 0..i {
                    let v = r.int(0, 2) as f64 - 1.0;
                    m[i * n + j] = v;
                    m[j * n + i] = v;
                }
            }
            for i in 0..n {
                let s: f64 = (0..n).filter(|&j| j != i).map(|j| m[i * n + j].abs()).sum();
                m[i * n + i] = s + r.int(1, 3) as f64;
            }
        }
    }
    let c = (0..n).map(|_| r.int(0, 6) as f64 - 3.0).collect();
    Init { n, kind, kappa, m, c }
}

/// `wide`: scales up to 1e±50 instead of 1e±3
pub fn gen_init(r: &mut Rng, n: usize, wide: bool) -> Init {
    if !wide && r.chance(0.08) {
        return int_init(r, n);
    }
    let s2 = if wide { r.logu(-100.0, 100.0) } else { r.logu(-6.0, 6.0) };
    let kind = *r.pick(&[Kind::Scalar, Kind::Diag, Kind::Full, Kind::Full]);
    let spread = if r.chance(0.3) { 5.0 } else { 2.0 };
    let mut m = vec![0.0; n * n];
    let mut kappa = 1.0;
    match kind {
        Kind::Scalar => {
            kappa = s2;
            for i in 0..n {
                m[i * n + i] = 1.0;
            }
        }
        Kind::Diag => {
            for i in 0..n {
                m[i * n + i] = s2 * r.logu(0.0, spread);
            }
        }
        Kind::Full => {
            if r.chance(0.7) {
                kappa = r.logu(-3.0, 3.0);
            }
            let q = rand_orth(r, n);
            let d: Vec<f64> = (0..n).map(|_| s2 * r.logu(0.0, spread)).collect();
            m = from_eig(&q, &d, n);
        }
    }
    let sc = (s2 * kappa.max(1e-3)).sqrt();
    let off = *r.pick(&[0.0, 0.0, 1.0, 10.0, 1000.0]);
    let c = (0..n).map(|_| off * sc * r.sym()).collect();
    Init { n, kind, kappa, m, c }
}

/// A gradient direction of moderate size relative to the shape; `prev` is the last one used.
pub fn gen_grad(r: &mut Rng, n: usize, prev: &[f64], sc: f64) -> Vec<f64> {
    let k = r.int(0, 11);
    let mag = match r.int(0, 9) {
        0 => r.logu(-8.0, 8.0),
        1 => 1.0,
        _ => r.logu(-2.0, 2.0),
    } * sc;
    let mut g = vec![0.0; n];
    match k {
        0 | 1 => {
            let i = r.int(0, n - 1);
            g[i] = if r.chance(0.5) { 1.0 } else { -1.0 };
        }
        2 => {
            for v in g.iter_mut() {
                if r.chance(0.4) {
                    *v = r.sym();
                }
            }
            if norm(&g) == 0.0 {
                let i = r.int(0, n - 1);
                g[i] = 1.0;
            }
        }
        3 if norm(prev) > 0.0 => {
            let pn = norm(prev);
            let e = r.logu(-4.0, -1.0);
            for i in 0..n {
                g[i] = prev[i] / pn + e * r.sym();
            }
        }
        4 if norm(prev) > 0.0 => {
            let pn = norm(prev);
            let s = if r.chance(0.5) { 1.0 } else { -1.0 };
            for i in 0..n {
                g[i] = s * prev[i] / pn;
            }
        }
        5 => g.iter_mut().for_each(|v| *v = 1.0),
        6 => {
            for v in g.iter_mut() {
                *v = r.int(0, 4) as f64 - 2.0;
            }
            if norm(&g) == 0.0 {
                g[0] = 1.0;
            }
        }
        _ => g = r.unit(n),
    }
    if norm(&g) == 0.0 {
        g[0] = 1.0;
    }
    if matches!(k, 0 | 1 | 5 | 6) && (0.02..50.0).contains(&sc) && r.chance(0.5) {
        return g; // whole numbers
    }
    let s = norm(&g);
    g.iter().map(|v| v / s * mag).collect()
}

/// Cut depths relative to tau. Kinds cover every regime of single and parallel cuts.
pub fn gen_beta(r: &mut Rng, n: usize, tau: f64) -> (Beta, &'static str) {
    let nf = n as f64;
    fn single(r: &mut Rng, nf: f64, k: usize) -> (f64, &'static str) {
        match k {
            0 => (0.0, "zero"),
            1 => (r.f(), "deep"),
            2 => (1.0 - r.logu(-4.0, -1.0), "very deep"),
            3 => (-r.f() / nf, "shallow"),
            4 => (-r.uni(1.0 / nf, 1.0), "ineffective"),
            5 => (-r.uni(1.0, 10.0), "beyond"),
            6 => (r.uni(1.0, 10.0), "infeasible"),
            7 => (r.logu(-12.0, -3.0), "barely deep"),
            _ => (r.uni(0.0, 0.5), "deep"),
        }
    }
    if r.chance(0.45) {
        let k = r.int(0, 8);
        let (a, nm) = single(r, nf, k);
        return (Beta::S(a * tau), nm);
    }
    if r.chance(0.08) {
        let k = r.int(0, 8);
        let (a, _) = single(r, nf, k);
        return (Beta::P(a * tau, None), "parallel-none");
    }
    let w = r.f();
    let (a0, a1, nm) = match r.int(0, 12) {
        0 => (0.0, w, "parallel central"),
        1 => {
            let a = w * r.f();
            (a, a + (1.0 - a) * r.f(), "parallel deep")
        }
        2 => {
            let a = w * 0.9;
            (a, a + r.logu(-3.0, -1.5), "parallel thin")
        }
        3 => (w, 1.0 + r.f() * 5.0, "parallel far"),
        4 => (-w * 0.5, w * 0.5, "parallel symmetric"),
        5 => (-r.f() * r.f(), r.f(), "parallel shallow"),
        6 => {
            let a = -r.f();
            (a, a * r.f(), "parallel behind")
        }
        7 => {
            let a = r.sym();
            (a, a - r.f() - 1e-3, "parallel crossed")
        }
        8 => {
            let a = 1.0 + r.f();
            (a, a + r.f(), "parallel infeasible")
        }
        9 => {
            let a = -1.0 - r.f();
            (a - r.f(), a, "parallel missed")
        }
        10 => (-1.0 - r.f() * 3.0, r.uni(-0.95, 0.95), "parallel beyond"),
        11 => (-r.f() / nf, 1.0 + r.f(), "parallel far shallow"),
        _ => {
            let a = r.f() * 0.3;
            (a, a + 0.05 + 0.5 * r.f(), "parallel deep")
        }
    };
    (Beta::P(a0 * tau, Some(a1 * tau)), nm)
}
