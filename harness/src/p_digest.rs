//! C29, C30: digests of everything the library computes, compared across runs, threads, histories,
//! verbosity, processes and build configurations.
use crate::lin::*;
use crate::mon::*;
use crate::rng::{mix, Rng};
use crate::space::*;
use ellalgo_rs::arr::{self, Arr};
use ellalgo_rs::conjugate_gradient::conjugate_gradient;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_calc::EllCalc;
use ellalgo_rs::ell_stable::EllStable;
use ellalgo_rs::oracles::ldlt_mgr::LDLTMgr;
use ellalgo_rs::oracles::lmi0_oracle::LMI0Oracle;
use ellalgo_rs::oracles::lmi_old_oracle::LMIOldOracle;
use ellalgo_rs::oracles::lmi_oracle::LMIOracle;
use ellalgo_rs::oracles::lowpass_oracle::{create_lowpass_case, LowpassOracle};
use ellalgo_rs::oracles::maxcut_oracle::MaxcutOracle;
use ellalgo_rs::oracles::profit_oracle::{ProfitOracle, ProfitOracleQ, ProfitRbOracle};
use ellalgo_rs::oracles::svm_oracle::SvmOracle;
use ellalgo_rs::power_iteration as pw;
use ellalgo_rs::quasicvx::MyOracle;

/// Hash, number of values, and whether zeros of either sign count as equal (work on whole numbers and ties,
/// where the sign of a zero may depend on the instruction chosen for a minimum or maximum).
pub struct Dig(pub u64, pub u64, bool);
impl Dig {
    pub fn u(&mut self, v: u64) {
        self.0 = mix(self.0 ^ v);
        self.1 += 1;
    }
    pub fn f(&mut self, v: f64) {
        // NaN payloads are unspecified; signed zeros are not
        let v = if self.2 && v == 0.0 { 0.0 } else { v };
        self.u(if v.is_nan() { 0x7ff8_0000_0000_0000 } else { v.to_bits() })
    }
    pub fn v(&mut self, v: &[f64]) {
        self.u(v.len() as u64);
        for t in v {
            self.f(*t);
        }
    }
    fn a(&mut self, a: &Arr) {
        self.u(a.rows() as u64);
        self.u(a.cols() as u64);
        self.v(a.data());
    }
    fn st(&mut self, s: &CutStatus) {
        self.u(match s {
            CutStatus::Success => 1,
            CutStatus::NoSoln => 2,
            CutStatus::NoEffect => 3,
            CutStatus::Unknown => 4,
        })
    }
    fn opt(&mut self, x: &Option<Arr>) {
        match x {
            None => self.u(77),
            Some(a) => self.a(a),
        }
    }
    fn sp(&mut self, s: &Sp) {
        self.v(&s.center());
        self.f(s.tsq());
        if let Sp::E(e) = s {
            self.a(&e.mq);
            self.f(e.kappa);
        }
    }
    fn trip(&mut self, t: (f64, f64, f64)) {
        self.f(t.0);
        self.f(t.1);
        self.f(t.2);
    }
    fn stt(&mut self, t: (CutStatus, (f64, f64, f64))) {
        self.st(&t.0);
        self.trip(t.1);
    }
}

pub const KINDS: u64 = 23;

fn ar(v: &[f64]) -> Arr {
    Arr::from(v.to_vec())
}
fn small_init(r: &mut Rng, max: usize) -> Init {
    let n = gen_dim(r, max);
    let wide = r.chance(0.2);
    gen_init(r, n, wide)
}
fn space(r: &mut Rng, i: &Init) -> Sp {
    match r.int(0, 2) {
        0 => i.ell(false),
        1 => i.ell(true),
        _ => i.stable(),
    }
}
fn one_cut(r: &mut Rng, s: &Sp, prev: &mut Vec<f64>) -> (Op, Vec<f64>, Beta) {
    let n = s.center().len();
    let g = gen_grad(r, n, prev, 1.0);
    let tau = s.quad(&g).sqrt();
    let (b, _) = gen_beta(r, n, tau);
    *prev = g.clone();
    (*r.pick(&[Op::Bias, Op::Bias, Op::Central, Op::Q]), g, b)
}

/// A polyhedron with the ball (x0, 1) inside, cycling through its rows.
struct Rows {
    a: Vec<Vec<f64>>,
    b: Vec<f64>,
    at: usize,
    gamma: f64,
    dir: Vec<f64>,
}
impl Rows {
    fn new(r: &mut Rng, n: usize) -> Rows {
        let m = r.int(1, 3 * n + 1);
        let x0: Vec<f64> = (0..n).map(|_| 3.0 * r.sym()).collect();
        let a: Vec<Vec<f64>> = (0..m).map(|_| r.unit(n)).collect();
        let b = a.iter().map(|t| dot(t, &x0) + 0.2 + r.f()).collect();
        Rows { a, b, at: 0, gamma: 1e9, dir: r.unit(n) }
    }
    fn ask(&mut self, x: &Arr) -> Option<(Vec<f64>, f64)> {
        for _ in 0..self.a.len() {
            self.at = (self.at + 1) % self.a.len();
            let v = dot(&self.a[self.at], x.data()) - self.b[self.at];
            if v > 0.0 {
                return Some((self.a[self.at].clone(), v));
            }
        }
        let v = dot(&self.dir, x.data()) - self.gamma;
        if v > 0.0 {
            return Some((self.dir.clone(), v));
        }
        None
    }
}
impl OracleFeas<Arr> for Rows {
    type CutChoice = SingleCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, SingleCut)> {
        self.ask(x).map(|(g, b)| (Arr::from(g), SingleCut(b)))
    }
    fn update(&mut self, gamma: f64) {
        self.gamma = gamma;
    }
}
impl OracleOptim<Arr> for Rows {
    type CutChoice = SingleCut;
    fn assess_optim(&mut self, x: &Arr, gamma: &mut f64) -> ((Arr, SingleCut), bool) {
        self.gamma = *gamma;
        match self.ask(x) {
            Some((g, b)) => ((Arr::from(g), SingleCut(b)), false),
            None => {
                *gamma = dot(&self.dir, x.data());
                ((Arr::from(self.dir.clone()), SingleCut(0.0)), true)
            }
        }
    }
}

fn sym_mat(r: &mut Rng, n: usize, ints: bool) -> Vec<f64> {
    let mut m = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..=i {
            let v = if ints { r.int(0, 6) as f64 - 3.0 } else { r.normal() };
            m[i * n + j] = v;
            m[j * n + i] = v;
        }
    }
    m
}

/// One piece of library work; everything it observes goes into the digest. `size` scales it (1 for normal,
/// smaller under interpreters).
pub fn work(seed: u64, kind: u64, verbose: bool, light: bool) -> Dig {
    let mut d = Dig(kind, 0, kind >= 14);
    let mut rng = Rng::new(mix(seed ^ mix(kind)));
    rng.exact = true;
    let r = &mut rng;
    let max_dim = if light { 4 } else { 20 };
    let steps = if light { 4 } else { 30 };
    let opts = |it: usize, tol: f64| Options { max_iters: if light { it.min(12) } else { it }, tolerance: tol, verbose };
    match kind {
        0 => {
            let i = small_init(r, max_dim);
            let mut s = space(r, &i);
            let mut prev = vec![];
            for _ in 0..r.int(1, steps) {
                let (op, g, b) = one_cut(r, &s, &mut prev);
                let st = s.upd(op, &g, b);
                d.st(&st);
                d.sp(&s);
            }
        }
        1 => {
            for _ in 0..steps {
                let n = r.int(2, 40);
                let mut calc = EllCalc::new(n);
                if r.chance(0.2) {
                    calc.use_parallel_cut = false;
                }
                let tsq = r.logu(-20.0, 20.0);
                let tau = tsq.sqrt();
                let (b0, b1) = (r.sym() * 1.2 * tau, r.sym() * 1.2 * tau);
                let o1 = if r.chance(0.7) { Some(b1) } else { None };
                d.stt(calc.calc_single_or_parallel_bias_cut(&ParallelCut(b0, o1), tsq));
                d.stt(calc.calc_single_or_parallel_central_cut(&ParallelCut(b0, o1.map(f64::abs)), tsq));
                d.stt(calc.calc_single_or_parallel_q(&ParallelCut(b0, o1), tsq));
                d.stt(calc.calc_bias_cut(b0, tsq));
                d.stt(calc.calc_bias_cut_q(b0, tsq));
                d.stt(calc.calc_central_cut(tsq));
                d.stt(calc.calc_parallel_bias_cut(b0, b1, tsq));
                d.stt(calc.calc_parallel_q(b0, b1, tsq));
                d.stt(calc.calc_parallel_central_cut(b1.abs(), tsq));
                d.trip(calc.helper.calc_central_cut(tsq));
                let lo = b0.abs().min(b1.abs()).min(tau * 0.9);
                let hi = b0.abs().max(b1.abs()).min(tau * 0.99).max(lo);
                d.trip(calc.helper.calc_parallel_bias_cut(lo, hi, tsq));
                d.trip(calc.helper.calc_parallel_central_cut(hi, tsq));
            }
        }
        2 | 3 => {
            let n = r.int(1, if light { 3 } else { 7 });
            let mut o = Rows::new(r, n);
            let kappa = 400.0;
            let x0 = Arr::new(n);
            let mut gam = 50.0;
            let opt = opts(r.int(0, 300), 1e-10);
            if r.chance(0.5) {
                let mut e = Ell::new_with_scalar(kappa, x0);
                if kind == 2 {
                    let (x, it) = cutting_plane_feas(&mut o, &mut e, &opt);
                    d.opt(&x);
                    d.u(it as u64);
                } else {
                    let (x, it) = cutting_plane_optim(&mut o, &mut e, &mut gam, &opt);
                    d.opt(&x);
                    d.u(it as u64);
                }
                d.sp(&Sp::E(e));
            } else {
                let mut e = EllStable::new_with_scalar(kappa, x0);
                if kind == 2 {
                    let (x, it) = cutting_plane_feas(&mut o, &mut e, &opt);
                    d.opt(&x);
                    d.u(it as u64);
                } else {
                    let (x, it) = cutting_plane_optim(&mut o, &mut e, &mut gam, &opt);
                    d.opt(&x);
                    d.u(it as u64);
                }
                d.sp(&Sp::S(e));
            }
            d.f(gam);
        }
        4 | 9 => {
            let p = (r.uni(5.0, 40.0), r.uni(5.0, 60.0), r.uni(2.0, 60.0));
            let e = [r.uni(0.05, 0.4), r.uni(0.05, 0.5)];
            let v = [r.uni(1.0, 50.0), r.uni(1.0, 50.0)];
            let opt = opts(r.int(0, 200), 1e-12);
            let mut gam = 0.0;
            let mut el = Ell::new(ar(&[100.0, 100.0]), ar(&[0.0, 0.0]));
            let mut es = EllStable::new(ar(&[100.0, 100.0]), ar(&[0.0, 0.0]));
            let st = r.chance(0.5);
            let (x, it) = if kind == 4 {
                let mut o = ProfitOracleQ::new(p, ar(&e), ar(&v));
                if st {
                    cutting_plane_optim_q(&mut o, &mut es, &mut gam, &opt)
                } else {
                    cutting_plane_optim_q(&mut o, &mut el, &mut gam, &opt)
                }
            } else if r.chance(0.5) {
                let mut o = ProfitOracle::new(p, ar(&e), ar(&v));
                if st {
                    cutting_plane_optim(&mut o, &mut es, &mut gam, &opt)
                } else {
                    cutting_plane_optim(&mut o, &mut el, &mut gam, &opt)
                }
            } else {
                let mut o = ProfitRbOracle::new(p, ar(&e), ar(&v), (0.01, 0.01, 1.0, 0.5, 0.5));
                if st {
                    cutting_plane_optim(&mut o, &mut es, &mut gam, &opt)
                } else {
                    cutting_plane_optim(&mut o, &mut el, &mut gam, &opt)
                }
            };
            d.opt(&x);
            d.u(it as u64);
            d.f(gam);
            d.sp(&Sp::E(el));
            d.sp(&Sp::S(es));
        }
        5 => {
            let n = r.int(1, 4);
            let o = Rows::new(r, n);
            let inner = opts(100, 1e-8);
            let outer = opts(30, 1e-4);
            let mut ivl = (-30.0, 30.0);
            if r.chance(0.5) {
                let mut ad = BSearchAdaptor::new(o, Ell::new_with_scalar(400.0, Arr::new(n)), inner);
                let (f, it) = bsearch(&mut ad, &mut ivl, &outer);
                d.u(f as u64);
                d.u(it as u64);
                d.v(ad.space.xc().data());
            } else {
                let mut ad = BSearchAdaptor::new(o, EllStable::new_with_scalar(400.0, Arr::new(n)), inner);
                let (f, it) = bsearch(&mut ad, &mut ivl, &outer);
                d.u(f as u64);
                d.u(it as u64);
                d.v(ad.space.xc().data());
            }
            d.f(ivl.0);
            d.f(ivl.1);
        }
        6 => {
            let n = r.int(1, if light { 4 } else { 12 });
            let mut m = LDLTMgr::new(n);
            for _ in 0..r.int(1, 6) {
                let ints = r.chance(0.5);
                let mut a = sym_mat(r, n, ints);
                if r.chance(0.6) {
                    for i in 0..n {
                        a[i * n + i] += r.int(0, 2 * n) as f64;
                    }
                }
                let am = Arr::from_shape_vec(n, n, a.clone());
                let ok = match r.int(0, 2) {
                    0 => m.factorize(&am),
                    1 => m.factor(|i, j| a[i * n + j]),
                    _ => m.factor_with_allow_semidefinite(|i, j| a[i * n + j]),
                };
                d.u(ok as u64);
                d.u(m.is_spd() as u64);
                d.u(m.pos.0 as u64);
                d.u(m.pos.1 as u64);
                if m.is_spd() {
                    // a zero pivot of the semidefinite variant has no square root to compare
                    d.a(&m.sqrt());
                } else {
                    d.f(m.witness());
                    d.a(&m.wit);
                    d.f(m.sym_quad(&am));
                }
            }
        }
        7 => {
            let n = r.int(1, 4);
            let m = r.int(1, if light { 3 } else { 6 });
            let f: Vec<Arr> = (0..n).map(|_| Arr::from_shape_vec(m, m, sym_mat(r, m, false))).collect();
            let mut b = sym_mat(r, m, false);
            for i in 0..m {
                b[i * m + i] += m as f64;
            }
            let b = Arr::from_shape_vec(m, m, b);
            let mut o1 = LMIOracle::new(f.clone(), b.clone());
            let mut o2 = LMIOldOracle::new(f.clone(), b);
            let mut o3 = LMI0Oracle::new(f.clone());
            for _ in 0..4 {
                let x = ar(&r.normals(n));
                for cut in [o1.assess_feas(&x), o2.assess_feas(&x)] {
                    match cut {
                        None => d.u(5),
                        Some((g, SingleCut(b))) => {
                            d.a(&g);
                            d.f(b);
                        }
                    }
                }
                match o3.assess_feas(&x) {
                    None => d.u(5),
                    Some((g, b)) => {
                        d.a(&g);
                        d.f(b);
                    }
                }
            }
            let mut e = Ell::new_with_scalar(25.0, ar(&r.normals(n)));
            let (x, it) = cutting_plane_feas(&mut o1, &mut e, &opts(200, 1e-10));
            d.opt(&x);
            d.u(it as u64);
            d.sp(&Sp::E(e));
        }
        8 => {
            let n = r.int(2, if light { 3 } else { 8 });
            let mut o = LowpassOracle::new(n, r.uni(0.1, 0.3), r.uni(0.4, 0.7), 0.5, 1.5, 0.3);
            let pk = create_lowpass_case(n);
            for t in [pk.lp_sq, pk.up_sq, pk.sp_sq] {
                // constants the compiler may evaluate itself: compared to 12 digits
                d.f((t * 1e12).round());
            }
            d.u(o.nwpass as u64);
            d.u(o.nwstop as u64);
            let mut gam = 0.3;
            let opt = opts(r.int(0, 300), 1e-12);
            if r.chance(0.5) {
                let mut e = Ell::new_with_scalar(40.0, Arr::new(n));
                let (x, it) = cutting_plane_optim(&mut o, &mut e, &mut gam, &opt);
                d.opt(&x);
                d.u(it as u64);
            } else {
                let mut e = EllStable::new_with_scalar(40.0, Arr::new(n));
                let (x, it) = cutting_plane_feas(&mut o, &mut e, &opt);
                d.opt(&x);
                d.u(it as u64);
            }
            d.f(gam);
        }
        10 => {
            let mut e = Ell::new_with_scalar(r.uni(5.0, 50.0), ar(&[r.sym(), r.sym()]));
            let mut gam = 0.0;
            let (x, it) = cutting_plane_optim(&mut MyOracle::default(), &mut e, &mut gam, &opts(150, 1e-12));
            d.opt(&x);
            d.u(it as u64);
            d.f(gam);
        }
        11 => {
            let nf = r.int(1, 4);
            let m = r.int(2, 12);
            let data = r.normals(m * nf);
            let lab: Vec<i32> = (0..m).map(|i| if data[i * nf] > 0.0 { 1 } else { -1 }).collect();
            let mut o = SvmOracle::new(Arr::from_shape_vec(m, nf, data), lab);
            let mut gam = f64::NEG_INFINITY;
            let mut e = EllStable::new_with_scalar(1e4, Arr::new(nf + 1));
            let (x, it) = cutting_plane_optim(&mut o, &mut e, &mut gam, &opts(200, 1e-12));
            d.opt(&x);
            d.u(it as u64);
            d.f(gam);
            let n = r.int(2, 7);
            let mut w = sym_mat(r, n, true);
            for t in w.iter_mut() {
                *t = t.abs();
            }
            let mut o = MaxcutOracle::new(Arr::from_shape_vec(n, n, w));
            let mut gam = f64::NEG_INFINITY;
            let mut e = Ell::new_with_scalar(10.0, ar(&r.normals(n)));
            let (x, it) = cutting_plane_optim(&mut o, &mut e, &mut gam, &opts(60, 1e-9));
            d.opt(&x);
            d.u(it as u64);
            d.f(gam);
        }
        12 => {
            let n = r.int(1, if light { 4 } else { 10 });
            let q = rand_orth(r, n);
            let ev: Vec<f64> = (0..n).map(|i| if i == 0 { 2.0 } else { r.uni(0.3, 1.5) }).collect();
            let a = Arr::from_shape_vec(n, n, from_eig(&q, &ev, n));
            let b = ar(&r.normals(n));
            match conjugate_gradient(&a, &b, None, 1e-9, 100) {
                Ok(x) => d.a(&x),
                Err(e) => d.u(e.len() as u64),
            }
            let o = pw::Options { max_iters: if light { 6 } else { r.int(0, 300) }, tolerance: 1e-9 };
            for f in [pw::power_iteration, pw::power_iteration2, pw::power_iteration3, pw::power_iteration4] {
                let mut x = b.clone();
                let (l, it) = f(&a, &mut x, &o);
                d.f(l);
                d.u(it as u64);
                d.a(&x);
            }
        }
        14..=22 => hostile(&mut d, r, kind, light, &opts),
        _ => {
            let (m, n) = (r.int(1, 6), r.int(1, 6));
            let a = Arr::from_shape_vec(m, n, r.normals(m * n));
            let b = Arr::from_shape_vec(m, n, r.normals(m * n));
            let x = ar(&r.normals(n));
            let k = r.normal();
            d.a(&(&a + &b));
            d.a(&(&a - &b));
            d.a(&(&a * &b));
            d.a(&(&a * k));
            d.a(&(&a / k));
            d.a(&(-&a));
            d.a(&a.dot_mv(&x));
            d.a(&x.outer(&a.row(0)));
            d.f(x.dot(&a.row(m - 1)));
            d.f(a.sum());
            let mut p = Arr::eye(n);
            p.rank_one_update(k, &x);
            d.a(&p);
            d.a(&arr::linspace(k, 3.0, n));
            d.a(&arr::cos(&a));
            d.a(&arr::exp(&a));
            d.a(&Arr::from_diag(&x));
        }
    }
    d
}

fn ints(r: &mut Rng, n: usize, k: usize) -> Vec<f64> {
    (0..n).map(|_| r.int(0, 2 * k) as f64 - k as f64).collect()
}
/// Whole numbers, zeros, or ordinary values.
fn mixed(r: &mut Rng, n: usize) -> Vec<f64> {
    match r.int(0, 3) {
        0 => ints(r, n, 1),
        1 => ints(r, n, 3),
        2 => r.normals(n),
        _ => r.normals(n).iter().map(|t| if r.chance(0.3) { 0.0 } else { *t }).collect(),
    }
}
impl Dig {
    fn s(&mut self, t: &str) {
        self.u(t.len() as u64);
        for b in t.bytes() {
            self.u(b as u64);
        }
    }
    fn cut1(&mut self, c: &(Arr, SingleCut)) {
        self.a(&c.0);
        self.f(c.1 .0);
    }
    fn cut2(&mut self, c: &(Arr, ParallelCut)) {
        self.a(&c.0);
        self.f(c.1 .0);
        match c.1 .1 {
            None => self.u(9),
            Some(t) => self.f(t),
        }
    }
    fn refused<T>(&mut self, f: impl FnOnce() -> T) {
        let r = try_run(f);
        self.u(r.is_err() as u64);
    }
}
struct Above(f64);
impl OracleBS for Above {
    fn assess_bs(&mut self, gamma: f64) -> bool {
        gamma >= self.0
    }
}

/// Ties, whole numbers, degenerate sizes and refused calls.
fn hostile(d: &mut Dig, r: &mut Rng, kind: u64, light: bool, opts: &dyn Fn(usize, f64) -> Options) {
    let steps = if light { 3 } else { 12 };
    match kind {
        14 => {
            for _ in 0..steps {
                let n = r.int(1, 9);
                let mut calc = EllCalc::new(n);
                calc.use_parallel_cut = r.chance(0.8);
                let tau = r.int(1, 6) as f64;
                let tsq = tau * tau;
                let mut pick = |r: &mut Rng| {
                    let k = *r.pick(&[-1.0, -1.0 / n as f64, -0.5, 0.0, -0.0, 0.5, 1.0, 1.5, -2.0]);
                    k * tau + *r.pick(&[0.0, 0.0, 0.0, 1.0, -1.0])
                };
                let (b0, mut b1) = (pick(r), pick(r));
                if r.chance(0.15) && b0 != 0.0 {
                    b1 = -tsq / (n as f64 * b0);
                }
                let o1 = if r.chance(0.8) { Some(b1) } else { None };
                let pc = ParallelCut(b0, o1);
                d.stt(calc.calc_single_or_parallel_bias_cut(&pc, tsq));
                d.stt(calc.calc_single_or_parallel_central_cut(&pc, tsq));
                d.stt(calc.calc_single_or_parallel_q(&pc, tsq));
                d.stt(calc.calc_bias_cut(b0, tsq));
                d.stt(calc.calc_bias_cut_q(b0, tsq));
                d.stt(calc.calc_parallel_bias_cut(b0, b1, tsq));
                d.stt(calc.calc_parallel_q(b0, b1, tsq));
                d.stt(calc.calc_parallel_central_cut(b1, tsq));
                d.stt(calc.calc_central_cut(tsq));
                let h = &calc.helper;
                let (lo, hi) = (b0.min(b1), b0.max(b1));
                if hi < tau && lo > -tau && tsq + n as f64 * lo * hi > 0.0 {
                    let eta = tsq + n as f64 * lo * hi;
                    d.trip(h.calc_parallel_bias_cut(lo, hi, tsq));
                    d.trip(h.calc_parallel_bias_cut_fast(lo, hi, tsq, lo * hi, eta));
                    d.trip(h.calc_parallel_bias_cut_fast_old(lo, hi, tsq, lo * hi, eta));
                    d.trip(h.calc_bias_cut(lo, tau));
                    d.trip(h.calc_bias_cut_fast(lo, tau, tau + n as f64 * lo));
                    if hi > 0.0 {
                        d.trip(h.calc_parallel_central_cut(hi, tsq));
                    }
                }
            }
        }
        15 => {
            let n = r.int(1, if light { 3 } else { 7 });
            let a = match r.int(0, 2) {
                0 => sym_mat(r, n, true),
                1 => ints(r, n * n, 2),
                _ => sym_mat(r, n, false),
            };
            let a = Arr::from_shape_vec(n, n, a);
            let b = ar(&mixed(r, n));
            let x0 = ar(&mixed(r, n));
            let tol = *r.pick(&[1e-9, 1e-3, 1.0, 0.0, 1e-300]);
            let it = *r.pick(&[0usize, 1, 2, n, 30]);
            match conjugate_gradient(&a, &b, if r.chance(0.5) { Some(&x0) } else { None }, tol, it) {
                Ok(x) => d.a(&x),
                Err(e) => d.s(e),
            }
            let o = pw::Options { max_iters: *r.pick(&[0usize, 1, 2, 7, 25]), tolerance: tol };
            for f in [pw::power_iteration, pw::power_iteration2, pw::power_iteration3, pw::power_iteration4] {
                let mut x = x0.clone();
                let (l, it) = f(&a, &mut x, &o);
                d.f(l);
                d.u(it as u64);
                d.a(&x);
            }
        }
        16 => {
            let nf = r.int(1, 4);
            let m = r.int(1, 9);
            let data = mixed(r, m * nf);
            let lab: Vec<i32> = (0..m).map(|_| if r.chance(0.5) { 1 } else { -1 }).collect();
            let mut o = SvmOracle::new(Arr::from_shape_vec(m, nf, data), lab);
            let n = r.int(1, 7);
            let ints = r.chance(0.6);
            let mut mc = MaxcutOracle::new(Arr::from_shape_vec(n, n, sym_mat(r, n, ints)));
            let mut my = MyOracle::default();
            let (mut g1, mut g2, mut g3) = (f64::NEG_INFINITY, f64::NEG_INFINITY, 0.0);
            for _ in 0..steps {
                let (c, b) = o.assess_optim(&ar(&mixed(r, nf + 1)), &mut g1);
                d.cut1(&c);
                d.u(b as u64);
                d.f(g1);
                let (c, b) = mc.assess_optim(&ar(&mixed(r, n)), &mut g2);
                d.cut1(&c);
                d.u(b as u64);
                d.f(g2);
                let (c, b) = my.assess_optim(&ar(&mixed(r, 2)), &mut g3);
                d.cut1(&c);
                d.u(b as u64);
                d.f(g3);
                if r.chance(0.1) {
                    g3 = *r.pick(&[0.0, -1.0, 1.0]);
                }
            }
        }
        17 => {
            let n = r.int(1, if light { 3 } else { 9 });
            let (wp, ws) = (r.uni(0.05, 0.4), r.uni(0.45, 0.8));
            let mut o = LowpassOracle::new(n, wp, ws, 0.5, *r.pick(&[1.0, 1.5, 2.0]), 1.0);
            let mut gam = *r.pick(&[1.0, 2.0, 0.3]);
            for k in 0..steps {
                let mut x = if r.chance(0.6) { vec![0.0; n] } else { mixed(r, n) };
                if r.chance(0.8) {
                    x[0] = *r.pick(&[0.0, 0.5, 1.0, 1.5, -1.0, 0.75]);
                }
                if n > 1 && r.chance(0.3) {
                    x[1] = 0.2 * r.sym();
                }
                if r.chance(0.5) {
                    match o.assess_feas(&ar(&x)) {
                        None => d.u(3),
                        Some(c) => d.cut2(&c),
                    }
                } else {
                    let (c, b) = o.assess_optim(&ar(&x), &mut gam);
                    d.cut2(&c);
                    d.u(b as u64);
                    d.f(gam);
                    if k % 4 == 3 {
                        gam = 1.5;
                    }
                }
                d.u(o.more_alt as u64);
                d.f(o.fmax);
                d.u(o.kmax as u64);
                for t in [o.idx1, o.idx2, o.idx3] {
                    d.u(t as u64);
                }
            }
        }
        18 => {
            let whole = r.chance(0.5);
            let p = if whole { (r.int(1, 30) as f64, r.int(1, 30) as f64, r.int(1, 40) as f64) } else { (r.uni(1.0, 40.0), r.uni(1.0, 60.0), r.uni(0.7, 60.0)) };
            let e = ar(&[r.uni(0.05, 0.4), r.uni(0.05, 0.5)]);
            let v = ar(&[r.uni(0.5, 50.0), r.uni(0.5, 50.0)]);
            let mut o1 = ProfitOracle::new(p, e.clone(), v.clone());
            let mut o2 = ProfitOracleQ::new(p, e.clone(), v.clone());
            let mut o3 = ProfitRbOracle::new(p, e, v, (0.01, 0.02, 0.1, 0.1, 0.3));
            let mut g = [0.0; 3];
            for _ in 0..steps {
                let y: Vec<f64> = (0..2)
                    .map(|_| match r.int(0, 3) {
                        0 => 0.0,
                        1 => (r.int(1, 12) as f64).ln(),
                        2 => (r.int(0, 12) as f64 + 0.5).ln(),
                        _ => 3.0 * r.sym(),
                    })
                    .collect();
                let y = ar(&y);
                let (c, b) = o1.assess_optim(&y, &mut g[0]);
                d.cut1(&c);
                d.u(b as u64);
                let (c, b) = o3.assess_optim(&y, &mut g[2]);
                d.cut1(&c);
                d.u(b as u64);
                let (c, b, x, alt) = o2.assess_optim_q(&y, &mut g[1], r.chance(0.3));
                d.cut1(&c);
                d.u(b as u64);
                d.a(&x);
                d.u(alt as u64);
                d.v(&g);
            }
        }
        19 => {
            let m = r.int(1, if light { 3 } else { 6 });
            let gram = |r: &mut Rng| {
                let mut a = vec![0.0; m * m];
                for _ in 0..r.int(1, m + 1) {
                    let v = ints(r, m, 1);
                    for i in 0..m {
                        for j in 0..m {
                            a[i * m + j] += v[i] * v[j];
                        }
                    }
                }
                a
            };
            let mut mg = LDLTMgr::new(m);
            for _ in 0..steps {
                let a = if r.chance(0.6) { gram(r) } else { sym_mat(r, m, true) };
                let am = Arr::from_shape_vec(m, m, a.clone());
                let semi = r.chance(0.6);
                let ok = if semi { mg.factor_with_allow_semidefinite(|i, j| a[i * m + j]) } else { mg.factorize(&am) };
                d.u(ok as u64);
                d.u(mg.pos.0 as u64);
                d.u(mg.pos.1 as u64);
                if !ok {
                    d.f(mg.witness());
                    d.a(&mg.wit);
                    d.f(mg.sym_quad(&am));
                    d.refused(|| mg.sqrt());
                } else {
                    if !semi {
                        d.a(&mg.sqrt());
                    }
                    d.refused(|| mg.witness());
                }
            }
            let n = r.int(1, 4);
            let f: Vec<Arr> = (0..n).map(|_| Arr::from_shape_vec(m, m, sym_mat(r, m, true))).collect();
            let b = Arr::from_shape_vec(m, m, gram(r));
            let mut o1 = LMIOracle::new(f.clone(), b.clone());
            let mut o2 = LMIOldOracle::new(f.clone(), b);
            let mut o3 = LMI0Oracle::new(f);
            for _ in 0..steps {
                let x = ar(&mixed(r, n));
                for c in [o1.assess_feas(&x), o2.assess_feas(&x)] {
                    match c {
                        None => d.u(3),
                        Some(c) => d.cut1(&c),
                    }
                }
                match o3.assess_feas(&x) {
                    None => d.u(3),
                    Some((g, b)) => {
                        d.a(&g);
                        d.f(b);
                    }
                }
            }
        }
        20 => {
            let (m, n) = (r.int(1, 5), r.int(1, 5));
            let a = Arr::from_shape_vec(m, n, mixed(r, m * n));
            let b = Arr::from_shape_vec(m, n, mixed(r, m * n));
            let (x, y) = (ar(&mixed(r, n)), ar(&mixed(r, m)));
            let k = *r.pick(&[0.0, 1.0, -2.0, 0.1]);
            for t in [a.clone() + &b, a.clone() - &b, a.clone() * &b, a.clone() * k, k * &a, k * a.clone(), a.clone() / k, -a.clone(), a.map(|t| t * t + k)] {
                d.a(&t);
            }
            let mut t = a.clone();
            t += &b;
            d.a(&t);
            t -= &a;
            d.a(&t);
            t += k;
            t -= 0.5;
            t *= k;
            d.a(&t);
            t /= k;
            d.a(&t);
            t.copy_from(&b);
            d.a(&t);
            d.u((t == b) as u64);
            d.u((a == b) as u64);
            t.set(m - 1, n - 1, k);
            *t.at_mut(0, n - 1) += 1.0;
            d.f(t.get(0, 0) + t.at(m - 1, n - 1));
            d.a(&t.row(m - 1));
            d.a(&a.dot_mv(&x));
            d.a(&y.outer(&x));
            d.f(x.dot(&x));
            d.a(&Arr::from_diag(&y));
            d.a(&Arr::from_fn(n, |i| i as f64 * k));
            for t in [Arr::new(n), Arr::ones(n), Arr::eye(n), Arr::zeros(m, n), Arr::full(m, n, k), arr::make_same_shape(&a)] {
                d.a(&t);
            }
            for t in [arr::abs(&a), arr::cos(&a), arr::exp(&a), arr::sqrt(&arr::abs(&a)), arr::ln(&arr::abs(&a))] {
                d.a(&t);
            }
            let (s, e) = (*r.pick(&[0.0, 1.0, -2.5, 0.25]), r.int(0, 9) as f64 + *r.pick(&[0.0, 0.5, 0.25]));
            d.a(&arr::arange(s, e));
            d.a(&arr::linspace(s, e, r.int(0, 6)));
            let mut p = Arr::eye(n);
            p.rank_one_update(k, &x);
            d.a(&p);
            let w = ar(&mixed(r, n + 1));
            d.refused(|| &x + &w);
            d.refused(|| &w - &x);
            d.refused(|| x.dot(&w));
            d.refused(|| a.dot_mv(&w));
            d.refused(|| Arr::from_shape_vec(m, n, vec![0.0; m * n + 1]));
            d.refused(|| a.row(m));
            d.refused(|| {
                let mut q = Arr::eye(n);
                q.rank_one_update(1.0, &w);
            });
        }
        21 => {
            use ellalgo_rs::error::EllipsoidError as E;
            let v = *r.pick(&[None, Some(0.0), Some(1.5), Some(-2e-9), Some(f64::INFINITY), Some(1e20)]);
            let t = r.pick(&["", "x", "two words"]).to_string();
            let (i, m) = (r.int(0, 300), *r.pick(&[0, 7, usize::MAX]));
            let es = [
                E::NonConvergence { iterations: i, max_iters: m, final_value: v },
                E::Infeasible { reason: t.clone() },
                E::NumericalInstability { details: t.clone(), value: v },
                E::InvalidParameters { details: t.clone() },
                E::MatrixError { details: t },
            ];
            for e in &es {
                d.s(&format!("{e}"));
                d.s(&format!("{e:?}"));
                d.u((e == &e.clone()) as u64);
            }
            for s in [CutStatus::Success, CutStatus::NoSoln, CutStatus::NoEffect, CutStatus::Unknown] {
                d.s(&format!("{s}"));
            }
            let o = Options::default();
            d.u(o.max_iters as u64);
            d.f(o.tolerance);
            d.u(o.verbose as u64);
            let o = Options::new(i, 0.25);
            d.u(o.max_iters as u64);
            d.f(o.tolerance);
            // drivers with odd options
            let tol = *r.pick(&[-1.0, 0.0, 1e-6, 1.0, f64::INFINITY]);
            let opt = opts(*r.pick(&[0usize, 1, 2, 60]), tol);
            let th = *r.pick(&[0.0, 1.0, 0.5, 7.0, -7.0]);
            let mut ivl = *r.pick(&[(0.0, 1.0), (1.0, 1.0), (-4.0, 4.0), (0.0, 8.0)]);
            let (f, it) = bsearch(&mut Above(th), &mut ivl, &opt);
            d.u(f as u64);
            d.u(it as u64);
            d.f(ivl.0);
            d.f(ivl.1);
            d.refused(|| bsearch(&mut Above(th), &mut (1.0, 0.0), &opt));
            let n = r.int(1, 3);
            let mut w = Rows::new(r, n);
            let mut e = Ell::new_with_scalar(100.0, Arr::new(n));
            let (x, it) = cutting_plane_feas(&mut w, &mut e, &opt);
            d.opt(&x);
            d.u(it as u64);
            let mut gam = 20.0;
            let mut e = EllStable::new_with_scalar(100.0, Arr::new(n));
            let (x, it) = cutting_plane_optim(&mut w, &mut e, &mut gam, &opt);
            d.opt(&x);
            d.u(it as u64);
            d.f(gam);
        }
        _ => {
            let n = r.int(1, 4);
            let x0 = ar(&ints(r, n, 3));
            let k = *r.pick(&[1.0, 4.0, 9.0, 0.25]);
            let diag: Vec<f64> = (0..n).map(|_| *r.pick(&[1.0, 4.0, 0.25])).collect();
            let mut s = match r.int(0, 4) {
                0 => Sp::E(Ell::new_with_scalar(k, x0)),
                1 => Sp::E(Ell::new(ar(&diag), x0)),
                2 => Sp::S(EllStable::new(ar(&diag), x0)),
                3 => Sp::E(Ell::from_covariance(Arr::from_diag(&ar(&diag)), x0)),
                _ => Sp::S(EllStable::new_with_scalar(k, x0)),
            };
            for _ in 0..steps {
                let g = if r.chance(0.1) { vec![0.0; n] } else { ints(r, n, 1) };
                let tau = s.quad(&g).sqrt();
                let mut pick = |r: &mut Rng| tau * *r.pick(&[-1.0, -1.0 / n as f64, -0.5, 0.0, -0.0, 0.25, 1.0, 1.5]);
                let b = if r.chance(0.5) { Beta::S(pick(r)) } else { Beta::P(pick(r), if r.chance(0.8) { Some(pick(r)) } else { None }) };
                let st = s.upd(*r.pick(&[Op::Bias, Op::Central, Op::Q]), &g, b);
                d.st(&st);
                d.sp(&s);
                if !s.tsq().is_finite() || s.center().iter().any(|t| !t.is_finite()) {
                    break;
                }
            }
        }
    }
}

/// `ellmon digest SEED COUNT [light]`: one line per case, for comparison between builds and processes.
pub fn digest_main(seed: u64, from: u64, count: u64, light: bool, threads: usize) {
    install_panic_hook();
    let next = std::sync::atomic::AtomicU64::new(0);
    let out = std::sync::Mutex::new(vec![String::new(); count as usize]);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= count {
                    break;
                }
                let idx = from + k;
                let kind = idx % KINDS;
                let line = match try_run(|| work(mix(seed) ^ idx, kind, false, light)) {
                    Ok(d) => format!("{idx} {kind} {:016x} {}", d.0, d.1),
                    Err(m) => format!("{idx} {kind} panic {m}"),
                };
                out.lock().unwrap()[k as usize] = line;
            });
        }
    });
    for l in out.into_inner().unwrap() {
        println!("{l}");
    }
}

// ---------------------------------------------------------------- C29
pub fn c29(c: &mut Case) {
    let seed = c.rng.u64();
    let kind = c.rng.u64() % KINDS;
    let d1 = work(seed, kind, false, false);
    c.eval(seed ^ kind);
    c.evn("values compared bit by bit", d1.1);
    // other uses of the library in between, on this thread
    for _ in 0..c.rng.int(0, 3) {
        let k = c.rng.u64() % KINDS;
        let s = c.rng.u64();
        let dd = work(s, k, false, false);
        c.evn("interleaved work", dd.1.min(1));
    }
    let d2 = work(seed, kind, false, false);
    c.ev("repeated in the same thread");
    if !c.check(d1.0 == d2.0 && d1.1 == d2.1, || format!("kind {kind} seed {seed:#x}: a second run gave different results")) {
        return;
    }
    let d3 = work(seed, kind, true, false);
    c.ev("repeated verbosely");
    if !c.check(d1.0 == d3.0, || format!("kind {kind} seed {seed:#x}: verbose changed the results")) {
        return;
    }
    if c.rng.chance(0.05) {
        let (s2, k2) = (c.rng.u64(), c.rng.u64() % KINDS);
        let ds: Vec<u64> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..3)
                .map(|i| {
                    s.spawn(move || {
                        if i == 1 {
                            work(s2, k2, false, false);
                        }
                        work(seed, kind, false, false).0
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(0)).collect()
        });
        c.evn("repeated in other threads", 3);
        if !c.check(ds.iter().all(|d| *d == d1.0), || format!("kind {kind} seed {seed:#x}: another thread got different results")) {
            return;
        }
    }
    if c.idx % 256 == 0 && !cfg!(miri) {
        // a fresh process
        if let Ok(exe) = std::env::current_exe() {
            let o = std::process::Command::new(exe).args(["digest1", &seed.to_string(), &kind.to_string()]).output();
            if let Ok(o) = o {
                let t = String::from_utf8_lossy(&o.stdout).trim().to_string();
                if !t.is_empty() {
                    c.ev("repeated in a fresh process");
                    if !c.check(t == format!("{:016x}", d1.0), || format!("kind {kind} seed {seed:#x}: a fresh process got {t}, not {:016x}", d1.0)) {
                        return;
                    }
                }
            }
        }
    }
    twins(c);
}

/// Clones and interleaved histories.
fn twins(c: &mut Case) {
    let i = small_init(&mut c.rng, 10);
    let j = small_init(&mut c.rng, 10);
    let which = c.rng.int(0, 2);
    let make = |i: &Init| match which {
        0 => i.ell(false),
        1 => i.ell(true),
        _ => i.stable(),
    };
    let mut a = make(&i); // original
    let mut b = make(&i); // twin that never shares anything with a clone
    let mut other = make(&j);
    let (mut pa, mut po) = (vec![], vec![]);
    let mut clone: Option<Sp> = None;
    let mut later = vec![];
    let steps = c.rng.int(2, 12);
    let at = c.rng.int(0, steps - 1);
    let d = |s: &Sp| {
        let mut d = Dig(0, 0, false);
        d.sp(s);
        d.0
    };
    for k in 0..steps {
        if k == at {
            let cl = a.clone();
            if !c.check(d(&cl) == d(&a), || format!("a clone differs from its original: {i:?}")) {
                return;
            }
            // the clone goes its own way for a while; the original must not notice
            let before = d(&a);
            let mut wild = a.clone();
            let mut pw = vec![];
            for _ in 0..c.rng.int(1, 4) {
                let (op, g, be) = one_cut(&mut c.rng, &wild, &mut pw);
                wild.upd(op, &g, be);
            }
            c.ev("clones driven apart");
            if !c.check(d(&a) == before && d(&cl) == before, || format!("updating a clone changed its original: {i:?}")) {
                return;
            }
            clone = Some(cl);
        }
        let (op, g, be) = one_cut(&mut c.rng, &a, &mut pa);
        // the cut is passed by reference and must not change
        let sa = upd_ref(c, &mut a, op, &g, be);
        let (o2, g2, b2) = one_cut(&mut c.rng, &other, &mut po);
        other.upd(o2, &g2, b2);
        let sb = b.upd(op, &g, be);
        c.ev("twin steps");
        if !c.check(sa == sb && d(&a) == d(&b), || format!("two equal histories diverged at step {k} (interleaved with another): {i:?}")) {
            return;
        }
        if k >= at {
            later.push((op, g, be));
        }
    }
    if let Some(mut cl) = clone {
        for (op, g, be) in later {
            cl.upd(op, &g, be);
        }
        if !c.check(d(&cl) == d(&a), || format!("a clone given the same cuts ended elsewhere: {i:?}")) {
            return;
        }
    }
    c.sample(|| format!("n={} {} twin histories of {steps} cuts, cloned at {at}", i.n, a.name()));
}

fn upd_ref(c: &mut Case, s: &mut Sp, op: Op, g: &[f64], b: Beta) -> CutStatus {
    macro_rules! go {
        ($e:expr, $cut:expr) => {
            match op {
                Op::Bias => $e.update_bias_cut(&$cut),
                Op::Central => $e.update_central_cut(&$cut),
                Op::Q => $e.update_q(&$cut),
            }
        };
    }
    let ga = Arr::from(g.to_vec());
    let (st, same) = match b {
        Beta::S(x) => {
            let cut = (ga, SingleCut(x));
            let st = match s {
                Sp::E(e) => go!(e, cut),
                Sp::S(e) => go!(e, cut),
            };
            (st, cut.0.data() == g && cut.1 .0.to_bits() == x.to_bits())
        }
        Beta::P(x, y) => {
            let cut = (ga, ParallelCut(x, y));
            let st = match s {
                Sp::E(e) => go!(e, cut),
                Sp::S(e) => go!(e, cut),
            };
            (st, cut.0.data() == g && cut.1 .0.to_bits() == x.to_bits() && cut.1 .1 == y)
        }
    };
    c.ev("arguments checked");
    c.check(same, || "an update modified the cut it was given".into());
    st
}
