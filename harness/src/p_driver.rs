//! C08-C12: online trace checkers for the drivers. Scripted oracles and search spaces (the drivers are
//! generic) record every call; the log is compared with the protocol step by step, for arbitrary
//! sequences of answers, statuses, measures, limits and tolerances.
use crate::mon::*;
use crate::rng::Rng;
use crate::space::*;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    /// oracle query: point, gamma bits (optimization drivers), retry flag
    Query(u64, u64, bool),
    /// update of the space: kind ('b','c','q'), gradient id, cut id, which copy of the space
    Upd(char, u64, u64, u64),
    /// gamma handed to a feasibility oracle
    Gamma(u64),
    SetXc(u64, u64),
}
type Log = Rc<RefCell<Vec<Ev>>>;

#[derive(Clone, Debug)]
struct Answer {
    status: u8, // 0 success, 1 nosoln, 2 noeffect, 3 unknown
    tsq: f64,
    feas: bool,
    shrunk: bool,
    gamma: Option<f64>,
    more: bool,
}

fn mkstatus(s: u8) -> CutStatus {
    match s {
        0 => CutStatus::Success,
        1 => CutStatus::NoSoln,
        2 => CutStatus::NoEffect,
        _ => CutStatus::Unknown,
    }
}

/// A point is a tag: the version of the space it came from.
#[derive(Clone, Debug, PartialEq)]
struct Pt(u64);

struct MSpace {
    log: Log,
    script: Rc<Vec<Answer>>,
    copy: u64,
    copies: Rc<RefCell<u64>>,
    at: usize,
    ver: u64,
    tsq: f64,
}
impl Clone for MSpace {
    fn clone(&self) -> Self {
        *self.copies.borrow_mut() += 1;
        MSpace {
            log: self.log.clone(),
            script: self.script.clone(),
            copy: *self.copies.borrow(),
            copies: self.copies.clone(),
            at: self.at,
            ver: self.ver,
            tsq: self.tsq,
        }
    }
}
struct MCut(u64);

impl MSpace {
    fn new(log: &Log, script: &Rc<Vec<Answer>>) -> Self {
        MSpace { log: log.clone(), script: script.clone(), copy: 0, copies: Rc::new(RefCell::new(0)), at: 0, ver: 1000, tsq: 1e9 }
    }
    fn apply(&mut self, kind: char, g: &Pt, cut: u64) -> CutStatus {
        self.log.borrow_mut().push(Ev::Upd(kind, g.0, cut, self.copy));
        let a = &self.script[self.at % self.script.len()];
        self.at += 1;
        self.tsq = a.tsq;
        if a.status == 0 {
            self.ver += 1;
        }
        mkstatus(a.status)
    }
}
impl UpdateByCutChoice<MSpace> for MCut {
    type ArrayType = Pt;
    fn update_bias_cut_by(&self, s: &mut MSpace, g: &Pt) -> CutStatus {
        s.apply('b', g, self.0)
    }
    fn update_central_cut_by(&self, s: &mut MSpace, g: &Pt) -> CutStatus {
        s.apply('c', g, self.0)
    }
    fn update_q_by(&self, s: &mut MSpace, g: &Pt) -> CutStatus {
        s.apply('q', g, self.0)
    }
}
impl SearchSpace for MSpace {
    type ArrayType = Pt;
    fn xc(&self) -> Pt {
        Pt(self.ver)
    }
    fn tsq(&self) -> f64 {
        self.tsq
    }
    fn update_bias_cut<T: UpdateByCutChoice<Self, ArrayType = Pt>>(&mut self, cut: &(Pt, T)) -> CutStatus {
        cut.1.update_bias_cut_by(self, &cut.0)
    }
    fn update_central_cut<T: UpdateByCutChoice<Self, ArrayType = Pt>>(&mut self, cut: &(Pt, T)) -> CutStatus {
        cut.1.update_central_cut_by(self, &cut.0)
    }
    fn update_q<T: UpdateByCutChoice<Self, ArrayType = Pt>>(&mut self, cut: &(Pt, T)) -> CutStatus {
        cut.1.update_q_by(self, &cut.0)
    }
    fn set_xc(&mut self, x: Pt) {
        self.log.borrow_mut().push(Ev::SetXc(x.0, self.copy));
        self.ver = x.0;
    }
}

/// A space that leaves the q update to the trait's default, which applies the cut as a bias cut.
struct DSpace(MSpace);
impl UpdateByCutChoice<DSpace> for MCut {
    type ArrayType = Pt;
    fn update_bias_cut_by(&self, s: &mut DSpace, g: &Pt) -> CutStatus {
        s.0.apply('b', g, self.0)
    }
    fn update_central_cut_by(&self, s: &mut DSpace, g: &Pt) -> CutStatus {
        s.0.apply('c', g, self.0)
    }
    fn update_q_by(&self, s: &mut DSpace, g: &Pt) -> CutStatus {
        s.0.apply('q', g, self.0)
    }
}
impl SearchSpace for DSpace {
    type ArrayType = Pt;
    fn xc(&self) -> Pt {
        self.0.xc()
    }
    fn tsq(&self) -> f64 {
        self.0.tsq
    }
    fn update_bias_cut<T: UpdateByCutChoice<Self, ArrayType = Pt>>(&mut self, cut: &(Pt, T)) -> CutStatus {
        cut.1.update_bias_cut_by(self, &cut.0)
    }
    fn update_central_cut<T: UpdateByCutChoice<Self, ArrayType = Pt>>(&mut self, cut: &(Pt, T)) -> CutStatus {
        cut.1.update_central_cut_by(self, &cut.0)
    }
    fn set_xc(&mut self, x: Pt) {
        self.0.set_xc(x)
    }
}

struct MOracle {
    log: Log,
    script: Rc<Vec<Answer>>,
    at: usize,
    /// per gamma: answer from the feasibility predicate instead of the script
    gamma: f64,
}
fn gid(at: usize) -> u64 {
    7_000_000 + at as u64
}
fn cid(at: usize) -> u64 {
    9_000_000 + at as u64
}
impl OracleFeas<Pt> for MOracle {
    type CutChoice = MCut;
    fn assess_feas(&mut self, x: &Pt) -> Option<(Pt, MCut)> {
        self.log.borrow_mut().push(Ev::Query(x.0, 0, false));
        let i = self.at;
        self.at += 1;
        if self.script[i % self.script.len()].feas {
            None
        } else {
            Some((Pt(gid(i)), MCut(cid(i))))
        }
    }
    fn update(&mut self, gamma: f64) {
        self.log.borrow_mut().push(Ev::Gamma(gamma.to_bits()));
        self.gamma = gamma;
    }
}
impl OracleOptim<Pt> for MOracle {
    type CutChoice = MCut;
    fn assess_optim(&mut self, x: &Pt, gamma: &mut f64) -> ((Pt, MCut), bool) {
        self.log.borrow_mut().push(Ev::Query(x.0, gamma.to_bits(), false));
        let i = self.at;
        self.at += 1;
        let a = &self.script[i % self.script.len()];
        if let Some(g) = a.gamma {
            *gamma = g;
        }
        ((Pt(gid(i)), MCut(cid(i))), a.shrunk)
    }
}
impl OracleOptimQ<Pt> for MOracle {
    type CutChoice = MCut;
    fn assess_optim_q(&mut self, x: &Pt, gamma: &mut f64, retry: bool) -> ((Pt, MCut), bool, Pt, bool) {
        self.log.borrow_mut().push(Ev::Query(x.0, gamma.to_bits(), retry));
        let i = self.at;
        self.at += 1;
        let a = &self.script[i % self.script.len()];
        if let Some(g) = a.gamma {
            *gamma = g;
        }
        ((Pt(gid(i)), MCut(cid(i))), a.shrunk, Pt(5_000_000 + i as u64), a.more)
    }
}

struct Run {
    script: Rc<Vec<Answer>>,
    max: usize,
    tol: f64,
    verbose: bool,
    gamma0: f64,
}

fn gen(r: &mut Rng, with_unknown: bool) -> Run {
    let max = match r.int(0, 5) {
        0 => r.int(0, 2),
        1 if r.chance(0.02) => r.int(1000, 5000),
        1 if r.chance(0.0005) => r.int(66_000, 140_000),
        1 if r.chance(0.5) => *r.pick(&[450, 777, 1000, 2000, 2500, 10_000, 65_537, 1_000_000]),
        1 => r.int(50, 400),
        _ => r.int(1, 40),
    };
    let tol = if r.chance(0.06) { *r.pick(&[-1.0, -1e-20, -0.0, 1e-310, 1e30, f64::INFINITY]) } else { *r.pick(&[0.0, 1e-20, 1e-8, 1e-3, 1.0]) };
    // how likely a run is to be stopped by each cause
    let (p_status, p_small, p_feas) = match r.int(0, 4) {
        0 => (0.0, 0.0, 0.0),
        1 => (0.3, 0.0, 0.0),
        2 => (0.0, 0.15, 0.02),
        3 => (0.02, 0.02, 0.1),
        _ => (0.05, 0.02, 0.05),
    };
    let p_shr = *r.pick(&[0.0, 0.1, 0.5, 1.0]);
    let p_noeff = *r.pick(&[0.0, 0.3, 0.8]);
    // a run that is allowed far more iterations than its script lasts is stopped by a cut without solution
    let short = max >= 450 && (max > 140_000 || r.chance(0.8));
    let len = if short { r.int(1, 60) } else { max.max(1) + 3 };
    let mut g = r.sym() * 10.0;
    let mut script = vec![];
    for _ in 0..len {
        let status = if r.chance(p_status) {
            *r.pick(if with_unknown { &[1u8, 2, 3] } else { &[1u8, 2, 2] })
        } else if !with_unknown && r.chance(p_noeff) {
            2
        } else {
            0
        };
        let tsq = if r.chance(p_small) {
            *r.pick(&[tol * 0.5, 0.0, tol * 0.999])
        } else {
            *r.pick(&[tol, tol * 2.0 + 1e-30, 1.0 + tol, 1e9, 1e300, 1e300, f64::INFINITY])
        };
        let shrunk = r.chance(p_shr);
        g += r.sym();
        // an improvement may leave gamma as it is, or even write it anew without one
        if r.chance(0.01) {
            g = *r.pick(&[0.0, -0.0, 1e-310, -1e300, f64::NEG_INFINITY, 4.0]);
        }
        let gamma = if shrunk && !r.chance(0.15) || r.chance(0.1) { Some(g) } else { None };
        script.push(Answer { status, tsq, feas: r.chance(p_feas), shrunk, gamma, more: r.chance(0.7) });
    }
    if short {
        script.last_mut().unwrap().status = 1;
    }
    Run { script: Rc::new(script), max, tol, verbose: r.chance(0.2), gamma0: *r.pick(&[0.0, f64::NEG_INFINITY, f64::INFINITY, -3.5, 1e100]) }
}

fn key(r: &Run, h0: u64) -> u64 {
    let mut h = hvec(h0, &[r.max as f64, r.tol, r.gamma0]);
    for a in r.script.iter() {
        h = hvec(h, &[a.status as f64, a.tsq, a.feas as u8 as f64, a.shrunk as u8 as f64, a.gamma.unwrap_or(1.5), a.more as u8 as f64]);
    }
    h
}
fn opts(r: &Run) -> Options {
    let mut o = Options::new(r.max, r.tol);
    o.verbose = r.verbose;
    o
}

fn diff(want: &[Ev], got: &[Ev]) -> String {
    let i = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    let lo = i.saturating_sub(3);
    format!(
        "first difference at event {i}: expected {:?}, observed {:?}; expected total {} events, observed {}; context {:?}",
        want.get(i),
        got.get(i),
        want.len(),
        got.len(),
        &got[lo..(i + 1).min(got.len())]
    )
}

pub fn c08(k: &mut Case) {
    for _ in 0..8 {
        let r = gen(&mut k.rng, true);
        let log: Log = Default::default();
        let mut space = MSpace::new(&log, &r.script);
        let mut om = MOracle { log: log.clone(), script: r.script.clone(), at: 0, gamma: 0.0 };
        let (x, it) = cutting_plane_feas(&mut om, &mut space, &opts(&r));
        // the protocol
        let mut want = vec![];
        let mut ver = 1000;
        let mut res: (Option<u64>, usize, &str) = (None, r.max, "max_iters");
        for i in 0..r.max {
            let a = &r.script[i];
            want.push(Ev::Query(ver, 0, false));
            if a.feas {
                res = (Some(ver), i, "accepted");
                break;
            }
            want.push(Ev::Upd('b', gid(i), cid(i), 0));
            if a.status == 0 {
                ver += 1;
            }
            if a.status != 0 {
                res = (None, i, "status");
                break;
            }
            if a.tsq < r.tol {
                res = (None, i, "tolerance");
                break;
            }
        }
        k.eval(key(&r, 8));
        k.ev(&format!("ended by {}", res.2));
        k.evn("events observed", log.borrow().len() as u64);
        let got = log.borrow();
        if !k.check(*got == want, || format!("cutting_plane_feas departs from its protocol (max_iters {}, tolerance {:e}): {}", r.max, r.tol, diff(&want, &got))) {
            return;
        }
        if !k.check(x.as_ref().map(|p| p.0) == res.0 && it == res.1 && space.ver == ver, || {
            format!("cutting_plane_feas ended by {}: returned {x:?} after {it} iterations, expected {:?} after {}", res.2, res.0, res.1)
        }) {
            return;
        }
        k.sample(|| format!("max_iters {} tolerance {:e}: {} events, ended by {}", r.max, r.tol, got.len(), res.2));
    }
    twin_feas(k);
}

pub fn c09(k: &mut Case) {
    for _ in 0..8 {
        let r = gen(&mut k.rng, true);
        let log: Log = Default::default();
        let mut space = MSpace::new(&log, &r.script);
        let mut om = MOracle { log: log.clone(), script: r.script.clone(), at: 0, gamma: 0.0 };
        let mut gamma = r.gamma0;
        let (x, it) = cutting_plane_optim(&mut om, &mut space, &mut gamma, &opts(&r));
        let mut want = vec![];
        let mut ver = 1000;
        let mut g = r.gamma0;
        let mut best = None;
        let mut res = (r.max, "max_iters");
        for i in 0..r.max {
            let a = &r.script[i];
            want.push(Ev::Query(ver, g.to_bits(), false));
            g = a.gamma.unwrap_or(g);
            if a.shrunk {
                best = Some(ver);
            }
            want.push(Ev::Upd(if a.shrunk { 'c' } else { 'b' }, gid(i), cid(i), 0));
            if a.status == 0 {
                ver += 1;
            }
            if a.status != 0 {
                res = (i, "status");
                break;
            }
            if a.tsq < r.tol {
                res = (i, "tolerance");
                break;
            }
        }
        k.eval(key(&r, 9));
        k.ev(&format!("ended by {}", res.1));
        k.ev(if best.is_some() { "runs with an improvement" } else { "runs without improvement" });
        let got = log.borrow();
        k.evn("events observed", got.len() as u64);
        if !k.check(*got == want, || format!("cutting_plane_optim departs from its protocol (max_iters {}, tolerance {:e}): {}", r.max, r.tol, diff(&want, &got))) {
            return;
        }
        if !k.check(x.as_ref().map(|p| p.0) == best && it == res.0 && gamma.to_bits() == g.to_bits(), || {
            format!(
                "cutting_plane_optim ended by {}: returned {x:?} after {it} with gamma {gamma}, expected centre {best:?} after {} with gamma {g}",
                res.1, res.0
            )
        }) {
            return;
        }
        k.sample(|| format!("max_iters {} tolerance {:e}: {} events, ended by {}, best centre {best:?}", r.max, r.tol, got.len(), res.1));
    }
    twin_optim(k);
}

pub fn c10(k: &mut Case) {
    for round in 0..8 {
        let r = gen(&mut k.rng, false);
        let log: Log = Default::default();
        let mut space = MSpace::new(&log, &r.script);
        let mut om = MOracle { log: log.clone(), script: r.script.clone(), at: 0, gamma: 0.0 };
        let mut gamma = r.gamma0;
        let default_q = round == 3;
        let (x, it) = if default_q {
            k.ev("space without its own q update");
            cutting_plane_optim_q::<MCut, _, _>(&mut om, &mut DSpace(space), &mut gamma, &opts(&r))
        } else {
            cutting_plane_optim_q::<MCut, _, _>(&mut om, &mut space, &mut gamma, &opts(&r))
        };
        let mut want = vec![];
        let mut ver = 1000;
        let mut g = r.gamma0;
        let mut best = None;
        let mut retry = false;
        let mut retries = 0;
        let mut res = (r.max, "max_iters");
        for i in 0..r.max {
            let a = &r.script[i];
            want.push(Ev::Query(ver, g.to_bits(), retry));
            retries += retry as u64;
            g = a.gamma.unwrap_or(g);
            if a.shrunk {
                best = Some(5_000_000 + i as u64);
            }
            want.push(Ev::Upd(if default_q { 'b' } else { 'q' }, gid(i), cid(i), 0));
            if a.status == 0 {
                ver += 1;
            }
            if a.status == 1 {
                res = (i, "no solution");
                break;
            }
            if a.status == 2 && !a.more {
                res = (i, "no alternative");
                break;
            }
            retry = a.status == 2;
            if a.tsq < r.tol {
                res = (i, "tolerance");
                break;
            }
        }
        k.eval(key(&r, 10));
        k.ev(&format!("ended by {}", res.1));
        k.evn("retries", retries);
        let got = log.borrow();
        k.evn("events observed", got.len() as u64);
        if !k.check(*got == want, || format!("cutting_plane_optim_q departs from its protocol (max_iters {}, tolerance {:e}): {}", r.max, r.tol, diff(&want, &got))) {
            return;
        }
        if !k.check(x.as_ref().map(|p| p.0) == best && it == res.0 && gamma.to_bits() == g.to_bits(), || {
            format!(
                "cutting_plane_optim_q ended by {}: returned {x:?} after {it} with gamma {gamma}, expected {best:?} after {} with gamma {g}",
                res.1, res.0
            )
        }) {
            return;
        }
        k.sample(|| format!("max_iters {} tolerance {:e}: {} events, {retries} retries, ended by {}", r.max, r.tol, got.len(), res.1));
    }
}

// ---- the real ellipsoids: a twin driven by hand must see the same centres
struct Rec {
    seen: Vec<Vec<f64>>,
    cuts: Vec<(Vec<f64>, f64, bool)>,
    rng: Rng,
    n: usize,
}
impl Rec {
    fn next(&mut self, x: &Arr) -> (Arr, SingleCut) {
        let g = self.rng.unit(self.n);
        let b = self.rng.f() * 0.05;
        self.seen.push(x.data().to_vec());
        self.cuts.push((g.clone(), b, false));
        (Arr::from(g), SingleCut(b))
    }
}
impl OracleFeas<Arr> for Rec {
    type CutChoice = SingleCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, SingleCut)> {
        if self.rng.chance(0.03) {
            self.seen.push(x.data().to_vec());
            return None;
        }
        Some(self.next(x))
    }
}
impl OracleOptim<Arr> for Rec {
    type CutChoice = SingleCut;
    fn assess_optim(&mut self, x: &Arr, gamma: &mut f64) -> ((Arr, SingleCut), bool) {
        let c = self.next(x);
        let s = self.rng.chance(0.3);
        if s {
            *gamma += 1.0;
        }
        self.cuts.last_mut().unwrap().2 = s;
        (c, s)
    }
}

fn twin(k: &mut Case, optim: bool) {
    let n = k.rng.int(1, 6);
    let init = gen_init(&mut k.rng, n, false);
    let sp = if k.rng.chance(0.5) { init.stable() } else { init.ell(k.rng.chance(0.3)) };
    let mut tw = sp.clone();
    let max = k.rng.int(0, 60);
    let mut opt = Options::new(max, *k.rng.pick(&[1e-20, 1e-4, 1e-2]));
    opt.verbose = k.rng.chance(0.2);
    let mut om = Rec { seen: vec![], cuts: vec![], rng: Rng::new(k.rng.u64()), n };
    let mut gamma = 0.0;
    let (x, it, end) = match (optim, sp) {
        (false, Sp::E(mut e)) => {
            let (x, i) = cutting_plane_feas(&mut om, &mut e, &opt);
            (x, i, Sp::E(e))
        }
        (false, Sp::S(mut e)) => {
            let (x, i) = cutting_plane_feas(&mut om, &mut e, &opt);
            (x, i, Sp::S(e))
        }
        (true, Sp::E(mut e)) => {
            let (x, i) = cutting_plane_optim(&mut om, &mut e, &mut gamma, &opt);
            (x, i, Sp::E(e))
        }
        (true, Sp::S(mut e)) => {
            let (x, i) = cutting_plane_optim(&mut om, &mut e, &mut gamma, &opt);
            (x, i, Sp::S(e))
        }
    };
    k.ev("twin runs on real ellipsoids");
    k.eval(hvec(hkey(&[n as f64, max as f64]), &init.c) ^ optim as u64);
    let mut best: Option<Vec<f64>> = None;
    let mut stopped = false;
    for (i, (g, b, s)) in om.cuts.iter().enumerate() {
        let c = tw.center();
        let ok = c.iter().zip(&om.seen[i]).all(|(a, b)| a == b);
        if !k.check(ok && !stopped, || format!("query {i} was made at {:?}, but the centre was {c:?} (stopped: {stopped})", om.seen[i])) {
            return;
        }
        if *s {
            best = Some(c);
        }
        let stt = tw.upd(if *s { Op::Central } else { Op::Bias }, g, Beta::S(*b));
        stopped = stt != CutStatus::Success || tw.tsq() < opt.tolerance;
    }
    if !optim && om.seen.len() > om.cuts.len() {
        best = Some(om.seen.last().unwrap().clone());
    }
    let xs = x.map(|a| a.data().to_vec());
    let want_it = if stopped { om.cuts.len() - 1 } else if !optim && om.seen.len() > om.cuts.len() { om.cuts.len() } else { max };
    k.check(xs == best && it == want_it && end.center() == tw.center(), || {
        format!("returned {xs:?} after {it} iterations, expected {best:?} after {want_it}; final centre {:?}, twin {:?}", end.center(), tw.center())
    });
}
fn twin_feas(k: &mut Case) {
    twin(k, false)
}
fn twin_optim(k: &mut Case) {
    twin(k, true)
}

// ---- C11
struct Bs {
    probes: Vec<(f64, bool)>,
    thr: Option<f64>,
    script: Vec<bool>,
}
impl OracleBS for Bs {
    fn assess_bs(&mut self, g: f64) -> bool {
        let a = match self.thr {
            Some(t) => g >= t,
            None => self.script[self.probes.len() % self.script.len()],
        };
        self.probes.push((g, a));
        a
    }
}

pub fn c11(k: &mut Case) {
    for _ in 0..8 {
        let sc = if k.rng.chance(0.5) { 1.0 } else { k.rng.logu(-30.0, 30.0) };
        let l0 = k.rng.sym() * sc * *k.rng.pick(&[1.0, 100.0, 0.0]);
        let w = match k.rng.int(0, 4) {
            0 => 0.0,
            1 => sc * k.rng.logu(-3.0, 3.0),
            _ => sc * k.rng.f() * 10.0,
        };
        let (l0, w) = if k.rng.chance(0.06) {
            // ends near the top of the number range: their sum is not representable
            let l0 = k.rng.uni(0.6, 1.0) * 1.6e308;
            let w = (1.7e308 - l0) * k.rng.f();
            if k.rng.chance(0.5) {
                (l0, w)
            } else {
                (-l0 - w, w)
            }
        } else {
            (l0, w)
        };
        let u0 = l0 + w;
        let w = u0 - l0;
        let m = l0.abs().max(u0.abs());
        // a bracket may be driven down to two neighbouring numbers and beyond
        let collapse = k.rng.chance(0.15);
        let tol = if collapse {
            *k.rng.pick(&[0.0, 0.0, 5e-324, m * 1e-17, -w * 0.3, -1.0])
        } else {
            (m * 1e-13).max(w * *k.rng.pick(&[1e-9, 1e-3, 0.2, 0.6, 2.0]) * k.rng.uni(0.7, 1.3)).max(1e-300)
        };
        let max = match k.rng.int(0, 3) {
            0 => k.rng.int(0, 3),
            _ if collapse && k.rng.chance(0.001) => 70_000,
            _ if collapse => k.rng.int(0, 160),
            _ if k.rng.chance(0.1) => *k.rng.pick(&[500, 2000, 10_000]),
            _ => k.rng.int(0, 60),
        };
        let thr = match k.rng.int(0, 3) {
            0 => None,
            1 => Some(*k.rng.pick(&[f64::NEG_INFINITY, f64::INFINITY, u0, l0])),
            _ => Some(l0 + w * k.rng.f()),
        };
        let script: Vec<bool> = (0..64).map(|_| k.rng.chance(0.5)).collect();
        if w > 0.0 && l0 < u0 && k.rng.chance(0.05) {
            let mut om = Bs { probes: vec![], thr, script: script.clone() };
            let mut iv = (u0, l0);
            let p = panics(|| bsearch(&mut om, &mut iv, &Options::new(max, tol)));
            k.ev("inverted bracket");
            if !k.check(p && om.probes.is_empty() && iv == (u0, l0), || format!("bsearch took the inverted interval ({u0:e},{l0:e}): {} probes, left {iv:?}", om.probes.len())) {
                return;
            }
        }
        let mut om = Bs { probes: vec![], thr, script };
        let mut iv = (l0, u0);
        let verbose = k.rng.chance(0.2);
        let (ok, it) = bsearch(&mut om, &mut iv, &Options { max_iters: max, tolerance: tol, verbose });
        k.eval(hkey(&[l0, u0, tol, max as f64, thr.unwrap_or(0.123)]));
        k.evn("probes observed", om.probes.len() as u64);
        let ctx = format!("interval ({l0:e},{u0:e}) tolerance {tol:e} max_iters {max}");
        let (mut l, mut u) = (l0, u0);
        let eps = 8.0 * f64::EPSILON * m;
        for (i, (g, a)) in om.probes.iter().enumerate() {
            let half = (u - l) / 2.0;
            if !k.check((g - (l + half)).abs() <= eps, || format!("probe {i} at {g:e} is not the midpoint of [{l:e},{u:e}]; {ctx}")) {
                return;
            }
            if !k.check(half >= tol - 2.0 * eps - 1e-12 * tol, || format!("probe {i} was made although the half-width {half:e} is below tolerance; {ctx}")) {
                return;
            }
            if *a {
                u = *g
            } else {
                l = *g
            }
        }
        let acc = om.probes.iter().any(|p| p.1);
        if !k.check(iv.0 == l && iv.1 == u, || format!("the interval reports ({:e},{:e}), but the probes leave [{l:e},{u:e}]; {ctx}", iv.0, iv.1)) {
            return;
        }
        // a collapsed bracket may be probed at its original upper end: accepting that changes nothing
        let only_at_u0 = acc && om.probes.iter().all(|p| !p.1 || p.0 >= u0);
        if !k.check(ok == acc || only_at_u0, || format!("returned {ok}, but some probe was accepted: {acc}; {ctx}")) {
            return;
        }
        if !k.check(it == om.probes.len(), || format!("returned count {it}, but {} probes were made; {ctx}", om.probes.len())) {
            return;
        }
        let half = (u - l) / 2.0;
        if tol <= 0.0 && w > 0.0 && !k.check(it == max || half < 0.0, || format!("stopped after {it} probes although no half-width is below a tolerance of {tol:e}; {ctx}")) {
            return;
        }
        if !k.check(it == max || half < tol + 2.0 * eps + 1e-12 * tol, || format!("stopped after {it} probes with half-width {half:e}; {ctx}")) {
            return;
        }
        if collapse && half <= eps {
            k.ev("bracket collapsed to neighbouring numbers");
        }
        k.ev(if it == max { "ended by max_iters" } else { "ended by tolerance" });
        k.ev(if acc { "accepted" } else { "never accepted" });
        k.sample(|| format!("{ctx}: bracket [{l:e},{u:e}] after {it} probes, {ok}"));
    }
}

// ---- C12
/// accepts when a scripted function of (gamma, number of updates seen) says so
struct FeasAt {
    log: Vec<String>,
    gamma: f64,
    n: usize,
    /// centre of the target ball and its radius as a function of gamma
    target: Vec<f64>,
    rad: f64,
    queries: usize,
    gammas: Vec<f64>,
    accepted: Option<Vec<f64>>,
    cuts: Vec<(Vec<f64>, f64)>,
    first: Option<Vec<f64>>,
    skip_beta: bool,
}
impl OracleFeas<Arr> for FeasAt {
    type CutChoice = SingleCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, SingleCut)> {
        self.queries += 1;
        self.accepted = None;
        if self.first.is_none() {
            self.first = Some(x.data().to_vec());
        }
        let d: Vec<f64> = (0..self.n).map(|i| x[i] - self.target[i]).collect();
        let m = crate::lin::norm(&d);
        if m <= self.rad + self.gamma {
            self.accepted = Some(x.data().to_vec());
            return None;
        }
        if m == 0.0 {
            let mut g = vec![0.0; self.n];
            g[0] = 1.0;
            return Some((Arr::from(g), SingleCut(1e100))); // infeasible at every point
        }
        let g: Vec<f64> = d.iter().map(|v| v / m).collect();
        let b = if self.skip_beta { 0.0 } else { m - self.rad - self.gamma };
        self.cuts.push((g.clone(), b));
        Some((Arr::from(g), SingleCut(b)))
    }
    fn update(&mut self, gamma: f64) {
        self.gammas.push(gamma);
        self.gamma = gamma;
        self.log.push(format!("gamma {gamma}"));
    }
}

fn adaptor_real<S>(k: &mut Case, space: S, wrap: fn(&S) -> Sp, n: usize)
where
    S: SearchSpace<ArrayType = Arr> + Clone,
    SingleCut: UpdateByCutChoice<S, ArrayType = Arr>,
{
    let w0 = wrap(&space);
    let c0 = w0.center();
    let u = k.rng.unit(n);
    let ext = w0.quad(&u).sqrt();
    let target: Vec<f64> = (0..n).map(|i| c0[i] + 0.5 * ext * u[i] * k.rng.f()).collect();
    let om = FeasAt {
        log: vec![],
        gamma: f64::NAN,
        n,
        target,
        rad: 0.0,
        queries: 0,
        gammas: vec![],
        accepted: None,
        cuts: vec![],
        first: None,
        skip_beta: k.rng.chance(0.3),
    };
    let max = k.rng.int(0, 80);
    let mut opt = Options::new(max, *k.rng.pick(&[1e-20, 1e-6]));
    opt.verbose = k.rng.chance(0.2);
    let mut ad = BSearchAdaptor::new(om, space, opt);
    let calls = k.rng.int(1, 8);
    for _ in 0..calls {
        let gamma = ext * *k.rng.pick(&[0.5, 0.1, 0.02, -0.1, -1.0]) * k.rng.f();
        let before = wrap(&ad.space);
        ad.omega.queries = 0;
        ad.omega.gammas.clear();
        ad.omega.cuts.clear();
        ad.omega.first = None;
        ad.omega.accepted = None;
        let r = ad.assess_bs(gamma);
        let after = wrap(&ad.space);
        k.ev(if r { "real: accepted" } else { "real: refused" });
        k.eval(hkey(&[gamma, n as f64, max as f64, c0[0]]));
        let ctx = format!("{} n={n} gamma {gamma:e}", before.name());
        if !k.check(ad.omega.gammas == vec![gamma], || format!("gammas handed to the oracle: {:?}; {ctx}", ad.omega.gammas)) {
            return;
        }
        if !k.check(ad.omega.queries <= max, || format!("{} queries with max_iters {max}; {ctx}", ad.omega.queries)) {
            return;
        }
        if let Some(f) = &ad.omega.first {
            if !k.check(*f == before.center(), || format!("the run started at {f:?} instead of the stored centre {:?}; {ctx}", before.center())) {
                return;
            }
        }
        if !k.check(r == ad.omega.accepted.is_some(), || format!("returned {r}, but the last query was accepted: {}; {ctx}", ad.omega.accepted.is_some())) {
            return;
        }
        // replay on a copy of the stored space: the same cuts lead to the accepted point
        let mut tw = before.clone();
        for (g, b) in &ad.omega.cuts {
            tw.upd(Op::Bias, g, Beta::S(*b));
        }
        if let Some(a) = &ad.omega.accepted {
            if !k.check(*a == tw.center(), || format!("accepted {a:?}, but the stored space and the cuts lead to {:?}; {ctx}", tw.center())) {
                return;
            }
        }
        let want = ad.omega.accepted.clone().unwrap_or(before.center());
        let shape_same = before.shape().iter().zip(&after.shape()).all(|(a, b)| a.to_bits() == b.to_bits());
        if !k.check(after.center() == want && shape_same, || {
            format!("after {r}: stored centre {:?} expected {want:?}, size and shape unchanged: {shape_same}; {ctx}", after.center())
        }) {
            return;
        }
    }
}

pub fn c12(k: &mut Case) {
    // scripted space and oracle
    for _ in 0..4 {
        let r = gen(&mut k.rng, true);
        let log: Log = Default::default();
        let space = MSpace::new(&log, &r.script);
        let om = MOracle { log: log.clone(), script: r.script.clone(), at: 0, gamma: 0.0 };
        let mut ad = BSearchAdaptor::new(om, space, opts(&r));
        let calls = k.rng.int(1, 6);
        let mut at = 0usize;
        let mut stored = 1000u64;
        let mut seen: Vec<f64> = vec![];
        for c in 0..calls {
            let gamma = match k.rng.int(0, 7) {
                0 | 1 if !seen.is_empty() => *k.rng.pick(&seen),
                2 => *k.rng.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, 5e-324, 1.0]),
                _ => k.rng.sym() * 100.0,
            };
            seen.push(gamma);
            log.borrow_mut().clear();
            let res = ad.assess_bs(gamma);
            let mut want = vec![Ev::Gamma(gamma.to_bits())];
            let mut ver = stored;
            let mut uat = 0usize;
            let mut ok = false;
            for _ in 0..r.max {
                let n = r.script.len();
                want.push(Ev::Query(ver, 0, false));
                let i = at;
                at += 1;
                if r.script[i % n].feas {
                    ok = true;
                    break;
                }
                want.push(Ev::Upd('b', gid(i), cid(i), 1));
                let a = &r.script[uat % n];
                uat += 1;
                if a.status == 0 {
                    ver += 1;
                }
                if a.status != 0 || a.tsq < r.tol {
                    break;
                }
            }
            // which copy is updated does not matter as long as it is not the stored one
            let mut got: Vec<Ev> = vec![];
            let mut touched = false;
            for e in log.borrow().iter() {
                match e {
                    Ev::Upd(a, b, c, copy) => {
                        touched |= *copy == ad.space.copy;
                        got.push(Ev::Upd(*a, *b, *c, 1));
                    }
                    Ev::SetXc(..) => {}
                    e => got.push(e.clone()),
                }
            }
            k.eval(key(&r, 12 + c as u64) ^ gamma.to_bits());
            k.ev(if ok { "accepted" } else { "refused" });
            k.evn("events observed", got.len() as u64);
            if !k.check(got == want, || format!("call {c} of assess_bs departs from its protocol: {}", diff(&want, &got))) {
                return;
            }
            if ok {
                stored = ver;
            }
            if !k.check(res == ok && !touched && ad.space.ver == stored && ad.space.at == 0, || {
                format!(
                    "call {c} of assess_bs({gamma}): returned {res}, expected {ok}; stored centre version {} expected {stored}; updates applied to the stored space: {}",
                    ad.space.ver, ad.space.at
                )
            }) {
                return;
            }
            k.sample(|| format!("call {c}: {} events, accepted {ok}", got.len()));
        }
    }
    let n = k.rng.int(1, 5);
    let init = gen_init(&mut k.rng, n, false);
    match if k.rng.chance(0.5) { init.ell(k.rng.chance(0.3)) } else { init.stable() } {
        Sp::E(e) => adaptor_real(k, e, |e| Sp::E(e.clone()), n),
        Sp::S(e) => adaptor_real(k, e, |e| Sp::S(e.clone()), n),
    }
}
