//! Monitor framework: cases are generated from (seed, property, index), run on all cores with panics
//! caught, and every observation is counted. Three verdicts: violated (exit 1), held on what was
//! observed (exit 0), inconclusive (exit 3: too little was observed or the time cap hit too early).
use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone)]
pub struct Config {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<u64>,
    pub threads: usize,
    pub out: String,
    pub scale: f64,
}

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub tier: Tier,
    pub evals: u64,
    viol: Vec<String>,
    nviol: u64,
    sigs: HashSet<u64>,
    ev: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, (u64, String)>,
    pub verbose: bool,
}

impl Case {
    /// One monitored evaluation; `key` identifies the (non-trivial) input it was made on.
    pub fn eval(&mut self, key: u64) {
        self.evals += 1;
        if self.sigs.len() < 200_000 {
            self.sigs.insert(key);
        }
    }
    pub fn trivial(&mut self) {
        self.evals += 1;
    }
    pub fn ev(&mut self, name: &str) {
        *self.ev.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn evn(&mut self, name: &str, n: u64) {
        *self.ev.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn fail(&mut self, msg: String) {
        self.nviol += 1;
        if self.viol.len() < 3 {
            self.viol.push(msg);
        }
    }
    /// A violation at a call site that the known-findings file may list; unlisted, it is a violation.
    pub fn known(&mut self, key: &str, msg: impl FnOnce() -> String) {
        if let Some(e) = self.known.get_mut(key) {
            e.0 += 1;
        } else {
            let m = msg();
            self.known.insert(key.to_string(), (1, m));
        }
    }
    /// Returns `ok` so that a monitor can stop a case after its first violation.
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            let m = msg();
            self.fail(m);
        }
        ok
    }
    pub fn failed(&self) -> bool {
        self.nviol > 0
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.is_empty() {
            let t = s();
            self.samples.push(t);
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

pub fn hkey(parts: &[f64]) -> u64 {
    let mut h = 0x1234_5678u64;
    for p in parts {
        h = mix(h ^ p.to_bits());
    }
    h
}
pub fn hvec(h0: u64, v: &[f64]) -> u64 {
    let mut h = h0;
    for p in v {
        h = mix(h ^ p.to_bits());
    }
    h
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<u32> = const { RefCell::new(0) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
}

/// Runs `f` and tells whether it panicked (used where a panic is the specified behaviour).
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}
pub fn try_run<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub struct Spec {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// events that must have been observed at least this often, or the run is inconclusive
    pub need: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
    pub f: fn(&mut Case),
}

struct Total {
    evals: u64,
    sigs: HashSet<u64>,
    ev: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    viol: Vec<(u64, Vec<String>)>,
    nviol: u64,
    cases: u64,
    known: BTreeMap<String, (u64, String)>,
}

/// Lines `known: property=<id> key=<key> <description>` of the committed known-findings file.
fn known_findings(id: &str) -> BTreeMap<String, String> {
    let path = std::env::var("VERIF_KNOWN").unwrap_or_else(|_| "known_findings.txt".into());
    let mut out = BTreeMap::new();
    for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let mut it = line.splitn(4, ' ');
        if it.next() == Some("known:") && it.next() == Some(&format!("property={id}")) {
            if let Some(k) = it.next().and_then(|k| k.strip_prefix("key=")) {
                out.insert(k.to_string(), it.next().unwrap_or("").to_string());
            }
        }
    }
    out
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn run(spec: &Spec, cfg: &Config) -> i32 {
    install_panic_hook();
    let t0 = Instant::now();
    let n = match (cfg.only, cfg.tier) {
        (Some(_), _) => 1,
        (None, Tier::Quick) => ((spec.quick as f64) * cfg.scale).ceil() as u64,
        (None, Tier::Thorough) => ((spec.thorough as f64) * cfg.scale).ceil() as u64,
    };
    let cap = std::env::var("MON_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match cfg.tier {
        Tier::Quick => 240,
        Tier::Thorough => 560,
    });
    let cap = Duration::from_secs(cap);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let total = Mutex::new(Total {
        evals: 0,
        sigs: HashSet::new(),
        ev: BTreeMap::new(),
        samples: vec![],
        viol: vec![],
        nviol: 0,
        cases: 0,
        known: BTreeMap::new(),
    });
    let listed = known_findings(spec.id);
    let base = mix(cfg.seed ^ hash_str(spec.id));
    // what every worker is doing: (case index, start in ms), for the watchdog
    let busy: Vec<Mutex<Option<(u64, Instant)>>> = (0..cfg.threads).map(|_| Mutex::new(None)).collect();
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        s.spawn(|| {
            let limit = Duration::from_secs(200);
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                for b in &busy {
                    let hung = b.lock().unwrap().filter(|(_, t)| t.elapsed() > limit);
                    if let Some((idx, _)) = hung {
                        let dir = format!("{}/replay", cfg.out);
                        let _ = std::fs::create_dir_all(&dir);
                        let path = format!("{dir}/{}-{}-{}.txt", spec.id, cfg.seed, idx);
                        let _ = std::fs::write(&path, format!("property {}\nreplay: VERIF_SEED={} bash check.sh {} --case {idx}\nthe code under test did not return within {} s\n", spec.id, cfg.seed, spec.id, limit.as_secs()));
                        let _ = std::fs::write(
                            format!("{}/{}.json", cfg.out, spec.id),
                            format!("{{\"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": \"stopped by the watchdog\"}}, \"assumptions\": [], \"wall_s\": {:.1}, \"violations\": 1}}\n",
                                json_str(spec.id), if cfg.tier == Tier::Quick { "quick" } else { "thorough" }, cfg.seed, t0.elapsed().as_secs_f64()),
                        );
                        println!("VIOLATION property={} replay={path}", spec.id);
                        println!("   case {idx} did not return within {} s", limit.as_secs());
                        std::process::exit(1);
                    }
                }
            }
        });
        let mut workers = vec![];
        for w in 0..cfg.threads {
            let busy = &busy;
            let (next, stop, capped, total, listed) = (&next, &stop, &capped, &total, &listed);
            workers.push(std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= n || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    if t0.elapsed() > cap {
                        capped.store(true, Ordering::SeqCst);
                        break;
                    }
                    let idx = cfg.only.unwrap_or(k);
                    let mut c = Case {
                        rng: Rng::new(mix(base ^ mix(idx))),
                        idx,
                        tier: cfg.tier,
                        evals: 0,
                        viol: vec![],
                        nviol: 0,
                        sigs: HashSet::new(),
                        ev: BTreeMap::new(),
                        samples: vec![],
                        known: BTreeMap::new(),
                        verbose: cfg.only.is_some(),
                    };
                    *busy[w].lock().unwrap() = Some((idx, Instant::now()));
                    let r = catch_unwind(AssertUnwindSafe(|| (spec.f)(&mut c)));
                    *busy[w].lock().unwrap() = None;
                    if r.is_err() {
                        let m = PANIC.with(|p| p.borrow().clone());
                        c.fail(format!("unexpected {m}"));
                    }
                    for (k, (n, m)) in &c.known {
                        if !listed.contains_key(k) {
                            c.nviol += n;
                            c.viol.push(format!("[{k}] {m}"));
                        }
                    }
                    let mut t = total.lock().unwrap();
                    for (k, (n, m)) in c.known {
                        t.known.entry(k).or_insert((0, m)).0 += n;
                    }
                    t.cases += 1;
                    t.evals += c.evals;
                    if t.sigs.len() < 20_000_000 {
                        t.sigs.extend(c.sigs.iter());
                    }
                    for (k, v) in c.ev {
                        *t.ev.entry(k).or_insert(0) += v;
                    }
                    if let Some(s) = c.samples.pop() {
                        if t.samples.len() < 5 || idx < 5 {
                            t.samples.push((idx, s));
                        }
                    }
                    if c.nviol > 0 {
                        t.nviol += c.nviol;
                        t.viol.push((idx, c.viol));
                        if t.viol.len() >= 10 {
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                })
                .unwrap());
        }
        for w in workers {
            let _ = w.join();
        }
        done.store(true, Ordering::SeqCst);
    });
    let mut t = total.into_inner().unwrap();
    t.viol.sort();
    t.samples.sort();
    t.samples.truncate(5);
    let wall = t0.elapsed().as_secs_f64();
    let mut missing = vec![];
    if cfg.only.is_none() && cfg.scale >= 1.0 {
        for (name, k) in spec.need {
            let seen = t.ev.get(*name).copied().unwrap_or(0);
            if seen < *k {
                missing.push(format!("{name}: {seen} < {k}"));
            }
        }
    }
    let mut js = String::new();
    js.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        json_str(spec.id),
        if cfg.tier == Tier::Quick { "quick" } else { "thorough" },
        cfg.seed
    ));
    js.push_str(&format!(
        "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"cases\": {},\n  \"rule\": {},\n  \"observed_events\": {{",
        t.evals,
        t.sigs.len(),
        t.cases,
        json_str(spec.rule)
    ));
    js.push_str(
        &t.ev
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(", "),
    );
    js.push_str("},\n  \"samples\": [");
    js.push_str(
        &t.samples
            .iter()
            .map(|(i, s)| json_str(&format!("case {i}: {s}")))
            .collect::<Vec<_>>()
            .join(", "),
    );
    js.push_str(&format!(
        "],\n  \"known_findings_observed\": {{{}}},\n  \"time_capped\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        t.known
            .iter()
            .map(|(k, (n, _))| format!("{}: {}", json_str(k), n))
            .collect::<Vec<_>>()
            .join(", "),
        capped.load(Ordering::SeqCst),
        spec.assumptions
            .iter()
            .map(|a| json_str(a))
            .collect::<Vec<_>>()
            .join(", "),
        wall,
        t.nviol
    ));
    if cfg.only.is_none() {
        let _ = std::fs::create_dir_all(&cfg.out);
        if let Err(e) = std::fs::write(format!("{}/{}.json", cfg.out, spec.id), &js) {
            eprintln!("cannot write evidence: {e}");
            return 3;
        }
    }
    println!(
        "{}: {} cases, {} monitored evaluations, {} distinct, {:.1} s, {} violations",
        spec.id,
        t.cases,
        t.evals,
        t.sigs.len(),
        wall,
        t.nviol
    );
    for (k, v) in &t.ev {
        println!("   observed {k}: {v}");
    }
    for (k, (n, m)) in &t.known {
        if let Some(d) = listed.get(k) {
            println!("KNOWN-FINDING: property={} {d} [{k}, observed {n} times, e.g. {m}]", spec.id);
        }
    }
    if !t.viol.is_empty() {
        let dir = format!("{}/replay", cfg.out);
        let _ = std::fs::create_dir_all(&dir);
        for (i, (idx, msgs)) in t.viol.iter().enumerate() {
            let path = format!("{dir}/{}-{}-{}.txt", spec.id, cfg.seed, idx);
            let mut body = format!(
                "property {}\nreplay: VERIF_SEED={} VERIF_TIER={} bash check.sh {} --case {}\n",
                spec.id,
                cfg.seed,
                if cfg.tier == Tier::Quick { "quick" } else { "thorough" },
                spec.id,
                idx
            );
            for m in msgs {
                body.push_str(m);
                body.push('\n');
            }
            let _ = std::fs::write(&path, body);
            if i < 5 {
                println!("VIOLATION property={} replay={}", spec.id, path);
                for m in msgs {
                    println!("   {m}");
                }
            }
        }
        return 1;
    }
    if !missing.is_empty() {
        println!("INCONCLUSIVE {}: not observed often enough: {}", spec.id, missing.join("; "));
        return 3;
    }
    0
}
