mod lin;
mod mon;
mod p_calc;
mod p_driver;
mod p_e2e;
mod p_ldlt;
mod p_misc;
mod p_oracles;
mod p_num;
mod p_digest;
mod p_space;
mod refgeo;
mod rng;
mod space;
use mon::*;

const NONE: &[&str] = &[];

fn specs() -> Vec<Spec> {
    let mut v = vec![];
    v.push(Spec {
        id: "C01",
        quick: 60_000,
        thorough: 3_000_000,
        rule: "random ellipsoids (dimension 1-130, condition up to 1e9, scale 1e-50..1e50) driven by histories of up to 40 random cuts of every regime on Ell, Ell(no-defer) and EllStable; an evaluation is one Success update whose new ellipsoid was tested for membership of extreme, random and hill-climbed points of the kept part; distinct by the bits of state and cut",
        need: &[("points of the kept part tested for membership", 100_000), ("Ell Success", 1000), ("EllStable Success", 1000), ("Ell(no-defer) Success", 1000)],
        assumptions: NONE,
        f: p_space::c01,
    });
    v.push(Spec {
        id: "C02",
        quick: 50_000,
        thorough: 2_500_000,
        rule: "as C01; an evaluation is one Success update whose log-determinant ratio was compared with an independent numeric minimum-volume search over the kept part and with the progress bound",
        need: &[("compared with the minimum-volume ellipsoid", 10_000), ("progress bound checked", 5_000)],
        assumptions: NONE,
        f: p_space::c02,
    });
    v.push(Spec {
        id: "C03",
        quick: 60_000,
        thorough: 3_000_000,
        rule: "as C01 plus zero gradients; an evaluation is one update whose status, tsq and (if refused) unchanged state were compared with the definition of the cut; ties within 1e-9 are not judged",
        need: &[("Ell NoSoln", 500), ("Ell NoEffect", 500), ("EllStable NoSoln", 500), ("EllStable NoEffect", 500), ("refusals compared", 2000), ("zero gradient", 100), ("coinciding hyperplanes", 100)],
        assumptions: NONE,
        f: p_space::c03,
    });
    v.push(Spec {
        id: "C04",
        quick: 60_000,
        thorough: 3_000_000,
        rule: "the same random ellipsoid through every constructor and representation, then the same random cuts; an evaluation compares statuses, tsq, centres and extents of 5-8 representations after one step, or one constructor with its definition",
        need: &[("steps compared", 10_000), ("constructor comparisons", 5000), ("resynchronised EllStable", 1000)],
        assumptions: NONE,
        f: p_space::c04,
    });
    v.push(Spec {
        id: "C05",
        quick: 4_000,
        thorough: 120_000,
        rule: "histories of up to 700 (thorough 3000) productive cuts in random, round-robin, homing and uniform directions at scales 1e-50..1e50, tangent cuts and random walks; an evaluation is one update after which finiteness, symmetry, definiteness and the centre's place were checked",
        need: &[("updates in long histories", 100_000), ("tangent cuts", 500)],
        assumptions: NONE,
        f: p_space::c05,
    });
    v.push(Spec {
        id: "C06",
        quick: 120_000,
        thorough: 8_000_000,
        rule: "one random state and cut given in several equivalent descriptions (positive multiples, single/parallel, central/bias, q/bias), and whole histories in translated, permuted and rescaled coordinates; an evaluation compares one pair of descriptions",
        need: &[("equivalence: bias vs q", 1000), ("equivariance steps", 5000)],
        assumptions: NONE,
        f: p_space::c06,
    });
    v.push(Spec {
        id: "C07",
        quick: 150_000,
        thorough: 12_000_000,
        rule: "random dimension (1-1000), extent (1e-60..1e60), cut kind and depths of every regime incl. coinciding hyperplanes; an evaluation is one call whose status and parameters were compared with the kept part, an independent minimum-volume search, the scaled call, the other entry points and formulas",
        need: &[("compared with the minimum-volume ellipsoid", 50_000), ("core alternatives compared", 50_000), ("old parallel formula compared", 5_000), ("use_parallel_cut off compared", 20_000), ("kind coinciding", 10_000)],
        assumptions: NONE,
        f: p_calc::c07,
    });
    v.push(Spec {
        id: "C08",
        quick: 300_000,
        thorough: 20_000_000,
        rule: "random scripts of oracle answers, update statuses and tsq values (below, at and above tolerance), max_iters 0-400, run through the real driver with recording oracle and space; an evaluation is one run whose complete event log and result were compared with the protocol; plus runs on real ellipsoids against a hand-driven twin",
        need: &[("ended by accepted", 2000), ("ended by status", 2000), ("ended by tolerance", 2000), ("ended by max_iters", 2000), ("twin runs on real ellipsoids", 2000), ("events observed", 100_000)],
        assumptions: NONE,
        f: p_driver::c08,
    });
    v.push(Spec {
        id: "C09",
        quick: 300_000,
        thorough: 20_000_000,
        rule: "as C08 for cutting_plane_optim, with improvements and gamma written at random",
        need: &[("ended by status", 2000), ("ended by tolerance", 2000), ("ended by max_iters", 2000), ("runs with an improvement", 2000), ("runs without improvement", 2000), ("twin runs on real ellipsoids", 2000)],
        assumptions: NONE,
        f: p_driver::c09,
    });
    v.push(Spec {
        id: "C10",
        quick: 300_000,
        thorough: 20_000_000,
        rule: "as C08 for cutting_plane_optim_q, with NoEffect answers, retries and offers of alternatives at random",
        need: &[("ended by no solution", 1000), ("ended by no alternative", 1000), ("ended by tolerance", 1000), ("ended by max_iters", 1000), ("retries", 5000), ("space without its own q update", 1000)],
        assumptions: &["search spaces never answer Unknown to a q update"],
        f: p_driver::c10,
    });
    v.push(Spec {
        id: "C11",
        quick: 500_000,
        thorough: 40_000_000,
        rule: "random intervals (scales 1e-30..1e30, empty width included), tolerances, limits, monotone and arbitrary oracle answers; an evaluation is one run whose probes, returned flag, count and final interval were checked",
        need: &[("ended by max_iters", 5000), ("ended by tolerance", 5000), ("accepted", 5000), ("never accepted", 2000), ("probes observed", 100_000)],
        assumptions: NONE,
        f: p_driver::c11,
    });
    v.push(Spec {
        id: "C12",
        quick: 200_000,
        thorough: 10_000_000,
        rule: "sequences of assess_bs calls on one adaptor over scripted spaces/oracles and over real ellipsoids; an evaluation is one call whose events, answer and stored space were compared with the protocol",
        need: &[("accepted", 2000), ("refused", 2000), ("real: accepted", 2000), ("real: refused", 2000)],
        assumptions: NONE,
        f: p_driver::c12,
    });
    v.push(Spec {
        id: "C13",
        quick: 400_000,
        thorough: 10_000_000,
        rule: "random polyhedra, strips, balls and LMIs that contain a known ball (or are empty), six cut-selection rules incl. a resisting oracle, single/parallel, deep/central, all ellipsoid kinds, dimensions 1-12, scales 1e-15..1e15; an evaluation is one complete run judged against the iteration bound and the constraints",
        need: &[("feasible Ell", 500), ("feasible EllStable", 500), ("feasible Ell(no-defer)", 200), ("feasible LMI", 200), ("infeasible", 200), ("oracle queries observed", 100_000)],
        assumptions: NONE,
        f: p_e2e::c13,
    });
    v.push(Spec {
        id: "C14",
        quick: 240_000,
        thorough: 6_000_000,
        rule: "random convex problems of eight families whose optimum is known by construction, dimensions 1-8, all ellipsoid kinds, single and parallel cuts; an evaluation is one complete run whose gap, feasibility and gamma were checked against the iteration bound",
        need: &[("improvements observed", 50_000), ("runs on Ell", 500), ("runs on EllStable", 500), ("runs on Ell(no-defer)", 200)],
        assumptions: NONE,
        f: p_e2e::c14,
    });
    v.push(Spec {
        id: "C15",
        quick: 100_000,
        thorough: 8_000_000,
        rule: "random symmetric matrices (dimension 1-60, nine families, scales 1e-230..1e230, NaN entries) through reused objects; an evaluation is one factorization whose verdict was compared with Jacobi eigenvalues and whose factors or witness were multiplied back and compared with a fresh object",
        need: &[("factors multiplied back", 20_000), ("witnesses checked", 20_000), ("NaN entries", 1000), ("refused at pivot last", 2000), ("refused at pivot first", 2000), ("refused at pivot middle", 2000)],
        assumptions: NONE,
        f: p_ldlt::c15,
    });
    v.push(Spec {
        id: "C16",
        quick: 100_000,
        thorough: 8_000_000,
        rule: "Gram matrices of small integer vectors (singular ones included; acceptance is judged when every step of the factorization is exact) and random symmetric matrices through reused objects; an evaluation is one factorization",
        need: &[("singular semidefinite with exact factors", 10_000), ("definite with exact factors", 1000), ("witnesses checked", 20_000), ("regular matrices compared with their signature", 10_000), ("negative diagonal entry", 1000)],
        assumptions: NONE,
        f: p_ldlt::c16,
    });
    v.push(Spec {
        id: "C17",
        quick: 30_000,
        thorough: 2_500_000,
        rule: "random matrix inequalities around a known feasible point, queried far from, inside and just beyond the boundary of the feasible set by oracles with a history; an evaluation is one query whose verdict was compared with Jacobi eigenvalues and whose cut was tested on feasible boundary points",
        need: &[("LMIOracle accepted", 1000), ("LMIOracle cut", 1000), ("LMIOldOracle cut", 1000), ("LMI0Oracle accepted", 500), ("LMI0Oracle cut", 500), ("feasible points tested against a cut", 50_000), ("lazy and explicit cuts compared", 5000)],
        assumptions: NONE,
        f: p_ldlt::c17,
    });
    v.push(Spec {
        id: "C18",
        quick: 300_000,
        thorough: 20_000_000,
        rule: "random filter lengths, bands and levels placed around a lowpass-shaped response so that it lies inside or just outside each limit; oracles with a history of feasibility and optimization queries; an evaluation is one query whose verdict, cut and gamma were compared with the response recomputed on the frequency grid",
        need: &[("accepted", 1000), ("improved", 1000), ("refused", 1000), ("cut: pass band", 1000), ("cut: transition band", 500), ("cut: stop band", 1000), ("cut: leading coefficient", 20)],
        assumptions: &["the bands contain at least one grid frequency each and band edges are not within 1e-6 of a grid frequency"],
        f: p_oracles::c18,
    });
    v.push(Spec {
        id: "C19",
        quick: 84,
        thorough: 600,
        rule: "the packaged case for lengths 1-60 (levels, bands, grid and spectrum recomputed) and complete designs for lengths 24-32 from several starting balls on every ellipsoid, verified on the grid; an evaluation is one constructed case or one design",
        need: &[("designs on Ell", 10), ("designs on EllStable", 10), ("spectrum rows compared", 10_000)],
        assumptions: NONE,
        f: p_oracles::c19,
    });
    v.push(Spec {
        id: "C20",
        quick: 150_000,
        thorough: 12_000_000,
        rule: "random Cobb-Douglas problems with the capacity binding or not, queried by oracles with a history near the capacity, the optimum and the current level; an evaluation is one query whose verdict, gamma and cut were recomputed, the cut tested on boundary points of the better set, or one complete run compared with the closed-form maximum",
        need: &[("improved", 10_000), ("not improved", 10_000), ("good points tested against a cut", 100_000), ("complete runs", 1000)],
        assumptions: &["cut validity is judged for gamma >= 0, where the problem is convex"],
        f: p_oracles::c20,
    });
    v.push(Spec {
        id: "C21",
        quick: 60_000,
        thorough: 6_000_000,
        rule: "as C20 with random uncertainty of every parameter; improvements tested on all corners of the uncertainty box and random realisations; an evaluation is one query",
        need: &[("improved", 5_000), ("not improved", 5_000), ("realisations tested", 100_000), ("compared with ProfitOracle", 2_000), ("complete runs", 300)],
        assumptions: &["cut validity is judged for gamma >= 0, where the problem is convex"],
        f: p_oracles::c21,
    });
    v.push(Spec {
        id: "C22",
        quick: 120_000,
        thorough: 10_000_000,
        rule: "as C20 with whole-number designs, retries and centres that round across the capacity; an evaluation is one query whose integer point, verdict, gamma and cut (moved back to the integer point) were recomputed",
        need: &[("integer point improved", 5_000), ("integer point refused", 2_000), ("retries", 2_000), ("cut at the centre", 5_000), ("complete runs with a design", 1000)],
        assumptions: &["cut validity is judged for gamma >= 0, where the problem is convex"],
        f: p_oracles::c22,
    });
    v.push(Spec {
        id: "C23",
        quick: 400_000,
        thorough: 40_000_000,
        rule: "random and near-boundary queries of oracles with a history, |t| <= 300; an evaluation is one query whose verdict, gamma and cut were recomputed and tested on better points, or one complete run",
        need: &[("improved", 10_000), ("not improved", 10_000), ("good points tested against a cut", 100_000), ("complete runs", 1000)],
        assumptions: &["cut validity is judged for gamma >= 0, where the problem is convex"],
        f: p_oracles::c23,
    });
    v.push(Spec {
        id: "C26",
        quick: 400_000,
        thorough: 20_000_000,
        rule: "random separable and non-separable data sets (1-400 samples, 1-90 features, duplicates); an evaluation is one query whose gamma and gradient were recomputed, or one complete run judged against the iteration bound",
        need: &[("separated", 2_000), ("not separated", 10_000), ("better separators tested against a cut", 10_000), ("complete runs", 2_000)],
        assumptions: NONE,
        f: p_oracles::c26,
    });
    v.push(Spec {
        id: "C27",
        quick: 600_000,
        thorough: 30_000_000,
        rule: "random weighted graphs (1-160 vertices, negative weights and diagonals included), queries with zero and signed-zero entries; an evaluation is one query whose verdict, gamma and gradient were recomputed, or one complete run",
        need: &[("improved", 10_000), ("not improved", 10_000), ("exact ties judged", 1000), ("complete runs", 5_000)],
        assumptions: NONE,
        f: p_oracles::c27,
    });
    v.push(Spec {
        id: "C24",
        quick: 400_000,
        thorough: 20_000_000,
        rule: "random definite, indefinite, unsymmetric and small-integer matrices (dimension 1-120), exact, near and far starts, zero right-hand sides and limits 0..12n+40, and definite systems of condition 1e3..1e9 given twenty times the iterations a reference run needs; an evaluation is one call whose result was judged by the recomputed residual",
        need: &[("residuals recomputed", 20_000), ("start already solves", 2_000), ("zero right-hand side", 200), ("success required", 20_000), ("error (definite)", 500), ("error (other)", 500), ("solved (other)", 500)],
        assumptions: &["success is required for condition numbers up to 1e3 and relative tolerances from 1e-9"],
        f: p_num::c24,
    });
    v.push(Spec {
        id: "C25",
        quick: 160_000,
        thorough: 4_000_000,
        rule: "random symmetric matrices with known dominant pair (gap ratio up to 0.998) and unsymmetric ones, matrix scale 1e-45..1e45, start scale 1e-70..1e70, max_iters 0-40000; an evaluation is one call whose vector, eigenvalue and count were recomputed",
        need: &[("ended by tolerance", 10_000), ("ended by max_iters", 10_000), ("converged pairs verified", 10_000), ("no iterations allowed", 1000)],
        assumptions: NONE,
        f: p_num::c25,
    });
    v.push(Spec {
        id: "C28",
        quick: 150_000,
        thorough: 3_000_000,
        rule: "random vectors (1-12) and matrices (up to 7x7) with ordinary, huge, tiny and signed-zero entries; an evaluation applies every operation and form to one pair of operands and compares data, shape and untouched operands, plus ill-shaped operands that must panic",
        need: &[("results compared", 500_000), ("mismatches", 30_000)],
        assumptions: NONE,
        f: p_num::c28,
    });
    v.push(Spec {
        id: "C29",
        quick: 20_000,
        thorough: 1_000_000,
        rule: "random pieces of work over every public part of the library, repeated in the same thread after other work, verbosely, in concurrent threads and in fresh processes, and twin and cloned ellipsoid histories interleaved with others; an evaluation is one piece of work whose every result bit was compared",
        need: &[("repeated in the same thread", 10_000), ("repeated in other threads", 500), ("repeated in a fresh process", 20), ("twin steps", 10_000), ("clones driven apart", 5_000), ("values compared bit by bit", 1_000_000)],
        assumptions: NONE,
        f: p_digest::c29,
    });
    v.push(Spec {
        id: "C34",
        quick: 100_000,
        thorough: 10_000_000,
        rule: "random options, cuts and errors (extreme counts and values, texts with format characters); an evaluation is one value whose fields, equality and text were compared with what it was built from",
        need: &[("options built", 10_000), ("cuts built", 10_000), ("statuses shown", 40_000), ("errors shown", 40_000), ("different errors compared", 40_000), ("with a final value", 2_000), ("without a final value", 2_000)],
        assumptions: NONE,
        f: p_misc::c34,
    });
    v
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(String::as_str) == Some("digest1") {
        let d = p_digest::work(args[1].parse().unwrap(), args[2].parse().unwrap(), false, false);
        println!("{:016x}", d.0);
        return;
    }
    if args.first().map(String::as_str) == Some("digest") {
        let num = |i: usize| args[i].parse::<u64>().unwrap();
        p_digest::digest_main(num(1), num(2), num(3), num(4) == 1, num(5) as usize);
        return;
    }
    let mut cfg = Config {
        id: String::new(),
        tier: if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick },
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        only: None,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
        out: "evidence".into(),
        scale: 1.0,
    };
    let mut it = args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--case" => cfg.only = it.next().and_then(|s| s.parse().ok()),
            "--out" => cfg.out = it.next().cloned().unwrap_or_default(),
            "--scale" => cfg.scale = it.next().and_then(|s| s.parse().ok()).unwrap_or(1.0),
            "--threads" => cfg.threads = it.next().and_then(|s| s.parse().ok()).unwrap_or(1),
            s => cfg.id = s.to_string(),
        }
    }
    let specs = specs();
    match specs.iter().find(|s| s.id == cfg.id) {
        Some(s) => std::process::exit(run(s, &cfg)),
        None => {
            eprintln!("unknown property {:?}", cfg.id);
            std::process::exit(2);
        }
    }
}
