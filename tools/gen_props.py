#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that titles, statements and anchors stay in one place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
ELL=["src/ell.rs","src/ell_stable.rs","src/ell_calc.rs"]
UPD=[("update_core","src/ell.rs, src/ell_stable.rs"),("EllCalc / EllCalcCore formulas","src/ell_calc.rs")]
API=["SearchSpace::update_bias_cut / update_central_cut / update_q","SearchSpace::xc","SearchSpace::tsq"]
p("C01","A cut never discards a point that satisfies it",
 "Whenever a search space (Ell or EllStable) reports Success for a cut, every point of the ellipsoid before the update that satisfies the cut (g·(x−xc)+β0 ≤ 0 and, for a parallel cut, g·(x−xc)+β1 ≥ 0) lies in the ellipsoid after the update. This holds for bias, central (β0 taken as 0) and q updates, single and parallel cuts, shallow and deep, in every dimension including 1 and after any history of earlier cuts.",
 ["inputs","histories"],"every dimension, ellipsoid shape and scale, gradient, cut depth pair, update kind and preceding history of cuts",
 "the tests sample a handful of cuts on a scaled identity in dimension 4 and compare numbers; they never look at membership of points, at second and later updates, or at shallow and one-dimensional cuts",
 ELL,UPD,API)
p("C02","A successful cut yields the smallest enclosing ellipsoid and real progress",
 "After a Success update the ellipsoid is the minimum-volume ellipsoid containing the part of the old one that satisfies the cut (for cuts whose first hyperplane meets the old ellipsoid), and its volume never exceeds the old one's. For every cut with β0 ≥ 0 the volume shrinks at least by the factor exp(−1/(2(n+1))), and a parallel cut shrinks at least as much as the single cut it refines.",
 ["inputs","histories"],"every dimension, shape, gradient, cut depth pair, update kind and preceding history",
 "tests pin rho/sigma/delta at a few points; the complexity guarantee of the ellipsoid method is about the volume after every update of every history",
 ELL,UPD,API)
p("C03","Cut status is truthful and a refused cut changes nothing",
 "Away from rounding ties, an update reports NoSoln exactly when no point of the ellipsoid satisfies the cut; it reports NoEffect only for a cut the centre satisfies strictly and that is too shallow to shrink the ellipsoid (or a cut with zero extent along the gradient), and every other cut is Success. A non-Success update leaves centre and ellipsoid as they were, and after any update tsq() is the squared half-width of the ellipsoid before the update along the gradient, κ·gᵀMg (0 before the first).",
 ["inputs","histories"],"every dimension, ellipsoid, gradient (zero included), cut depth pair, update kind and preceding history",
 "the tests check statuses for fewer than ten cuts; thresholds at ±τ, −τ/n and β0=β1 and their behaviour after many updates are never sampled",
 ELL,UPD+[("CutStatus","src/cutting_plane.rs")],API)
p("C04","All ellipsoid representations are interchangeable",
 "Ell (with or without the deferred scaling) and EllStable built from the same ellipsoid by any of their constructors, and fed the same sequence of cuts, report the same statuses and, up to rounding, the same centres, tsq values and ellipsoids. The constructors describe the ellipsoid they document: {x : (x−xc)ᵀ M⁻¹ (x−xc) ≤ κ}, with M given as a diagonal, a scalar multiple of the identity, a covariance or a full matrix; set_xc moves the centre there and changes nothing else.",
 ["inputs","histories","configurations"],"every constructor, full symmetric positive definite matrix, dimension and sequence of mixed cuts",
 "the EllStable tests stop after one update of a scaled identity, where the factors are still trivial; no test compares two representations",
 ELL,UPD+[("constructors","src/ell.rs, src/ell_stable.rs")],API)
p("C05","The ellipsoid stays well-posed over long histories",
 "Starting from a finite, symmetric positive definite ellipsoid and applying any sequence of finite cuts, the centre, tsq and shape stay finite, the shape stays symmetric and positive definite (as long as its conditioning is representable), and the centre stays inside the previous ellipsoid. The volume after k updates is the product of the individual shrink factors, with no drift beyond rounding.",
 ["histories","inputs"],"every history of up to thousands of cuts, in all dimensions, at scales from 1e-100 to 1e100",
 "the tests apply one update, or drive a solver to its iteration count without looking at the ellipsoid",
 ELL,UPD,API+["Ell.mq","Ell.kappa"])
p("C06","Equivalent descriptions of a cut give equivalent updates",
 "Multiplying gradient and depths of a cut by any positive number, giving a single cut as a parallel cut without a second hyperplane or with one beyond the ellipsoid, giving a central cut as a bias cut of depth 0, and using q instead of bias for non-negative depths all lead to the same status and the same updated ellipsoid up to rounding. Updates commute with translating, permuting and rescaling the coordinates of ellipsoid and cut together.",
 ["inputs","histories"],"every dimension, ellipsoid, cut, positive multiplier, permutation and coordinate scaling",
 "each test uses one description of one cut; agreement across descriptions is never compared",
 ELL+["src/cutting_plane.rs"],UPD+[("CutType dispatch","src/ell.rs")],API)
p("C07","The cut calculator returns the optimal update parameters",
 "For every dimension n ≥ 1, squared extent τ² > 0 (whose square is representable) and depths, EllCalc's single/parallel bias, central and q calculations return the status of the cut and, on Success, parameters (ρ,σ,δ) that describe the smallest ellipsoid containing what the cut leaves, scaling as (s·ρ, σ, δ) when lengths scale by s. The combined single-or-parallel entry points agree with the direct ones, switching use_parallel_cut off makes a parallel cut act as its first hyperplane, and EllCalcCore's alternative formulas for the same cut agree.",
 ["inputs","configurations"],"every n up to 1000, τ over 1e-60..1e60, all depth pairs, use_parallel_cut on and off",
 "unit and quickcheck tests pin values at a few points or check only signs; optimality and scaling for all inputs are not checked",
 ["src/ell_calc.rs"],[("EllCalc::calc_*","src/ell_calc.rs"),("EllCalcCore::calc_*","src/ell_calc.rs")],["EllCalc","EllCalcCore"])
p("C08","The feasibility driver returns only certified points and follows its protocol",
 "cutting_plane_feas returns Some(x) only if the oracle accepted exactly that x, which is the search space's current centre; it queries the oracle at the current centre once per iteration, passes each returned cut unchanged as one bias update, and stops at the first acceptance, non-Success status, tsq below tolerance, or max_iters queries. The returned count is the number of completed iterations before the stopping one (max_iters when exhausted).",
 ["histories","inputs"],"every oracle answer sequence, status sequence, tsq sequence, max_iters (0 included) and tolerance",
 "tests use two or three concrete problems that end the same way each time",
 ["src/cutting_plane.rs"],[("cutting_plane_feas","src/cutting_plane.rs")],["calls seen by a user-supplied oracle and search space"])
p("C09","The optimization driver returns the last improving centre, by protocol",
 "cutting_plane_optim returns the centre at which the oracle last reported an improvement (None if it never did) and leaves gamma exactly as the oracle last wrote it; each iteration makes one oracle query at the current centre and one update with that cut — central after an improvement, bias otherwise. It stops at the first non-Success status or tsq below tolerance or after max_iters queries, and returns the matching iteration count.",
 ["histories","inputs"],"every sequence of oracle answers, statuses and tsq values, max_iters and tolerance",
 "tests follow a few concrete problems whose runs end by tolerance",
 ["src/cutting_plane.rs"],[("cutting_plane_optim","src/cutting_plane.rs")],["calls seen by a user-supplied oracle and search space"])
p("C10","The discrete driver returns the best evaluated point and honours retries",
 "cutting_plane_optim_q returns the x_q that accompanied the last improvement (None if none) and leaves gamma as the oracle last wrote it; every iteration makes one query and one q update with the returned cut (a bias update for a search space without a q update of its own). The retry flag is set exactly on the query following a NoEffect update; it stops at NoSoln, at NoEffect when the oracle offered no alternative, at tsq below tolerance, or after max_iters queries, with the matching count.",
 ["histories","inputs"],"every sequence of oracle answers, statuses and tsq values, max_iters and tolerance",
 "tests follow one concrete problem; NoEffect/retry sequences are not enumerated",
 ["src/cutting_plane.rs"],[("cutting_plane_optim_q","src/cutting_plane.rs")],["calls seen by a user-supplied oracle and search space"])
p("C11","Binary search brackets the threshold and reports the bracket",
 "For an interval of finite width bsearch leaves in it a bracket [l,u] inside the original one such that u is the original upper end or was accepted by the oracle, l is the original lower end or was rejected, and no probe lies strictly inside it; each probe is the midpoint of the current bracket, so its width halves every time. It returns true exactly when some probe was accepted, and stops once half the width is below tolerance or max_iters probes were made, with that count. An interval with lower end above upper end is refused by a panic before any probe.",
 ["inputs","histories"],"every finite interval, oracle answer sequence, tolerance and max_iters",
 "tests look at one monotone example and only at the returned flag",
 ["src/cutting_plane.rs"],[("bsearch","src/cutting_plane.rs")],["interval argument","probes seen by a user-supplied oracle"])
p("C12","The binary-search adaptor is truthful and warm-starts only on success",
 "BSearchAdaptor::assess_bs(γ) passes γ to the oracle before any query, runs the feasibility driver on a copy of its search space with its own options, and returns true exactly if that run found a point; on true the stored space is recentred at that accepted point with its size and shape unchanged, on false it is left untouched. Repeated calls therefore never accumulate cuts from earlier values of γ.",
 ["histories","inputs"],"every sequence of γ values, oracle behaviours, spaces and options",
 "one example runs one monotone problem; state after failures and across several γ is not observed",
 ["src/cutting_plane.rs"],[("BSearchAdaptor::assess_bs","src/cutting_plane.rs")],["BSearchAdaptor.space/omega","calls seen by a user-supplied oracle"])
p("C13","Feasible problems are solved within the polynomial iteration bound",
 "If the feasible set contains a ball of radius r and the initial search ellipsoid (inside a ball of radius R) contains that ball, cutting_plane_feas with correct cuts finds a feasible point within 2n(n+1)·ln(R/r)+1 iterations and never reports infeasibility, for single, parallel, deep and central cuts on Ell and EllStable. If the feasible set is empty it never returns a point.",
 ["inputs","histories"],"random and adversarial polyhedra, balls, strips and LMIs in dimensions 1 to 12 with every cut-selection rule",
 "tests solve three two-dimensional problems; soundness of 'no solution' needs known-feasible instances in bulk",
 ["src/cutting_plane.rs"]+ELL,UPD+[("cutting_plane_feas","src/cutting_plane.rs")],["cutting_plane_feas"])
p("C14","Optimization runs converge to the true optimum",
 "For convex problems whose optimum lies in the initial ellipsoid, cutting_plane_optim with correct cuts returns a feasible point whose objective is within ε of the optimum after a number of iterations polynomial in n and log(1/ε), and gamma equals the objective at the returned point. This holds on Ell and EllStable, for smooth and non-smooth objectives, constrained or not.",
 ["inputs","histories"],"random quadratic, max-of-affine, norm and linear objectives with affine, ball and strip constraints whose optimum is known by construction",
 "tests check iteration counts of a few examples",
 ["src/cutting_plane.rs"]+ELL,UPD+[("cutting_plane_optim","src/cutting_plane.rs")],["cutting_plane_optim"])
p("C15","LDLT decides positive definiteness and proves its refusals",
 "LDLTMgr::factor/factorize returns true exactly for positive definite symmetric matrices (away from rounding ties, and never for one with NaN entries in its lower triangle); on true sqrt() is upper triangular with positive diagonal and RᵀR equals the matrix. On false witness() returns ep ≥ 0 and a vector v, zero outside the reported range, with vᵀAv = −ep, and sym_quad(B) is vᵀBv; results depend only on the last matrix, not on earlier use of the object.",
 ["inputs","histories"],"every symmetric matrix of dimension 1 to 60, of any signature, conditioning and scale, and every sequence of uses of one object",
 "nine small fixed matrices, each on a fresh object",
 ["src/oracles/ldlt_mgr.rs"],[("factor / witness / sym_quad / sqrt","src/oracles/ldlt_mgr.rs")],["LDLTMgr"])
p("C16","Semidefinite LDLT accepts every PSD matrix and proves its refusals",
 "factor_with_allow_semidefinite returns true for every positive semidefinite matrix whose factorization is exact (singular ones included) and for every positive definite one, and false for every matrix with a negative or NaN diagonal entry and every indefinite one none of whose leading principal minors vanishes; when it returns false for a matrix of finite numbers, witness() yields a vector v, zero outside the reported range, with vᵀAv = −ep < 0. The answer does not depend on earlier use of the object.",
 ["inputs","histories"],"every positive semidefinite integer matrix with exact factors, every indefinite symmetric matrix, and every sequence of uses of one object",
 "three fixed 3×3 matrices",
 ["src/oracles/ldlt_mgr.rs"],[("factor_with_allow_semidefinite / witness","src/oracles/ldlt_mgr.rs")],["LDLTMgr"])
p("C17","LMI oracles accept exactly the feasible points and return valid cuts",
 "LMIOracle and LMIOldOracle accept x exactly when B − Σ xₖFₖ is positive definite, and LMI0Oracle exactly when Σ xₖFₖ is (away from rounding ties). Otherwise the returned (g,β) has β ≥ 0 and every y at which the matrix is positive semidefinite satisfies g·(y−x)+β ≤ 0; the lazy and the explicit oracle give the same answer, and answers do not depend on earlier queries.",
 ["inputs","histories"],"every set of symmetric matrices, dimension, query point and sequence of queries",
 "one pair of 2×2/3×3 examples, checked by final status only",
 ["src/oracles/lmi_oracle.rs","src/oracles/lmi_old_oracle.rs","src/oracles/lmi0_oracle.rs","src/oracles/ldlt_mgr.rs"],[("assess_feas","src/oracles/lmi*_oracle.rs")],["assess_feas"])
p("C18","The lowpass oracle enforces the filter specification",
 "With non-empty pass and stop bands, LowpassOracle accepts x exactly when, on its frequency grid, the response lies in [lp_sq, up_sq] on the passband, in [0, sp_sq] on the stopband, is non-negative in between and x[0] ≥ 0; otherwise it returns the parallel (or single) cut of a constraint violated at x, with depths equal to the violation and to the distance to the opposite limit. As an optimizer it lowers gamma to the largest stopband response of an accepted x, with a zero-depth cut through it; the answer's truth does not depend on which constraints earlier queries visited.",
 ["inputs","histories"],"every filter length, band edges, level triple, query sequence and query point near or far from feasibility",
 "tests only check that some cut comes back at the origin",
 ["src/oracles/lowpass_oracle.rs"],[("assess_feas / assess_optim round-robin","src/oracles/lowpass_oracle.rs"),("new: spectrum and band indices","src/oracles/lowpass_oracle.rs")],["assess_feas","assess_optim"])
p("C19","The packaged lowpass case is a consistent, solvable filter design",
 "create_lowpass_case(n) specifies passband ripple levels lp_sq < 1 < up_sq that are reciprocal to each other, a stopband level 0 < sp_sq < lp_sq and bands 0 < passband < stopband, on a grid of 15n frequencies over [0,π] with the cosine spectrum of an autocorrelation. For filter lengths large enough the optimization driver finds a filter meeting it, with either ellipsoid and both to the same stopband peak, and gamma equals the stopband peak of the returned filter.",
 ["inputs","configurations"],"filter lengths up to 64 and both ellipsoid representations",
 "the tests ignore whether the design succeeded",
 ["src/oracles/lowpass_oracle.rs"],[("create_lowpass_case","src/oracles/lowpass_oracle.rs"),("LowpassOracle::new","src/oracles/lowpass_oracle.rs")],["create_lowpass_case","cutting_plane_optim"])
p("C20","The profit oracle reports true constraints, profit and cuts",
 "ProfitOracle reports an improvement at y exactly when exp(y0) ≤ limit and the profit p·A·x0^a0·x1^a1 − v·x at x=exp(y) reaches gamma, and then sets gamma to that profit; gamma never decreases. For gamma ≥ 0 every cut it returns is valid: any y' within the limit whose profit exceeds the reported gamma satisfies g·(y'−y)+β ≤ 0, where β ≥ 0 is the logarithmic violation of a constraint violated at y (0 at an improvement), and driven by cutting_plane_optim it reaches the true maximum profit.",
 ["inputs","histories"],"every positive price, scale, limit, elasticity pair with sum below 1, input price pair, query sequence and starting gamma",
 "one parameter set, iteration counts pinned",
 ["src/oracles/profit_oracle.rs"],[("assess_feas / assess_optim","src/oracles/profit_oracle.rs")],["assess_optim","cutting_plane_optim"])
p("C21","The robust profit oracle guarantees its profit in the worst case",
 "A (y, gamma) reported by ProfitRbOracle as an improvement satisfies, for every elasticity, unit price, limit and input price within the given uncertainty, exp(y0) ≤ limit and profit ≥ gamma, with equality for the worst case; for gamma ≥ 0 its cuts never discard a point whose worst-case profit exceeds gamma. With zero uncertainty it answers like ProfitOracle.",
 ["inputs","histories"],"every nominal parameter set, uncertainty box, sampled and extreme realisations, query sequence",
 "one parameter set, iteration count pinned; no realisation is ever evaluated",
 ["src/oracles/profit_oracle.rs"],[("ProfitRbOracle::new / assess_optim","src/oracles/profit_oracle.rs")],["assess_optim"])
p("C22","The discrete profit oracle returns feasible whole-number designs",
 "Whenever ProfitOracleQ reports an improvement, exp of the returned point is a pair of positive integers within the limit and gamma is exactly that design's profit, never below the previous gamma. For gamma ≥ 0 its cut, expressed at the queried centre, keeps every point with profit above gamma; on a retry it re-evaluates the same integer point and offers no further alternative.",
 ["inputs","histories"],"every parameter set, query sequence with and without retry",
 "one run with a pinned iteration count",
 ["src/oracles/profit_oracle.rs"],[("ProfitOracleQ::assess_optim_q","src/oracles/profit_oracle.rs")],["assess_optim_q","cutting_plane_optim_q"])
p("C23","The quasiconvex example oracle is exact",
 "MyOracle reports an improvement at (s,t) exactly when s² ≤ t and s ≥ gamma·exp(t), setting gamma to s·exp(−t), which never decreases. For gamma ≥ 0 its cut, improvement or not, keeps every point satisfying the constraint with ratio above gamma, its depth is the violation of a constraint violated at the query, and driven by cutting_plane_optim it reaches the maximum 1/sqrt(2e).",
 ["inputs","histories"],"every query sequence and starting gamma",
 "one start point per ellipsoid kind with a loose interval on the answer",
 ["src/quasicvx.rs"],[("assess_optim","src/quasicvx.rs")],["assess_optim","cutting_plane_optim"])
p("C24","Conjugate gradient returns solutions, or an error",
 "conjugate_gradient returns Ok(x) only if the residual norm ‖b−Ax‖ is below the tolerance up to rounding, for any matrix, start vector and iteration limit. For symmetric positive definite A it succeeds within a small multiple of n iterations when A is well conditioned, and otherwise whenever max_iter allows many times what the method needs, including when b is zero or the start already solves the system, and it never modifies its inputs or panics.",
 ["inputs"],"every symmetric positive definite, singular and indefinite matrix up to 40×40, right-hand side, start vector, tolerance and limit",
 "four 2×2 systems",
 ["src/conjugate_gradient.rs"],[("conjugate_gradient","src/conjugate_gradient.rs")],["conjugate_gradient"])
p("C25","Power iterations return a consistent dominant eigenpair",
 "Unless an iterate vanishes, all four power iterations leave a unit-norm vector and return its Rayleigh quotient, whether they converge or exhaust max_iters (0 included), and at most max_iters iterations are counted. When they report convergence for a symmetric matrix with a dominant eigenvalue and a start with a component along it, the pair satisfies Ax ≈ λx and λ is that dominant eigenvalue, whatever the scale of the matrix or of the start vector, as long as the squares of their norms are representable.",
 ["inputs"],"every symmetric matrix with a spectral gap, at scales 1e-60 to 1e60, positive or negative dominant eigenvalue, start vector, tolerance and limit",
 "one 3×3 matrix with pinned iteration counts",
 ["src/power_iteration.rs"],[("power_iteration, 2, 3, 4","src/power_iteration.rs")],["power_iteration*"])
p("C26","The SVM oracle finds the worst sample and keeps every better separator",
 "SvmOracle sets gamma to the smallest signed margin of the queried hyperplane over all samples when that is below 1 and to 0 with a zero gradient otherwise, and gives the cut that depth. The returned gradient is that of a worst sample, so the half-space it leaves keeps every hyperplane whose smallest margin is at least the reported one; driven by cutting_plane_optim on separable data it ends at a separator with all margins at least 1.",
 ["inputs","histories"],"every data set, labelling, dimension and query point",
 "two tiny data sets",
 ["src/oracles/svm_oracle.rs"],[("assess_optim","src/oracles/svm_oracle.rs")],["assess_optim","cutting_plane_optim"])
p("C27","The max-cut oracle reports true cut values and never loses the best one",
 "MaxcutOracle evaluates the partition given by the signs of the query (zero counted as positive): it reports an improvement exactly when the weight of edges across it exceeds gamma, then sets gamma to that weight, and otherwise leaves gamma alone. The gradient it returns is minus twice the weight each vertex has across the partition, with depth minus the new gamma on an improvement and gamma otherwise, and driven by cutting_plane_optim gamma is the cut value of the returned point's signs.",
 ["inputs","histories"],"every symmetric weight matrix, query sequence and starting gamma",
 "two vertices, one edge",
 ["src/oracles/maxcut_oracle.rs"],[("assess_optim","src/oracles/maxcut_oracle.rs")],["assess_optim","cutting_plane_optim"])
p("C28","Array arithmetic matches the mathematical definition and preserves shape",
 "Every Arr operation (constructors, element access, +, −, ×, ÷, negation, in-place and by-reference forms, dot, matrix-vector and outer product, rank-one update, map, sum, row, linspace, arange) gives the elementwise or linear-algebraic result in the documented row-major layout with the shape of its operands, leaves its by-reference operands unchanged and all its forms agree. Operands of mismatched size in arithmetic and linear algebra, and vectors or non-square matrices where a square matrix is needed, are rejected by a panic and never silently truncated.",
 ["inputs"],"every shape (empty, vector, rectangular, square) and content (non-finite values propagate as in f64 arithmetic)",
 "a few fixed small arrays per operation",
 ["src/arr.rs"],[("Arr operators and methods","src/arr.rs")],["Arr"])
p("C29","Runs are deterministic and isolated",
 "The same inputs give bit-identical results on every run, in any thread, interleaved with any other use of the library, and whatever the verbosity: there is no hidden shared state, clones evolve independently of their originals, and arguments passed by shared reference are not modified. Executions are free of memory errors and undefined behaviour.",
 ["schedules","histories","inputs"],"repeated, interleaved and concurrent runs of mixed workloads, under address and thread checkers",
 "every test runs once, alone and single-threaded",
 ["src/lib.rs","src/ell.rs","src/ell_stable.rs","src/cutting_plane.rs","src/oracles/mod.rs"],[("value semantics, no globals","whole crate")],["digests of complete runs","sanitizer reports"])
p("C30","Results do not depend on the build configuration",
 "Debug and release builds, with and without overflow and debug checks, with and without the default std feature, produce bit-identical results on the same workload, and no valid input makes any of them panic.",
 ["configurations","inputs"],"the four build configurations over mixed workloads of every module",
 "tests run in one build configuration",
 ["Cargo.toml","src/lib.rs"],[("feature and profile independence","whole crate")],["digests of complete runs per build"])
p("C31","The Python drivers follow the same protocol",
 "The Python cutting_plane_feas, cutting_plane_optim and binary_search query the oracle once per iteration at the current centre (or bracket midpoint), pass its cut unchanged to one bias update, and stop at the first acceptance, non-success status (which they return), tsq below tolerance or after max_iters queries (UNKNOWN). A SUCCESS that came from acceptance returns exactly the accepted point; binary_search returns the middle of a bracket whose upper end is original or accepted and whose lower end is original or rejected; cutting_plane dispatches by oracle kind (an oracle that offers both is asked for feasibility). All of them work on the package's own Ell as on any user-supplied search space, and the returned iteration count is that of completed iterations.",
 ["histories","inputs"],"every sequence of oracle answers, statuses and tsq values, tolerance and max_iters",
 "a few fixed examples",
 ["python_ai/ellalgo/cutting_plane.py"],[("drivers","python_ai/ellalgo/cutting_plane.py")],["calls seen by user-supplied oracle and space"])
p("C32","The Python oracles are truthful",
 "The Python LmiOracle accepts x exactly when F0+Σ xᵢFᵢ is positive semidefinite (away from rounding ties) and otherwise returns the smallest eigenvalue λ and a gradient g with λmin(F(y)) ≤ λ + g·(y−x) for every y. The Python ProfitOracle reports a violated capacity before anything else and otherwise, for positive inputs, returns the negative of the true profit gradient with a negative depth, declares a point optimal (with depth 0) only where that gradient vanishes, and asks for larger inputs where one is not positive; neither modifies or aliases its inputs, and both reject matrices or vectors of inconsistent size with a ValueError.",
 ["inputs","histories"],"every matrix family, parameter set, query point and sequence",
 "a few fixed examples",
 ["python_ai/ellalgo/oracles/lmi_oracle.py","python_ai/ellalgo/oracles/profit_oracle.py"],[("assess_feas / assess_optim","python_ai/ellalgo/oracles/")],["assess_feas","assess_optim"])
p("C33","The Python ellipsoid refuses bad input and keeps its state consistent",
 "The Python Ell rejects matrices and centres of inconsistent dimension, copies its arguments, reports tsq = κ·gᵀMg of the state before the update (0 before the first), and on a non-success update leaves centre, shape and size untouched. A successful update keeps the shape symmetric, changes it only by a multiple of (Mg)(Mg)ᵀ, moves the centre only along Mg, and represents the same ellipsoid with and without the deferred scaling; status and change are exactly those that EllCalc gives for the cut's kind, depths and tsq (centre −ρ/ω·Mg, shape −σ/ω·(Mg)(Mg)ᵀ, size ×δ, ω=gᵀMg). For a single cut only the depth relative to √tsq matters.",
 ["inputs","histories"],"every dimension, ellipsoid, gradient, single and parallel depth, update kind and history",
 "a few fixed examples",
 ["python_ai/ellalgo/ell.py","python_ai/ellalgo/ell_calc.py"],[("_update_core","python_ai/ellalgo/ell.py")],["Ell attributes"])
p("C34","Options, cuts, statuses and errors carry and show what they were given",
 "cutting_plane::Options::new(m, t) holds exactly m and t with verbose off, and its default is 2000 iterations, tolerance 1e-20, not verbose. ParallelCut returns the depths it was built from. The four cut statuses are distinct and each is displayed by its own meaning (success, no solution, no effect, unknown). An EllipsoidError equals and displays like its clones, differs from and displays differently from an error with other content, and its text contains every count, value and message it holds and no number for a value it does not hold.",
 ["inputs"],"every count, value (infinities and extremes included) and message text",
 "two errors with fixed content are formatted once",
 ["src/error.rs","src/cutting_plane.rs"],[("Display for EllipsoidError","src/error.rs"),("Options, ParallelCut, CutStatus","src/cutting_plane.rs")],["Display, PartialEq, Clone","public fields and accessors"])
p("C35","The Python cut calculator is consistent",
 "EllCalc answers NO_EFFECT for tsq ≤ 0 whatever the cut. For tsq = τ² > 0 a single bias or q cut is NO_SOLN for β ≥ 0, NO_EFFECT for β ≤ −τ and SUCCESS between; a central cut is always SUCCESS; a parallel bias or q cut is NO_SOLN when its depths do not have the same sign and SUCCESS otherwise. A refused cut carries the neutral parameters (0, 0, 1). A successful single cut has δ = (n/(n+1))²(1−β²/τ²), bias shift ρ = β and σ = 2(n+1)(τ+β)/((n+2)τ+nβ), with ρ and σ of the q cut 1/(n+1) of those; a central cut has (0, 2/(n+1), (n/(n+1))²). Parallel cuts do not depend on the order of the depths, shift by σ times the middle of the strip, and take σ = η/k from the larger root of k² − 2hk + (n+1)ηβ0β1 with h = (τ²+β0β1)/2 + n((β0+β1)/2)², η = n²/(n²−1) for bias and 1/(n+1) for q. calc_single_or_parallel_* give exactly the single cut for a pair without second depth and the parallel cut otherwise. Options holds what it was given, by default 2000 iterations and tolerance 1e-20.",
 ["inputs"],"every dimension from 2, depth, pair of depths and tsq (zero and negative included)",
 "a few fixed examples",
 ["python_ai/ellalgo/ell_calc.py","python_ai/ellalgo/cutting_plane.py"],[("EllCalc, EllCalcCore","python_ai/ellalgo/ell_calc.py")],["EllCalc methods","Options attributes"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
