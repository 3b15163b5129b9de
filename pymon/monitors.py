"""Workloads and oracles for the Python port. Every monitor watches calls made by the real code
on scripted collaborators, or compares its answers with quantities computed here from scratch."""
import math

import numpy as np

from ellalgo.cutting_plane import (
    CutStatus,
    Options,
    binary_search,
    cutting_plane,
    cutting_plane_feas,
    cutting_plane_optim,
)
from ellalgo.ell import Ell
from ellalgo.ell_calc import EllCalc, EllCalcCore
from ellalgo.oracles import LmiOracle, ProfitOracle

STAT = [CutStatus.SUCCESS, CutStatus.NO_SOLN, CutStatus.NO_EFFECT, CutStatus.UNKNOWN]


# ---------------------------------------------------------------- C31: drivers
class Log:
    def __init__(self):
        self.calls = []


class ScriptSpace:
    """A search space that answers from a script and logs every call."""

    def __init__(self, rng, n, steps, log):
        self.log = log
        self.cur = np.array([rng.uniform(-5, 5) for _ in range(n)])
        self.steps = steps  # list of (status, tsq, next centre)
        self.k = 0
        self.t = 1e9

    def _step(self, kind, cut):
        st, t, nxt = self.steps[self.k] if self.k < len(self.steps) else (CutStatus.SUCCESS, 1.0, self.cur + 0.25)
        self.k += 1
        self.log.calls.append((kind, cut, st, t))
        self.t = t
        if st == CutStatus.SUCCESS:
            self.cur = nxt
        return st

    def xc(self):
        return self.cur.copy()

    def tsq(self):
        return self.t

    def update_bias_cut(self, cut):
        return self._step("bias", cut)

    def update_central_cut(self, cut):
        return self._step("central", cut)

    def update_q(self, cut):
        return self._step("q", cut)

    def set_xc(self, x):
        self.log.calls.append(("set_xc", x, None, None))


class AttrSpace:
    """Like Ell: centre and tsq are attributes."""

    def __init__(self, inner):
        self.inner = inner

    @property
    def xc(self):
        return self.inner.cur

    @property
    def tsq(self):
        return self.inner.t

    def get_xc(self):
        return self.inner.cur.copy()

    def get_tsq(self):
        return self.inner.t

    def update_bias_cut(self, cut):
        return self.inner._step("bias", cut)

    def update_central_cut(self, cut):
        return self.inner._step("central", cut)

    def update_q(self, cut):
        return self.inner._step("q", cut)

    def set_xc(self, x):
        self.inner.log.calls.append(("set_xc", x, None, None))


def rcut(rng, n):
    g = np.array([rng.choice([0.0, rng.gauss(0, 1), 10 ** rng.uniform(-20, 20)]) for _ in range(n)])
    if rng.random() < 0.03:  # what the gradient holds is no business of a driver
        g[rng.randrange(n)] = rng.choice([float("nan"), float("inf"), -float("inf"), 1e300, 5e-324])
    if rng.random() < 0.35:
        b = (rng.gauss(0, 1), rng.choice([None, rng.gauss(0, 1)]))
    else:
        b = rng.choice([0.0, rng.gauss(0, 1), -rng.random(), 1e18])
    return (g, b)


class FeasOracle:
    def __init__(self, answers, log, mutate=False):
        self.answers, self.log, self.k = answers, log, 0

    def assess_feas(self, xc):
        a = self.answers[self.k] if self.k < len(self.answers) else self.answers[-1]
        self.k += 1
        self.log.calls.append(("query", np.array(xc, copy=True), a, None))
        return a


class BothOracle(FeasOracle):
    """A feasibility oracle that could also be asked for an optimum."""

    def assess_optim(self, xc, gamma):
        self.log.calls.append(("optim", np.array(xc, copy=True), None, gamma))
        return (np.ones(len(xc)), 0.0), True


class OptimOracle:
    def __init__(self, answers, log):
        self.answers, self.log, self.k = answers, log, 0

    def assess_optim(self, xc, gamma):
        a = self.answers[self.k] if self.k < len(self.answers) else self.answers[-1]
        self.k += 1
        self.log.calls.append(("query", np.array(xc, copy=True), a, gamma))
        return a


def same_cut(a, b):
    if a is b:
        return True
    return np.array_equal(a[0], b[0], equal_nan=True) and a[1] == b[1]


def drive(c):
    rng = c.rng
    kind = rng.choice(["feas", "optim", "general_feas", "general_optim"])
    n = rng.randint(1, 5) if rng.random() < 0.9 else rng.randint(6, 60)
    L = rng.choice([1, 2, 3, 6, 12, 40])
    default_opts = rng.random() < 0.02
    tol = 1e-20 if default_opts else rng.choice([0.0, 1e-20, 1e-8, 1e-3, 1.0, 1e-8, 1e-3, 1e-300, -1.0, -1e-9, float("inf")])
    max_iters = 2000 if default_opts else rng.choice([0, 1, 2, L, L + 1, max(L - 1, 0), 100])
    if not default_opts and rng.random() < 0.004:
        max_iters = 2500
    ends = rng.choice(["accept", "status", "tsq", "never", "mix"])
    steps, answers, scripted = [], [], np.array([rng.uniform(-5, 5) for _ in range(n)])
    for i in range(L):
        st, t = CutStatus.SUCCESS, 10 ** rng.uniform(-2, 6)
        if t < tol:
            t = tol * 2
        if rng.random() < 0.02 and tol < 1e300:
            t = float("inf")
        if rng.random() < 0.05:
            t = tol  # a tie is not below
        last = i == L - 1
        if ends in ("status", "mix") and (last or rng.random() < 0.05):
            st = rng.choice(STAT[1:])
        if ends in ("tsq", "mix") and (last or rng.random() < 0.05):
            t = (tol * rng.choice([0.5, 0.999, 0.0]) if tol < 1e300 else rng.choice([1e300, 1.0])) if tol > 0 else tol * 2 - 1.0
        scripted = scripted + np.array([rng.gauss(0, 1) for _ in range(n)])
        steps.append((st, t, scripted.copy()))
        acc = ends in ("accept", "mix") and (last or rng.random() < 0.05)
        cut = rcut(rng, n)
        if kind.endswith("feas"):
            answers.append(None if acc else cut)
        else:
            answers.append((cut, acc))
    if answers[-1] is None:
        pass
    log = Log()
    inner = ScriptSpace(rng, n, steps, log)
    attr = rng.random() < 0.3
    space = AttrSpace(inner) if attr else inner
    start = inner.cur.copy()
    opts = None if default_opts else Options(max_iters=max_iters, tolerance=tol)
    if kind.endswith("feas"):
        orc = BothOracle(answers, log) if rng.random() < 0.1 else FeasOracle(answers, log)
        r = cutting_plane_feas(orc, space, opts) if kind == "feas" else cutting_plane(orc, space, opts)
    else:
        orc = OptimOracle(answers, log)
        r = cutting_plane_optim(orc, space, opts) if kind == "optim" else cutting_plane(orc, space, opts)
    if kind == "feas":
        status, sol, iters = r
    else:
        status, sol, obj, iters = r
        if kind == "general_feas":
            c.check(obj is None, lambda: f"{kind}: objective {obj}")
    # online specification replayed over the recorded log
    cen, k, exp = start, 0, None
    calls = log.calls
    pos = 0
    def bad(msg):
        c.check(False, f"{kind} n={n} max_iters={max_iters} tol={tol} attr={attr}: {msg}\nlog={calls[:12]}\nresult={r}")
    while True:
        if k >= max_iters:
            exp = (CutStatus.UNKNOWN, cen, max_iters)
            break
        if pos >= len(calls) or calls[pos][0] != "query":
            return bad(f"iteration {k}: no oracle query (call {pos})")
        if not np.array_equal(calls[pos][1], cen):
            return bad(f"iteration {k}: queried {calls[pos][1]} centre {cen}")
        a = calls[pos][2]
        pos += 1
        c.ev("query")
        if kind.endswith("feas"):
            accepted, cut = a is None, a
        else:
            cut, accepted = a
        if accepted:
            exp = (CutStatus.SUCCESS, cen, k)
            c.ev("end:accept")
            break
        if pos >= len(calls) or calls[pos][0] != "bias":
            return bad(f"iteration {k}: no bias update (call {pos})")
        _, got, st, t = calls[pos]
        pos += 1
        c.ev("update")
        if not same_cut(got, cut):
            return bad(f"iteration {k}: cut altered {got} vs {cut}")
        if st != CutStatus.SUCCESS:
            exp = (st, cen, k)
            c.ev("end:" + st.name)
            break
        cen = steps[k][2] if k < len(steps) else cen + 0.25
        if t < tol:
            exp = (CutStatus.SUCCESS, cen, k)
            c.ev("end:tsq")
            break
        k += 1
    if exp[0] == CutStatus.UNKNOWN and k >= max_iters:
        c.ev("end:exhausted")
    if pos != len(calls):
        return bad(f"{len(calls) - pos} calls after the stopping condition")
    if status != exp[0] or iters != exp[2] or not np.array_equal(np.asarray(sol), exp[1]):
        return bad(f"returned {(status, sol, iters)}, protocol demands {exp}")
    c.eval((kind, n, max_iters, tol, len(calls), tuple(start)))
    c.sample(lambda: f"{kind} n={n} max_iters={max_iters} tol={tol} calls={len(calls)} -> {status.name} after {iters}")


def bsearch(c):
    rng = c.rng
    mag = 10 ** rng.uniform(-8, 12)
    l0 = rng.choice([0.0, rng.uniform(-1, 1) * mag])
    u0 = l0 + rng.random() * 10 ** rng.uniform(-6, 12)
    tol = rng.choice([1e-12, 1e-8, 1e-3, 0.5, 10 ** rng.uniform(-6, 6), (u0 - l0) / 2 ** rng.randint(0, 20)])
    mi = rng.choice([0, 1, 2, 5, 30, 60, 200])
    mode = rng.choice(["thr", "rand", "yes", "no"])
    if rng.random() < 0.05:  # an empty interval is below every tolerance
        l0, u0 = u0, l0
        c.ev("bs:reversed")
    if rng.random() < 0.1:
        tol = rng.choice([0.0, -1.0, float("inf"), 10 ** rng.uniform(-15, -9) * max(abs(l0), abs(u0))])
    if rng.random() < 0.05:  # far from the origin, tolerance of a few units in the last place
        l0 = rng.choice([-1, 1]) * 10 ** rng.uniform(12, 200)
        u0 = l0 + abs(l0) * 10 ** rng.uniform(-12, 0)
        tol = abs(l0) * 2.3e-16 * 10 ** rng.uniform(0.5, 4)
        c.ev("bs:far")
    thr = rng.uniform(l0, u0)
    if rng.random() < 0.02:
        mi, tol, opts = 2000, 1e-20, None
    else:
        opts = Options(mi, tol)
    lu = [l0, u0]
    probes = []

    class O:
        def assess_bs(self, g):
            l, u = lu
            m = (l + u) / 2
            eps = 4 * 2.3e-16 * max(abs(l), abs(u))
            c.check(abs(g - m) <= eps, lambda: f"probe {g!r} is not the midpoint of [{l!r},{u!r}] (probe {len(probes)})")
            c.check(not (u - l < tol), lambda: f"probed although the bracket [{l!r},{u!r}] is below tolerance {tol}")
            probes.append(g)
            ans = {"thr": g >= thr, "rand": rng.random() < 0.5, "yes": True, "no": False}[mode]
            lu[1 if ans else 0] = g
            c.ev("probe")
            return ans

    st, val, it = binary_search(O(), l0, u0, opts)
    l, u = lu
    c.check(it == len(probes), lambda: f"iterations {it}, probes {len(probes)}")
    c.check(len(probes) <= mi, "too many probes")
    if len(probes) < mi:
        c.check(u - l < tol, lambda: f"stopped early at width {u - l} tol {tol} after {len(probes)} of {mi}")
        c.check(st == CutStatus.SUCCESS, lambda: f"status {st}")
        c.ev("bs:converged")
    else:
        c.check(st == CutStatus.UNKNOWN, lambda: f"status {st} after exhausting {mi}")
        c.ev("bs:exhausted")
    c.check(abs(val - (l + u) / 2) <= 4 * 2.3e-16 * max(abs(l), abs(u), 1e-300),
            lambda: f"value {val!r} is not the middle of [{l!r},{u!r}]")
    c.eval(("bs", l0, u0, tol, mi, mode))


def own_ell(c):
    """The package's own Ell under the drivers: protocol watched from the outside."""
    rng = c.rng
    n = rng.randint(2, 5) if rng.random() < 0.9 else rng.randint(6, 40)
    e = Ell.new_with_scalar(rng.uniform(0.5, 3), np.array([rng.gauss(0, 1) for _ in range(n)]))
    seen = []

    class O:
        def assess_feas(self, xc):
            seen.append((np.array(xc, copy=True), e.get_xc()))
            if len(seen) == stop:
                return None
            g = np.array([rng.gauss(0, 1) for _ in range(n)])
            return g, -0.3 * math.sqrt(e.kappa * abs(g @ e.mq @ g)) if rng.random() < 0.9 else 1.0

    stop = rng.randint(1, 6)
    st, sol, it = cutting_plane_feas(O(), e, Options(rng.choice([3, 50]), 1e-12))
    for q, x in seen:
        c.check(np.array_equal(q, x), lambda: f"queried {q} while the centre was {x}")
    if len(seen) == stop and st == CutStatus.SUCCESS:
        c.check(np.array_equal(sol, seen[-1][0]) and it == stop - 1, lambda: f"accepted {seen[-1][0]} returned {sol} after {it}")
        sol[0] += 1e3  # the caller's result is its own
        c.check(np.array_equal(e.get_xc(), seen[-1][1]), "modifying the returned solution changed the search space")
    c.ev("own_ell")
    c.eval(("ell", n, it, tuple(sol)))


def c31(c):
    k = c.idx % 10
    if k < 6:
        drive(c)
    elif k < 9:
        bsearch(c)
    else:
        own_ell(c)


# ---------------------------------------------------------------- C32: oracles
def npr(rng):
    return np.random.default_rng(rng.getrandbits(63))


def lmi(c):
    rng, r = c.rng, npr(c.rng)
    m, n = rng.randint(1, 8), rng.randint(1, 6)
    if rng.random() < 0.08:
        m, n = rng.randint(1, 24), rng.randint(1, 20)
        c.ev("lmi:large")
    unit = np.ones(n)
    if rng.random() < 0.15:  # variables in very different units
        unit = np.array([10 ** rng.uniform(-14, 14) for _ in range(n)])
        c.ev("lmi:units")
    sc = 10 ** rng.uniform(-6, 6)

    def sym(kind):
        a = r.standard_normal((m, m))
        if kind == "int":
            a = np.round(2 * a)
        if kind == "rank1":
            v = r.standard_normal((m, 1))
            return v @ v.T * rng.choice([-1, 1])
        if kind == "diag":
            return np.diag(r.standard_normal(m))
        if kind == "zero":
            return np.zeros((m, m))
        return (a + a.T) / 2

    F0 = sc * sym(rng.choice(["gen", "int", "diag", "rank1"]))
    if rng.random() < 0.5:
        F0 = F0 + np.eye(m) * sc * rng.uniform(0, 4)
    Fs = [sc * sym(rng.choice(["gen", "int", "diag", "rank1", "zero"])) for _ in range(n)]
    diag = rng.random() < 0.08
    if diag:  # whole numbers on the diagonal: nothing is rounded
        F0 = np.diag(np.round(2 * r.standard_normal(m) + 1.5))
        Fs = [np.diag(np.round(r.standard_normal(m))) for _ in range(n)]
        unit[:] = 1.0
    Fs = [f * u for f, u in zip(Fs, unit)]
    Fc, F0c = [f.copy() for f in Fs], F0.copy()
    if rng.random() < 0.05:
        bad = rng.choice(["wide", "wrong", "thin"])
        fs = [f.copy() for f in Fs]
        f0 = F0.copy()
        if bad == "wide":
            f0 = np.zeros((m, m + 1))
        else:
            fs[rng.randrange(n)] = np.zeros((m + 1, m + 1)) if bad == "wrong" else np.zeros((m, m + 1))
        try:
            LmiOracle(f0, fs)
            c.check(False, f"matrices of inconsistent shape accepted ({bad}, m={m})")
        except ValueError:
            c.ev("lmi:bad_shape_rejected")
    o = LmiOracle(F0, Fs)
    if rng.random() < 0.3:  # the oracle owns copies
        F0 += 7 * sc
        for f in Fs:
            f -= 3 * sc * unit.max()
        c.ev("lmi:args_clobbered")
        F0, Fs = F0c.copy(), [f.copy() for f in Fc]
    first = {}
    for q in range(rng.randint(1, 6)):
        if first and rng.random() < 0.3:
            x = rng.choice(list(first.values()))[0]
        else:
            x = r.standard_normal(n) * 10 ** rng.uniform(-2, 1.5)
            u = rng.random()
            if u < 0.15:
                x[:] = 0.0
            elif u < 0.45:  # sparse queries, integral ones
                for i in range(n):
                    if rng.random() < 0.5:
                        x[i] = rng.choice([0.0, 0.0, -0.0, 1.0, -1.0])
                c.ev("lmi:sparse_query")
            if diag:
                x = np.round(2 * r.standard_normal(n))
            elif u > 0.7:  # next to the boundary along this ray
                lam = lambda t: np.linalg.eigvalsh(F0c + sum(t * (xi / u) * f for xi, u, f in zip(x, unit, Fc)))[0]
                if lam(0.0) > 0 and lam(1.0) < 0:
                    lo, hi = 0.0, 1.0
                    for _ in range(45):
                        mid = (lo + hi) / 2
                        lo, hi = (mid, hi) if lam(mid) > 0 else (lo, mid)
                    x = x * (lo * (1 + rng.choice([-1, -1, 1]) * 10 ** rng.uniform(-9, -2)))
                    c.ev("lmi:next_to_boundary")
            if not np.array_equal(unit, np.ones(n)):
                x = x / unit
        xk = x.copy()
        ans = o.assess_feas(x)
        if not c.check(np.array_equal(x, xk), "query point modified"):
            return
        Fx = F0c + sum(xi * f for xi, f in zip(xk, Fc))
        ev = np.linalg.eigvalsh(Fx)
        scale = np.abs(F0c).max() + sum(abs(xi) * np.abs(f).max() for xi, f in zip(xk, Fc)) + 1e-300
        tie = 1e-11 * m * scale
        c.eval(("lmi", m, n, hash(xk.tobytes()), hash(F0c.tobytes())))
        if diag and np.diag(Fx).min() == 0:
            c.ev("lmi:exactly_singular")
            c.check(ans is None, lambda: f"diagonal matrix with entries {np.diag(Fx)} refused: {ans}")
        if ev[0] > tie:
            c.ev("lmi:accept")
            c.check(ans is None, lambda: f"feasible point (λmin={ev[0]}) refused: {ans}")
        elif ev[0] < -tie:
            c.ev("lmi:cut")
            if not c.check(ans is not None, lambda: f"infeasible point (λmin={ev[0]}, scale {scale}) accepted"):
                return
            g, b = ans
            c.check(np.shape(g) == (n,), lambda: f"gradient shape {np.shape(g)}")
            c.check(abs(b - ev[0]) <= 10 * tie, lambda: f"β={b}, λmin={ev[0]}")
            for _ in range(4):
                y = xk + r.standard_normal(n) / unit * 10 ** rng.uniform(-3, 2)
                Fy = F0c + sum(yi * f for yi, f in zip(y, Fc))
                ly = np.linalg.eigvalsh(Fy)[0]
                sy = np.abs(F0c).max() + sum(abs(yi) * np.abs(f).max() for yi, f in zip(y, Fc))
                ub = b + float(g @ (y - xk))
                # eigenvector rounding: relative 1e-8 of the terms involved
                slack = 1e-9 * m * m * (scale + sy + np.abs(g) @ np.abs(y - xk))
                c.check(ly <= ub + slack, lambda: f"cut invalid: λmin(F(y))={ly} > {ub}, g={g}, β={b}, x={xk}, y={y}")
                c.ev("lmi:supergradient_points")
        else:
            c.ev("lmi:tie")
            ans = "tie"
        key = xk.tobytes()
        if key in first and ans != "tie" and first[key][1] != "tie":
            p = first[key][1]
            same = (p is None) == (ans is None) and (p is None or (np.all(np.abs(p[0] - ans[0]) <= 1e-9 * (np.abs(p[0]) + scale * unit)) and abs(p[1] - ans[1]) <= 1e-9 * scale))
            c.check(same, lambda: f"second answer at {xk} differs: {p} / {ans}")
            c.ev("lmi:requery")
        first[key] = (xk, ans)
    c.sample(lambda: f"LMI m={m} n={n} scale={sc:.2e} queries={len(first)}")
    for bad in ([F0c[:, :-1]] if m > 1 else []):
        try:
            LmiOracle(bad, Fc)
            c.check(False, "non-square F0 accepted")
        except ValueError:
            c.ev("lmi:rejects")
    try:
        LmiOracle(F0c, Fc + [np.eye(m + 1)])
        c.check(False, "F of wrong size accepted")
    except ValueError:
        c.ev("lmi:rejects")


def profit(c):
    rng = c.rng
    p, A = 10 ** rng.uniform(-1, 2), 10 ** rng.uniform(-1, 2)
    if rng.random() < 0.1:
        p, A = 10 ** rng.uniform(-5, 6), 10 ** rng.uniform(-5, 6)
    a = np.array([rng.uniform(0.05, 0.9), rng.uniform(0.05, 0.9)])
    if rng.random() < 0.7:
        a *= 0.9 / a.sum()
    v = np.array([10 ** rng.uniform(-1, 2), 10 ** rng.uniform(-1, 2)])
    k = 10 ** rng.uniform(-1, 2)
    a0, v0 = a.copy(), v.copy()
    if rng.random() < 0.05:
        w = rng.choice([1, 3, 0])
        bad = (np.ones(w), v) if rng.random() < 0.5 else (a, np.ones(w))
        try:
            ProfitOracle(p, A, bad[0], bad[1], k)
            c.check(False, f"elasticities {bad[0]} and prices {bad[1]} accepted")
        except ValueError:
            c.ev("profit:bad_length_rejected")
    o = ProfitOracle(p, A, a, v, k)
    if rng.random() < 0.3:
        a *= 3
        v *= 5
    for _ in range(rng.randint(1, 8)):
        mode = rng.choice(["in", "in", "over", "edge", "nonpos", "opt", "part", "part", "cancel"])
        x = np.array([k * rng.random() if mode != "over" else k * (1 + 10 ** rng.uniform(-6, 2)), 10 ** rng.uniform(-3, 3)])
        if mode == "edge":
            x[0] = k
        if mode == "nonpos":
            x[rng.randint(0, 1)] = rng.choice([0.0, -rng.random()])
            if rng.random() < 0.2:
                x[:] = -1.0
        if mode == "opt" and a0.sum() < 0.95:
            # the unconstrained optimum: v_i x_i = a_i p A x^a
            s = a0.sum()
            lr = (math.log(p * A) + sum(a0[i] * (math.log(a0[i]) - math.log(v0[i])) for i in range(2))) / (1 - s)
            x = np.array([a0[i] * math.exp(lr) / v0[i] for i in range(2)])
            if rng.random() < 0.3:  # near, but not stationary
                x *= 1 + 10 ** rng.uniform(-7, -2) * rng.choice([-1, 1])
        if mode == "part":
            # one component of the gradient vanishes, the other does not
            i = rng.randint(0, 1)
            lx = (math.log(a0[i] * p * A / v0[i]) + a0[1 - i] * math.log(x[1 - i])) / (1 - a0[i])
            if -300 < lx < 300:
                x[i] = math.exp(lx)
        if mode == "cancel":
            # the components cancel in the sum
            def tot(t):
                rv = math.exp(math.log(p * A) + a0[0] * math.log(x[0]) + a0[1] * math.log(t))
                return v0.sum() - a0[0] * rv / x[0] - a0[1] * rv / t
            lo, hi = 1e-9, 1e9
            if tot(lo) * tot(hi) < 0:
                up = tot(hi) > 0
                for _ in range(200):
                    m = math.sqrt(lo * hi)
                    lo, hi = (lo, m) if (tot(m) > 0) == up else (m, hi)
                x[1] = lo
        xk = x.copy()
        gam = rng.choice([float("inf"), 0.0, -5.0, 100.0])
        (g, b), opt = o.assess_optim(x, gam)
        c.eval(("profit", p, A, tuple(xk)))
        if not c.check(np.array_equal(x, xk), "query point modified"):
            return
        if xk[0] > k:
            c.ev("profit:over")
            c.check(not opt and np.allclose(g, [1, 0]) and abs(b - (k - xk[0])) <= 1e-9 * (k + xk[0]),
                    lambda: f"capacity {k} violated at {xk} but answer is {(g, b, opt)}")
            continue
        if min(xk) <= 0:
            c.ev("profit:nonpositive")
            c.check(not opt, lambda: f"point {xk} with undefined profit called optimal")
            c.check(np.any(np.asarray(g) != 0) and all(gi == 0 or xi <= 0 for gi, xi in zip(g, xk)) and all(gi <= 0 for gi in g),
                    lambda: f"cut {(g, b)} at {xk} does not ask for larger inputs")
            continue
        rev = math.exp(math.log(p * A) + a0[0] * math.log(xk[0]) + a0[1] * math.log(xk[1]))
        want = np.array([v0[i] - a0[i] * rev / xk[i] for i in range(2)])
        mag = np.array([v0[i] + a0[i] * rev / xk[i] for i in range(2)])
        c.check(np.all(np.abs(np.asarray(g) - want) <= 1e-9 * mag), lambda: f"gradient {g}, true {want} at {xk}")
        nrm = np.linalg.norm(want)
        if min(abs(want)) < 1e-7 < 1e-3 < max(abs(want)):
            c.ev("profit:one_component_vanishes")
        if abs(want.sum()) < 1e-7 < 1e-3 < nrm:
            c.ev("profit:components_cancel")
        if opt:
            c.check(b == 0, lambda: f"optimal point {xk} with depth {b}")
        if nrm > 1e-5 + 1e-8 * mag.max():
            c.ev("profit:not_stationary")
            c.check(not opt and b < 0, lambda: f"at {xk} with gradient norm {nrm}: depth {b}, optimal {opt}")
            if nrm < 1e-3:
                c.ev("profit:nearly_stationary")
        elif nrm < 1e-7 and 1e-9 * mag.max() < 1e-7:
            c.ev("profit:stationary")
            c.check(bool(opt), lambda: f"stationary point {xk} not declared optimal (norm {nrm})")
        c.ev("profit:gradient")


def c32(c):
    lmi(c) if c.idx % 3 else profit(c)


def listed_nan(n, kind, b0, b1, ts):
    """Is this parallel cut one for which the listed finding py-parallel-nan explains a non-finite result?
    (no real root, or a root equal to eta, in formulas that take eta for a squared length)"""
    fn = float(n)
    if kind == "central":
        b0 = -b1
    eta = 1 / (fn + 1) if kind == "q" else fn * fn / (fn * fn - 1)
    mean = (b0 + b1) / 2
    h = 0.5 * (ts + b0 * b1) + fn * mean * mean
    t = (fn + 1) * eta * b0 * b1
    disc = h * h - t
    if disc <= 1e-9 * (h * h + abs(t)):
        return True
    k = h + math.sqrt(disc)
    return abs(k - eta) <= 1e-9 * (abs(k) + eta) or abs(k) <= 1e-9 * abs(h)


# ---------------------------------------------------------------- C33: Ell
def c33(c):
    rng, r = c.rng, npr(c.rng)
    n = rng.choice([2, 2, 3, 4, 6, 10]) if rng.random() < 0.95 else rng.randint(11, 40)
    if rng.random() < 0.03:
        try:
            EllCalcCore(1.0)
            Ell(1.0, np.eye(1), np.zeros(1))
            c.ev("dim1:ok")
        except ZeroDivisionError:
            c.known("py-dim1", "Ell(1.0, eye(1), zeros(1)) raises ZeroDivisionError")
    # constructors
    a = r.standard_normal((n, n))
    M = a @ a.T + 0.1 * np.eye(n)
    x0 = r.standard_normal(n)
    kap = 10 ** rng.uniform(-4, 4)
    how = rng.choice(["full", "matrix", "diag", "scalar"])
    Mk, xk = M.copy(), x0.copy()
    if how == "full":
        e = [Ell(kap, M, x0), Ell(kap, M, x0, no_defer_trick=True)]
    elif how == "matrix":
        e = [Ell.new_with_matrix(kap, M, x0), Ell(kap, M, x0, True)]
    elif how == "diag":
        d = 10 ** r.uniform(-2, 2, n)
        e = [Ell.new(d, x0)]
        Mk, kap = np.diag(d), 1.0
        e.append(Ell(1.0, np.diag(d), x0, True))
    else:
        e = [Ell.new_with_scalar(kap, x0)]
        e.append(Ell(e[0].kappa, e[0].mq, x0, True))
        c.check(e[0].kappa == kap, "new_with_scalar kappa")
        q = e[0].mq
        c.check(np.allclose(q, q[0, 0] * np.eye(n)), "new_with_scalar is not a ball")
        Mk = q.copy()
    if rng.random() < 0.5:
        M[:] = -1
        x0[:] = 1e9
        c.ev("args_clobbered")
    for q in e:
        c.check(q.ndim == n and np.array_equal(q.get_xc(), xk) and q.kappa == kap and np.array_equal(q.mq, Mk),
                lambda: f"{how}: constructor did not keep its own copy of the ellipsoid")
        c.check(q.get_tsq() == 0.0, lambda: f"{how}: a new ellipsoid reports tsq={q.get_tsq()}")
    bads = [(np.eye(n)[:, : n - 1], xk), (np.eye(n), np.zeros(n + 1)), (np.zeros(n), xk), (np.eye(n), np.zeros((n, 1))), (np.eye(n + 1), xk)]
    bm, bx = rng.choice(bads)
    try:
        Ell(1.0, bm, bx)
        c.check(False, lambda: f"Ell accepted mq {bm.shape} with xc {bx.shape}")
    except ValueError:
        c.ev("rejects")
    alive = True
    for step in range(rng.randint(1, 12)):
        g = r.standard_normal(n) * 10 ** rng.uniform(-3, 3)
        if rng.random() < 0.05:
            g[:] = 0
        elif rng.random() < 0.2:
            g[r.integers(n)] = 0
        kind = rng.choice(["bias", "bias", "central", "q"])
        start0 = (e[0].kappa, e[0].mq.copy())
        ts = e[0].kappa * float(g @ e[0].mq @ g)
        tau = math.sqrt(ts) if ts > 0 else 1.0
        par = rng.random() < 0.3
        b = tau * rng.choice([rng.uniform(-1.5, 0.5), rng.uniform(-1, 0), 0.0, -1.0 - 1e-9, -0.999])
        if not par and rng.random() < 0.1:  # a whole number, given as int
            b = rng.choice([0, -1, 1, -2])
            c.ev("int_depth")
        beta = b
        if par:
            beta = (b, rng.choice([None, None, tau * rng.uniform(-1.2, 1.2)]))
        sts = []
        for q in e:
            before = (q.kappa, q.mq.copy(), q.xc.copy())
            gk = g.copy()
            mg = before[1] @ g
            om = float(g @ mg)
            try:
                with np.errstate(all="ignore"):
                    st = {"bias": q.update_bias_cut, "central": q.update_central_cut, "q": q.update_q}[kind]((g, beta))
            except (ZeroDivisionError, FloatingPointError) as ex:
                if par and beta[1] is not None and listed_nan(n, kind, beta[0], beta[1], before[0] * om):
                    c.known("py-parallel-nan", f"parallel cut {beta} raised {ex!r}")
                    alive = False
                    break
                raise
            sts.append(st)
            c.check(np.array_equal(g, gk), "gradient modified")
            want = before[0] * om
            c.check(abs(q.get_tsq() - want) <= 1e-9 * (before[0] * float(np.abs(g) @ np.abs(before[1]) @ np.abs(g))) + 1e-300,
                    lambda: f"tsq {q.get_tsq()} instead of κ·gᵀMg={want}")
            # what the calculator says for this cut at this tsq is what the ellipsoid reports and applies
            b1 = beta[1] if par else None
            cal = EllCalc(n)
            with np.errstate(all="ignore"):
                wst, (rho, sigma, delta) = (
                    (cal.calc_bias_cut(b, q.get_tsq()) if kind == "bias" else cal.calc_bias_cut_q(b, q.get_tsq()) if kind == "q" else cal.calc_central_cut(q.get_tsq()))
                    if b1 is None
                    else (cal.calc_parallel_bias_cut(b, b1, q.get_tsq()) if kind == "bias" else cal.calc_parallel_q(b, b1, q.get_tsq()) if kind == "q" else cal.calc_parallel_central_cut(b1, q.get_tsq()))
                )
            if not c.check(st == wst, lambda: f"{kind} cut β={beta}: ellipsoid reports {st}, its calculator {wst}"):
                return
            if st != CutStatus.SUCCESS:
                c.ev("refused:" + st.name)
                c.check(q.kappa == before[0] and np.array_equal(q.mq, before[1]) and np.array_equal(q.xc, before[2]),
                        lambda: f"{st} changed the ellipsoid ({kind}, β={beta})")
                continue
            if not (np.isfinite(q.kappa) and np.all(np.isfinite(q.mq)) and np.all(np.isfinite(q.xc))):
                if par and beta[1] is not None and listed_nan(n, kind, beta[0], beta[1], want):
                    c.known("py-parallel-nan", f"{kind} parallel cut {beta} at tsq={want}: non-finite result reported as SUCCESS")
                    alive = False
                    break
                c.check(False, f"SUCCESS with non-finite state ({kind}, β={beta}, tsq={want})")
                return
            c.ev("success:" + kind + ("/parallel" if par and beta[1] is not None else ""))
            size = before[0] * delta
            k1, wm = (1.0, size * (before[1] - (sigma / om) * np.outer(mg, mg))) if q.no_defer_trick else (size, before[1] - (sigma / om) * np.outer(mg, mg))
            wx = before[2] - (rho / om) * mg
            # tsq and om may be summed in another order: relative error of om
            eo = 1e-13 * float(np.abs(g) @ np.abs(before[1]) @ np.abs(g)) / abs(om)
            fac = abs(size) if q.no_defer_trick else 1.0
            tm = (1e-12 + eo) * fac * (np.abs(before[1]).max() + abs(sigma / om) * np.abs(np.outer(mg, mg)).max())
            tx = (1e-12 + eo) * (np.abs(before[2]).max() + abs(rho / om) * (np.abs(before[1]) @ np.abs(g)).max())
            if eo < 1e-6:
                c.check(abs(q.kappa - k1) <= 1e-12 * abs(k1) and np.abs(q.mq - wm).max() <= tm + 1e-300 and np.abs(q.xc - wx).max() <= tx + 1e-300,
                        lambda: f"{kind} cut β={beta}: calculator gives ρ,σ,δ={rho, sigma, delta}, ellipsoid became κ={q.kappa} xc={q.xc} (expected {k1}, {wx}), shape off by {np.abs(q.mq - wm).max()}")
                c.ev("applied")
            # the centre moves along Mg only
            dx = q.xc - before[2]
            t = float(dx @ mg) / float(mg @ mg)
            c.check(np.all(np.abs(dx - t * mg) <= 1e-9 * (np.abs(before[2]) + np.abs(t * mg)).max()),
                    lambda: f"centre moved by {dx}, not along Mg={mg}")
            # the shape changes by a multiple of (Mg)(Mg)^T, up to the size factor
            P1 = q.mq / (before[0] if q.no_defer_trick else 1.0)
            if q.no_defer_trick:
                c.check(q.kappa == 1.0, "no_defer_trick leaves kappa != 1")
            c.check(np.array_equal(q.mq, q.mq.T) or np.allclose(q.mq, q.mq.T, rtol=1e-12, atol=1e-12 * np.abs(q.mq).max()), "shape not symmetric")
            # solve P1 = s*(before - r*mgmg^T): s, r by least squares over all entries
            A = np.stack([before[1].ravel(), np.outer(mg, mg).ravel() / om], 1)
            sol, *_ = np.linalg.lstsq(A, P1.ravel(), rcond=None)
            res = P1.ravel() - A @ sol
            c.check(np.abs(res).max() <= 1e-8 * (np.abs(P1).max() + np.abs(A * sol).max()),
                    lambda: f"shape changed by more than a multiple of (Mg)(Mg)ᵀ: residual {np.abs(res).max()}")
            if not q.no_defer_trick and n > 2:
                c.check(abs(sol[0] - 1) <= 1e-6, lambda: f"shape rescaled by {sol[0]} although the scaling is deferred")
        if not alive:
            break
        if len(sts) == 2:
            gmg = float(np.abs(g) @ np.abs(start0[1]) @ np.abs(g)) * start0[0]
            tie = abs(ts) <= 1e-6 * gmg or abs(b / tau + 1) < 1e-6
            if tie:
                c.ev("defer_tie")
            else:
                if not c.check(sts[0] == sts[1], lambda: f"deferred/undeferred statuses differ: {sts} ({kind}, β={beta})"):
                    return
                p0, p1 = e[0].kappa * e[0].mq, e[1].kappa * e[1].mq
                # amplification of rounding in tsq by the formulas and by cancellation in the rank-one update
                amp = 1.0 / max(abs(b / tau + 1), 1e-6) + gmg / abs(ts)
                lost = max(1.0, start0[0] * np.abs(start0[1]).max() / max(np.abs(p0).max(), 1e-300))
                tolr = 1e-11 * amp * (lost if lost < 1e4 else float("inf")) + (1e-6 if par else 0.0)
                c.check(np.abs(p0 - p1).max() <= tolr * np.abs(p0).max() and np.abs(e[0].xc - e[1].xc).max() <= tolr * (np.abs(e[0].xc).max() + math.sqrt(np.abs(p0).max())),
                        lambda: f"deferred and undeferred ellipsoids differ after step {step}: {p0} / {p1} tol {tolr}")
                c.ev("defer_pairs")
            # compare step by step: the next cut starts from one ellipsoid in both representations
            e[1].mq = e[0].kappa * e[0].mq
            e[1].kappa = 1.0
            e[1].xc = e[0].xc.copy()
        c.eval((n, kind, step, hash(g.tobytes()), str(beta)))
        if np.linalg.cond(e[0].mq) > 1e6:
            break
    # single cuts: only the depth relative to tau matters
    cal = EllCalc(n)
    ts = 10 ** rng.uniform(-12, 12)
    tau = math.sqrt(ts)
    b = tau * rng.choice([rng.uniform(-1.5, 0.5), rng.uniform(-1, 0), -0.999, 0.0])
    if abs(b / tau + 1) > 1e-9:
        s2 = 2.0 ** rng.randint(-20, 20)
        for nm in ("calc_bias_cut", "calc_bias_cut_q", "calc_central_cut"):
            f = getattr(cal, nm)
            one, two = (f(ts), f(ts * s2 * s2)) if nm == "calc_central_cut" else (f(b, ts), f(b * s2, ts * s2 * s2))
            c.check(one[0] == two[0] and np.allclose([one[1][0] * s2, one[1][1], one[1][2]], two[1], rtol=1e-9, atol=0),
                    lambda: f"{nm}: β={b} τ²={ts} gives {one}, scaled by {s2} {two}")
            c.ev("scaled")
    y = r.standard_normal(n)
    e[0].set_xc(y)
    y2 = y.copy()
    y[:] = 5
    got = e[0].get_xc()
    c.check(np.array_equal(got, y2), "set_xc keeps a reference to the caller's array")
    got[:] = -3
    c.check(np.array_equal(e[0].get_xc(), y2), "get_xc exposes internal state")
    try:
        ws = rng.choice([(n + 1,), (n - 1,), (1,), (n, 1), (1, n), (), (0,)])
        e[0].set_xc(np.zeros(ws))
        c.check(False, lambda: f"set_xc accepted shape {ws} for dimension {n}")
    except ValueError:
        c.check(np.array_equal(e[0].get_xc(), y2), "failed set_xc changed the centre")
    c.sample(lambda: f"{how} n={n} kappa={kap:.3g} step={step} last {kind} β={beta} -> {sts}")


# ---------------------------------------------------------------- C35: EllCalc, Options
NEUTRAL = (0.0, 0.0, 1.0)


def near(a, b, rel=1e-9):
    return abs(a - b) <= rel * max(abs(a), abs(b))


def c35(c):
    rng = c.rng
    n = rng.choice([2, 2, 3, 4, 5, 8, 13, 40, 200, rng.randint(2, 3000)])
    cal = EllCalc(n)
    fn = float(n)
    other = EllCalc(rng.choice([2, 3, 7, 50]))
    for _ in range(6):
        if rng.random() < 0.1:
            # another calculator in use must not matter
            other.calc_bias_cut(-0.3, 1.0)
            other.calc_central_cut(2.0)
        ts = 10 ** rng.uniform(-15, 15) if rng.random() < 0.9 else rng.choice([1.0, 4.0, 0.25, 9.0, 10 ** rng.uniform(-60, 60)])
        tau = math.sqrt(ts)
        a = rng.choice([rng.uniform(-1, 0), rng.uniform(-1, 0), rng.uniform(-1.5, 1.5), 0.0, -0.0, -1e-9, -1 + 1e-6, -1 - 1e-6, -1.0, -1.0, 1.0, rng.uniform(1, 1e3), -rng.uniform(1, 1e3), -0.5])
        if abs(a) == 1.0:  # an exact edge needs a squared half-width whose root is exact
            tau = rng.randint(1, 4000) * 2.0 ** rng.randint(-40, 40)
            ts = tau * tau
        b = a * tau
        if rng.random() < 0.1:
            ts = rng.choice([0.0, -0.0, -ts])
        bias, q, cen = cal.calc_bias_cut(b, ts), cal.calc_bias_cut_q(b, ts), cal.calc_central_cut(ts)
        c.eval((n, b, ts))
        ctx = f"n={n} β={b!r} τ²={ts!r}: bias {bias}, q {q}, central {cen}"
        if ts <= 0:
            want = CutStatus.NO_EFFECT
        elif b >= 0:
            want = CutStatus.NO_SOLN
        elif a <= -1:
            want = CutStatus.NO_EFFECT
        else:
            want = CutStatus.SUCCESS
        if not c.check(bias[0] == want and q[0] == want and cen[0] == (CutStatus.NO_EFFECT if ts <= 0 else CutStatus.SUCCESS),
                       lambda: f"single cut verdict, expected {want.name}; {ctx}"):
            return
        c.ev("single:" + want.name)
        for st, prm in (bias, q, cen):
            if not c.check(st == CutStatus.SUCCESS or tuple(prm) == NEUTRAL, lambda: f"a refused cut carries parameters that change something; {ctx}"):
                return
        if want == CutStatus.SUCCESS:
            d = (fn / (fn + 1)) ** 2 * (1 - a) * (1 + a)
            if not c.check(near(bias[1][2], d) and near(q[1][2], d), lambda: f"size factor is not (n/(n+1))²(1−β²/τ²)={d}; {ctx}"):
                return
            if not c.check(near(bias[1][0], b) and near(q[1][0] * (fn + 1), b) and near(q[1][1] * (fn + 1), bias[1][1]), lambda: f"the q cut does not shift and flatten by 1/(n+1) of the bias cut, whose shift is β; {ctx}"):
                return
            sg = 2 * (fn + 1) * (1 + a) / (fn + 2 + fn * a)
            if not c.check(near(bias[1][1], sg), lambda: f"σ is not 2(n+1)(τ+β)/((n+2)τ+nβ)={sg}; {ctx}"):
                return
            c.ev("single:params")
        if ts > 0 and not c.check(cen[1][0] == 0 and near(cen[1][1], 2 / (fn + 1)) and near(cen[1][2], (fn / (fn + 1)) ** 2), lambda: f"central cut parameters; {ctx}"):
            return
        if not c.check(cal.calc_single_or_parallel_bias_cut((b, None), ts) == bias and cal.calc_single_or_parallel_q((b, None), ts) == q
                       and cal.calc_single_or_parallel_central_cut((b, None), ts) == cen, lambda: f"a pair without second depth is not treated as a single cut; {ctx}"):
            return
        # two depths
        b1 = tau * rng.choice([rng.uniform(-1, 1), rng.uniform(-1, 1), -a, 0.0, a])
        with np.errstate(all="ignore"):
            try:
                pb, pq, pc = cal.calc_parallel_bias_cut(b, b1, ts), cal.calc_parallel_q(b, b1, ts), cal.calc_parallel_central_cut(b1, ts)
                sb, sq = cal.calc_parallel_bias_cut(b1, b, ts), cal.calc_parallel_q(b1, b, ts)
                db, dq, dc = cal.calc_single_or_parallel_bias_cut((b, b1), ts), cal.calc_single_or_parallel_q((b, b1), ts), cal.calc_single_or_parallel_central_cut((b, b1), ts)
            except ZeroDivisionError as ex:
                if c.check(any(listed_nan(n, kd, b, b1, ts) for kd in ("bias", "q", "central")), lambda: f"parallel cut ({b}, {b1}) at τ²={ts} raised {ex!r}"):
                    c.known("py-parallel-nan", f"parallel cut ({b}, {b1}) at τ²={ts} raised {ex!r}")
                    continue
                return
        ctx = f"n={n} β=({b!r}, {b1!r}) τ²={ts!r}: bias {pb}, q {pq}, central {pc}"
        want = CutStatus.NO_EFFECT if ts <= 0 else CutStatus.NO_SOLN if b * b1 <= 0 else CutStatus.SUCCESS
        if not c.check(pb[0] == want and pq[0] == want and sb[0] == want and sq[0] == want and pc[0] == (CutStatus.NO_EFFECT if ts <= 0 else CutStatus.SUCCESS),
                       lambda: f"parallel cut verdict, expected {want.name}; {ctx}"):
            return
        c.ev("parallel:" + want.name)
        for st, prm in (pb, pq, pc):
            if not c.check(st == CutStatus.SUCCESS or tuple(prm) == NEUTRAL, lambda: f"a refused cut carries parameters that change something; {ctx}"):
                return
        fin = [np.all(np.isfinite(p[1])) for p in (pb, pq, pc)]
        for ok, kd in zip(fin, ("bias", "q", "central")):
            if not ok:
                if not c.check(listed_nan(n, kd, b, b1, ts), lambda: f"{kd}: non-finite parameters; {ctx}"):
                    return
                c.known("py-parallel-nan", ctx)
        for ok, one, two, dis in ((fin[0], pb, sb, db), (fin[1], pq, sq, dq), (fin[2], pc, pc, dc)):
            if not ok:
                continue
            if not c.check(one[0] == dis[0] and one[1] == dis[1], lambda: f"a pair with second depth is not treated as the parallel cut of its kind: {dis}; {ctx}"):
                return
            if not c.check(one[0] == two[0] and np.allclose(one[1], two[1], rtol=1e-6, atol=0) or not np.all(np.isfinite(two[1])), lambda: f"swapping the depths changes the cut: {two}; {ctx}"):
                return
        if want == CutStatus.SUCCESS:
            mean = (b + b1) / 2
            for k, e2, (st, (rho, sigma, delta)) in ((0, fn * fn / (fn * fn - 1), pb), (1, 1 / (fn + 1), pq)):
                if not fin[k]:
                    continue
                if not c.check(near(rho, mean * sigma, 1e-9), lambda: f"ρ is not σ times the middle of the strip; {ctx}"):
                    return
                # σ = η/k with k the larger root of k² − 2hk + (n+1)ηβ0β1 = 0, h = (τ²+β0β1)/2 + n·mean²
                h = 0.5 * (ts + b * b1) + fn * mean * mean
                kk = e2 / sigma
                terms = kk * kk + 2 * abs(h * kk) + (fn + 1) * e2 * abs(b * b1)
                if not c.check(abs(kk * kk - 2 * h * kk + (fn + 1) * e2 * b * b1) <= 1e-8 * terms and kk >= h * (1 - 1e-8), lambda: f"σ={sigma} does not belong to the larger root; {ctx}"):
                    return
                if abs(kk - e2) > 1e-5 * (abs(kk) + e2):
                    dl = 1 + (b * b1 * sigma - b * b1) * (e2 / (kk - e2)) / ts
                    if not c.check(abs(delta - dl) <= 1e-6 * (1 + abs(dl)), lambda: f"δ={delta}, expected {dl}; {ctx}"):
                        return
                c.ev("parallel:params")
        c.sample(lambda: ctx)
    # options
    m, t = rng.choice([0, 1, 2000, rng.randint(0, 10**9)]), rng.choice([0.0, 1e-20, 10 ** rng.uniform(-300, 3)])
    o = Options(m, t)
    k = Options(tolerance=t)
    k2 = Options(max_iters=m)
    c.check((o.max_iters, o.tolerance) == (m, t) and (k.max_iters, k.tolerance) == (2000, t) and (k2.max_iters, k2.tolerance) == (m, 1e-20), "Options does not hold what it was given")
    for z in (Options(), Options.default()):
        c.check((z.max_iters, z.tolerance) == (2000, 1e-20), "default options are not 2000 iterations and tolerance 1e-20")
    c.check(len({s.value for s in CutStatus}) == 4 and len({CutStatus.SUCCESS, CutStatus.NO_SOLN, CutStatus.NO_EFFECT, CutStatus.UNKNOWN}) == 4, "cut statuses are not distinct")
    c.ev("options")


SPECS = {
    "C35": dict(f=c35, quick=20000, thorough=1500000,
                rule="random dimensions, depths and squared half-widths (non-positive ones included) through every function of EllCalc; an evaluation is one cut whose verdict and parameters were recomputed and compared between the functions",
                need=[("single:SUCCESS", 5000), ("single:NO_SOLN", 1000), ("single:NO_EFFECT", 1000), ("parallel:SUCCESS", 1000), ("parallel:NO_SOLN", 1000), ("parallel:NO_EFFECT", 500), ("single:params", 5000), ("parallel:params", 500), ("options", 1000)],
                assumptions=["dimension at least 2", "parallel cuts whose formulas give non-finite parameters are a known finding"]),
    "C31": dict(f=c31, quick=12000, thorough=600000,
                rule="scripted oracle/space pairs whose answers, statuses and tsq values end a run in every way; a case is one complete run, distinct by kind, script and options",
                need=[("query", 5000), ("update", 5000), ("probe", 5000), ("end:accept", 100), ("end:tsq", 100), ("end:NO_SOLN", 50), ("end:NO_EFFECT", 50), ("end:UNKNOWN", 50), ("end:exhausted", 100), ("bs:converged", 100), ("bs:exhausted", 100), ("own_ell", 100)],
                assumptions=["single-threaded use", "finite tsq values and interval ends whose sum does not overflow"]),
    "C32": dict(f=c32, quick=6000, thorough=200000,
                rule="random LMI families and query points, random Cobb-Douglas parameters and points in, on and beyond the capacity; distinct by parameters and query point",
                need=[("lmi:accept", 200), ("lmi:cut", 1000), ("lmi:requery", 100), ("profit:over", 100), ("profit:gradient", 500), ("profit:nonpositive", 100), ("profit:stationary", 20)],
                assumptions=["numpy.linalg.eigvalsh is the reference for eigenvalues (independent recomputation of the matrix)", "symmetric matrices; ties within 1e-11 of the matrix scale not judged"]),
    "C33": dict(f=c33, quick=5000, thorough=150000,
                rule="random ellipsoids from every constructor, deferred and undeferred side by side, under random histories of cuts; distinct by gradient, depth and kind",
                need=[("refused:NO_SOLN", 100), ("refused:NO_EFFECT", 100), ("success:bias", 500), ("success:central", 200), ("success:q", 200), ("defer_pairs", 1000), ("rejects", 1000), ("applied", 1000), ("scaled", 1000)],
                assumptions=["dimension at least 2 (dimension 1 is a known finding)", "parallel cuts whose formulas give non-finite parameters are a known finding"]),
}
