"""C24: the NUTS sampler targets the posterior of the model."""
import warnings
import numpy as np
import scipy as scp
import scipy.stats as ss
from hypothesis import strategies as st
from vp import fgen, mfit, mls
from vp.core import Sub, Skip, Known, Violation
from vp.util import close, ok, dense, SEED, shape, fd_grad
from vp.props import C11, C13, C21, C23

PROPERTY = "C24"
RULE = ("Cases: (kernel) analytic targets (correlated normals, products of logistics, Gumbels and Student t), metrics, step sizes, tree depths and seeds for the compiled kernel; "
        "(model) generated GAMMs of all families, GAMMLSS and general smooth models at generated or estimated smoothing parameters, proper or improper priors, fixed or sampled "
        "log smoothing parameters, prior classes, chain counts, schedules. Oracle: invariance of the target when started from exact draws, forgetting of a remote start, dual "
        "averaging recomputed, log densities recomputed from dense matrices at every draw, finite-differenced gradients, covariance of the momenta against the metric, exact "
        "posterior moments of normal models. Non-trivial: the chain moved.")
ASSUME = ["statistical comparisons use bounds that chance exceeds with probability below 1e-8 per comparison",
          "un-penalised smooth terms and impulse responses get no vague prior and are not generated with make_proper"]


# ------------------------------------------------------------------ kernel on analytic targets
class Target:
    def __init__(self, c):
        r = np.random.default_rng(c["seed"])
        d = c["d"]
        self.kind, self.d = c["kind"], d
        A = r.normal(size=(d, d))
        self.A = np.linalg.qr(A)[0] @ np.diag(10 ** r.uniform(-c["spread"], c["spread"], size=d)) @ (np.eye(d) + 0.3 * np.tril(r.normal(size=(d, d)), -1))
        self.Ai = np.linalg.inv(self.A)
        self.m = r.normal(size=d)
        self.dist = {"norm": ss.norm(), "logis": ss.logistic(scale=np.sqrt(3) / np.pi), "gumbel": ss.gumbel_r(), "t": ss.t(6)}[self.kind]
        z = c["metric"]
        if z == "exact":
            M = self.A @ self.A.T
        elif z == "unit":
            M = np.eye(d)
        else:
            B = r.normal(size=(d, d))
            M = 0.7 * self.A @ self.A.T + 0.3 * np.diag(np.diag(self.A @ self.A.T)) + 0.05 * self.A @ B @ B.T @ self.A.T / d
        self.Minv = scp.sparse.csc_array(M)
        self.R = np.linalg.cholesky(np.linalg.inv(M))
        self.calls = 0

    def lp(self, x):
        z = self.Ai @ (np.asarray(x).ravel() - self.m)
        k = self.kind
        if k == "norm":
            return float(-0.5 * z @ z)
        if k == "logis":
            s = np.sqrt(3) / np.pi
            return float(np.sum(-z / s - 2 * np.log1p(np.exp(-z / s)))) if np.all(z > -700) else -np.inf
        if k == "gumbel":
            return float(np.sum(-z - np.exp(np.minimum(-z, 700))))
        return float(np.sum(-3.5 * np.log1p(z ** 2 / 6)))

    def g(self, x):
        z = self.Ai @ (np.asarray(x).ravel() - self.m)
        k = self.kind
        self.calls += 1
        if k == "norm":
            q = -z
        elif k == "logis":
            s = np.sqrt(3) / np.pi
            q = -np.tanh(z / s / 2) / s
        elif k == "gumbel":
            q = -1 + np.exp(np.minimum(-z, 700))
        else:
            q = -7 * z / (6 + z ** 2)
        return np.asfortranarray((self.Ai.T @ q).reshape(-1, 1))

    def r(self, seed):
        return np.asfortranarray(self.R @ np.random.default_rng(seed).normal(size=(self.d, 1)))

    def draw(self, rng, n):
        z = self.dist.rvs(size=(self.d, n), random_state=rng)
        return z, self.m[:, None] + self.A @ z

    def args(self):
        from mssm.src.python.gamm_solvers import map_csc_to_eigen
        return map_csc_to_eigen(self.Minv)


def advance(T, seed, m, Ma, steps, x, eps, eb=1.0, Hb=0.0, mu=0.0, delta=0.6, kappa=1.0, gam=0.05, t0=10, mj=8, cl=None):
    import mcmc
    x = np.asfortranarray(np.asarray(x, float).reshape(-1, 1))
    return mcmc.advance_chain(int(seed), m, Ma, steps, T.lp(x) if cl is None else cl, x, *T.args(), eps, eb, Hb, mu, delta, kappa, gam, t0, mj, T.lp, T.g, T.r)


@st.composite
def kcase(draw, steps=(1, 3)):
    return {"kind": draw(st.sampled_from(["norm", "norm", "logis", "gumbel", "t"])), "d": draw(st.integers(1, 3)), "seed": draw(SEED),
            "spread": draw(st.sampled_from([0.0, 0.3])), "metric": draw(st.sampled_from(["exact", "exact", "near", "unit"])),
            "eps": draw(st.sampled_from([0.15, 0.4, 0.8, 1.3, 1.7])), "mj": draw(st.integers(1, 6)), "steps": draw(st.integers(*steps))}


def uniform_scores(T, X):
    return T.dist.cdf(T.Ai @ (X - T.m[:, None]))


def check_unif(U, what):
    """U: (d, n) independent U(0,1) scores per column (columns independent)."""
    n = U.shape[1]
    for i, u in enumerate(U):
        p = ss.kstest(u, "uniform").pvalue
        ok(p > 1e-9, "%s: coordinate %d does not follow the target any more (Kolmogorov-Smirnov p=%.2g, n=%d)" % (what, i, p, n))
        z = (np.mean((u - 0.5) ** 2) - 1 / 12) / np.sqrt((1 / 80 - 1 / 144) / n)
        ok(abs(z) < 6.5, "%s: spread of coordinate %d is off by %.1f standard errors" % (what, i, z))
    for i in range(len(U)):
        for j in range(i):
            z = np.mean((U[i] - 0.5) * (U[j] - 0.5)) * 12 * np.sqrt(n)
            ok(abs(z) < 6.5, "%s: coordinates %d and %d became correlated (%.1f standard errors)" % (what, i, j, z))


def c_inv(c):
    T = Target(c)
    if c["metric"] == "unit":
        c = dict(c, eps=c["eps"] * float(np.sqrt(np.linalg.eigvalsh(T.A @ T.A.T)[0])))
    r = np.random.default_rng(c["seed"] + 1)
    n = c.get("n", 3000)
    _, X = T.draw(r, n)
    out = np.zeros((T.d, n))
    moved = 0
    sl = []
    for k in range(n):
        ll, xs, e, eb, Hb = advance(T, c["seed"] * 7919 + k, 10 ** 6, 5, c["steps"], X[:, k], c["eps"], eb=c["eps"], mj=c["mj"])
        ok(e == c["eps"] and eb == c["eps"] and Hb == 0.0, "step size changed after adaptation: %r" % ((e, eb, Hb),))
        shape(xs, (T.d, c["steps"]), "states")
        if k < 40:
            for s in range(c["steps"]):
                w = T.lp(xs[:, s])
                ok(abs(ll[s] - w) <= 1e-9 * (1 + abs(w)), "reported log density %r, density at the draw %r" % (ll[s], w))
        out[:, k] = xs[:, -1]
        moved += np.any(xs[:, -1] != X[:, k])
        sl.append(np.any(xs[:, -1] != X[:, k]))
    check_unif(uniform_scores(T, out), "after %d NUTS transitions from exact draws (eps=%.3g, max_j=%d)" % (c["steps"], c["eps"], c["mj"]))
    return {"nt": moved > n // 3, "tags": [c["kind"], c["metric"]]}


def c_forget(c):
    """Remote common start, adaptation by the kernel itself, then the target."""
    import mcmc
    c = dict(c, metric="exact" if c["metric"] == "unit" else c["metric"])
    T = Target(c)
    r = np.random.default_rng(c["seed"] + 2)
    x0 = T.m + T.A @ (r.choice([-1.0, 1.0], size=T.d) * 4.0)
    n = c.get("n", 120)
    out = np.zeros((T.d, n))
    eb_all = []
    for k in range(n):
        x = np.asfortranarray(x0.reshape(-1, 1))
        e0 = mcmc.find_reasonable_epsilon(x, T.g(x), *T.args(), T.lp(x), T.lp, T.g, T.r, c["seed"] + k)
        ll, xs, e, eb, Hb = advance(T, c["seed"] * 31 + k, 0, 60, 60, x0, e0, mu=np.log(10 * e0), kappa=1.0, mj=6)
        ll, xs, e, eb, Hb = advance(T, c["seed"] * 37 + k, 60, 60, 40, xs[:, -1], eb, eb=eb, mj=8)
        eb_all.append(eb)
        out[:, k] = xs[:, -1]
    ok(np.all(np.isfinite(out)), "non-finite draws")
    check_unif(uniform_scores(T, out), "100 transitions after a remote start")
    return {"nt": True, "tags": [c["kind"], c["metric"]]}


def leap(T, x, r, eps):
    M = dense(T.Minv)
    r1 = r + 0.5 * eps * T.g(x)
    x1 = x + eps * M @ r1
    r2 = r1 + 0.5 * eps * T.g(x1)
    return x1, r2, T.lp(x1) - 0.5 * float((r2.T @ M @ r2)[0, 0])


@st.composite
def ecase(draw):
    c = draw(kcase())
    c["d"] = draw(st.integers(1, 6))
    c["far"] = draw(st.sampled_from([0.5, 2, 6]))
    c["m"] = draw(st.integers(0, 40))
    c["delta"] = draw(st.sampled_from([0.5, 0.65, 0.9]))
    c["kappa"] = draw(st.sampled_from([0.6, 0.75, 1.0]))
    c["gam"] = draw(st.sampled_from([0.05, 0.3]))
    c["t0"] = draw(st.sampled_from([1, 10, 20]))
    return c


def c_eps(c):
    import mcmc
    T = Target(c)
    r = np.random.default_rng(c["seed"] + 3)
    x = np.asfortranarray((T.m + T.A @ r.normal(size=T.d) * c["far"]).reshape(-1, 1))
    last = []

    def rs(seed):
        last.append(T.r(seed))
        return last[-1]
    H0l = T.lp(x)
    if not np.isfinite(H0l) or H0l < -1e6:
        raise Skip("start without density")
    e = mcmc.find_reasonable_epsilon(x, T.g(x), *T.args(), H0l, T.lp, T.g, rs, c["seed"])
    ok(len(last) == 1, "momentum sampled %d times for the step size" % len(last))
    H0 = H0l - 0.5 * float((last[0].T @ dense(T.Minv) @ last[0])[0, 0])
    k = np.log2(e / 0.1)
    ok(abs(k - round(k)) < 1e-9, "initial step size %r is not 0.1 times a power of two" % e)
    a = 1 if leap(T, x, last[0], 0.1)[2] - H0 > np.log(0.5) else -1
    prev = leap(T, x, last[0], e / 2.0 ** a)[2] - H0
    here = leap(T, x, last[0], e)[2] - H0
    tol = 1e-7 * (1 + abs(H0))
    ok(a * here <= a * np.log(0.5) + tol and (a * prev >= a * np.log(0.5) - tol),
       "step size %r: acceptance does not cross one half (log ratios %r -> %r, direction %d)" % (e, prev, here, a))
    # dual averaging: one transition at a time, and the same in one call
    mu = float(np.log(10 * e))
    eb, Hb = 1.0, 0.0
    m, Ma = c["m"], c["m"] + c["steps"] + (2 if c["mj"] % 2 else 0)
    first = advance(T, c["seed"], m, Ma, 1, x, e, eb, Hb, mu, c["delta"], c["kappa"], c["gam"], c["t0"], c["mj"])
    e1, eb1, Hb1 = first[2:]
    m1 = m + 1
    if m1 < Ma:
        w = 1.0 / (m1 + c["t0"])
        acc = c["delta"] - (Hb1 - (1 - w) * Hb) / w
        ok(-1e-9 <= acc <= 1 + 1e-9, "acceptance statistic %r outside [0, 1]" % acc)
        we = np.exp(mu - np.sqrt(m1) / c["gam"] * Hb1)
        wb = np.exp(m1 ** -c["kappa"] * np.log(we) + (1 - m1 ** -c["kappa"]) * np.log(eb))
        ok(abs(e1 - we) <= 1e-9 * we, "adapted step size %r, dual averaging gives %r" % (e1, we))
        ok(abs(eb1 - wb) <= 1e-9 * wb, "averaged step size %r, dual averaging gives %r" % (eb1, wb))
    else:
        ok(e1 == eb and eb1 == eb and Hb1 == Hb, "adaptation continued past its end")
    again = advance(T, c["seed"], m, Ma, 1, x, e, eb, Hb, mu, c["delta"], c["kappa"], c["gam"], c["t0"], c["mj"])
    ok(np.array_equal(again[1], first[1]) and np.array_equal(again[0], first[0]), "the same seed gave another transition")
    return {"nt": bool(np.any(first[1][:, 0] != x.ravel())), "tags": [c["kind"], "up" if a == 1 else "down"]}


def c_acc(c):
    """Trees of depth one: the acceptance statistic of the adaptation is that of the single leapfrog step."""
    T = Target(c)
    r = np.random.default_rng(c["seed"] + 4)
    x = np.asfortranarray((T.m + T.A @ r.normal(size=T.d)).reshape(-1, 1))
    last = []
    T0 = T.r

    def rs(seed):
        last.append(T0(seed))
        return last[-1]
    T.r = rs
    ll, xs, e, eb, Hb = advance(T, c["seed"], 0, 10, 1, x, c["eps"], 1.0, 0.0, 0.0, 0.6, 1.0, 0.05, 10, 1)
    H0 = T.lp(x) - 0.5 * float((last[0].T @ dense(T.Minv) @ last[0])[0, 0])
    acc = 0.6 - Hb * 11
    cand = [leap(T, x, last[0], s * c["eps"]) for s in (1, -1)]
    want = [min(1.0, np.exp(min(h[2] - H0, 0))) for h in cand]
    ok(min(abs(acc - w) for w in want) <= 1e-8, "acceptance statistic %r of a single step, expected one of %r" % (acc, want))
    pts = [x.ravel()] + [h[0].ravel() for h in cand]
    ok(min(np.max(np.abs(xs[:, 0] - q)) for q in pts) <= 1e-9 * (1 + np.max(np.abs(xs))), "the draw is not a point of the trajectory")
    return {"nt": bool(np.any(xs[:, 0] != x.ravel())), "tags": [c["kind"]]}


def c_one(c):
    """Trees of depth one from a fixed state and momentum: a step in either direction (probability 1/2 each) is accepted with
    probability min(1, exp(change of the Hamiltonian))."""
    T = Target(c)
    r = np.random.default_rng(c["seed"] + 8)
    x = np.asfortranarray((T.m + T.A @ T.dist.rvs(size=T.d, random_state=r)).reshape(-1, 1))
    p0 = T.r(c["seed"] % 10 ** 6)
    T.r = lambda seed: p0
    eps = c["eps"] * (float(np.sqrt(np.linalg.eigvalsh(T.A @ T.A.T)[0])) if c["metric"] == "unit" else 1) * 1.1
    H0 = T.lp(x) - 0.5 * float((p0.T @ dense(T.Minv) @ p0)[0, 0])
    cand = [leap(T, x, p0, s * eps) for s in (1, -1)]
    want = [0.5 * min(1.0, np.exp(min(h[2] - H0, 0))) for h in cand]
    n = c.get("n", 6000)
    cnt = np.zeros(3)
    for k in range(n):
        y = advance(T, c["seed"] * 31 + k, 10 ** 6, 5, 1, x, eps, eb=eps, mj=1)[1][:, 0]
        d = [np.max(np.abs(y - q)) for q in (cand[0][0].ravel(), cand[1][0].ravel(), x.ravel())]
        ok(min(d) <= 1e-9 * (1 + np.max(np.abs(y))), "the draw is not a point of the trajectory")
        cnt[int(np.argmin(d))] += 1
    for j, w in enumerate(want + [1 - sum(want)]):
        sd = np.sqrt(n * max(w * (1 - w), 1e-3))
        ok(abs(cnt[j] - n * w) <= 6.5 * sd, "%s chosen %d times in %d, expected %.1f" % (("the step forward", "the step backward", "the current state")[j], cnt[j], n, n * w))
    return {"nt": min(want) < 0.45, "tags": [c["kind"]]}


@st.composite
def ucase(draw):
    c = draw(kcase())
    c["d"] = min(c["d"], 2)
    c["thr"] = draw(st.sampled_from([-0.3, 0.4, 1.2]))
    c["val"] = draw(st.sampled_from(["nan", "nan", "-inf"]))
    c["gnan"] = draw(st.booleans())
    return c


def c_undef(c):
    """A log density that is undefined (NaN) or minus infinity beyond a threshold: the target is the truncated distribution."""
    T = Target(c)
    lp, g = T.lp, T.g
    out = lambda x: (T.Ai @ (np.asarray(x).ravel() - T.m))[0] > c["thr"]
    T.lp = lambda x: float(c["val"]) if out(x) else lp(x)
    T.g = lambda x: np.full((T.d, 1), np.nan, order="F") if c["gnan"] and out(x) else g(x)
    if c["metric"] == "unit":
        c = dict(c, eps=c["eps"] * float(np.sqrt(np.linalg.eigvalsh(T.A @ T.A.T)[0])))
    r = np.random.default_rng(c["seed"] + 6)
    n = c.get("n", 1200)
    top = T.dist.cdf(c["thr"])
    Z = T.dist.ppf(r.uniform(size=(T.d, n)))
    Z[0] = T.dist.ppf(r.uniform(size=n) * top)
    X = T.m[:, None] + T.A @ Z
    # adaptation
    ll, xs, e, eb, Hb = advance(T, c["seed"], 0, 40, 40, X[:, 0], c["eps"], mu=np.log(10 * c["eps"]), mj=c["mj"])
    ok(np.isfinite([e, eb, Hb]).all() and e > 0 and eb > 0, "step size after adaptation: %r" % ((e, eb, Hb),))
    ok(np.isfinite(ll).all() and not any(out(xs[:, k]) for k in range(xs.shape[1])), "a draw outside of the support")
    Y = np.zeros((T.d, n))
    for k in range(n):
        ll, xs, e, eb, Hb = advance(T, c["seed"] * 7919 + k, 10 ** 6, 5, c["steps"], X[:, k], c["eps"], eb=c["eps"], mj=c["mj"])
        ok(np.isfinite(ll).all() and not any(out(xs[:, q]) for q in range(xs.shape[1])), "a draw outside of the support")
        Y[:, k] = xs[:, -1]
    U = uniform_scores(T, Y)
    U[0] /= top
    check_unif(U, "truncated target, after %d transitions from exact draws" % c["steps"])
    return {"nt": True, "tags": [c["kind"], c["val"]]}


# ------------------------------------------------------------------ priors on log smoothing parameters
@st.composite
def pcase(draw):
    return {"k": draw(st.integers(1, 4)), "n": draw(st.integers(1, 6)), "seed": draw(SEED), "kind": draw(st.sampled_from(["unif", "cent" ])),
            "a": draw(st.floats(-15, 3)), "w": draw(st.floats(0.5, 20)), "c": draw(st.floats(0.2, 6))}


def c_prior(c):
    from mssm.src.python import utils as U
    r = np.random.default_rng(c["seed"])
    a, b = c["a"], c["a"] + c["w"]
    rho = r.uniform(a - 2, b + 2, size=(c["n"], c["k"]))
    if c["kind"] == "unif":
        P = U.MVUniformRhoPrior(a, b)
        lo, hi = np.full(c["k"], a), np.full(c["k"], b)
    else:
        m = r.uniform(a, b, size=c["k"])
        P = U.CenteredUniformRhoPriors(m, a, b, c["c"])
        lo, hi = np.maximum(m - c["c"], a), np.minimum(m + c["c"], b)
    want = np.where(((rho >= lo) & (rho <= hi)).all(axis=1), -np.log(hi - lo).sum(), -np.inf)
    got = np.asarray(P.logpdf(rho))
    shape(got, (c["n"],), "log densities")
    ok(np.array_equal(np.isinf(got), np.isinf(want)), "support: %r, expected %r" % (got, want))
    close(got[np.isfinite(want)], want[np.isfinite(want)], 0, 1e-9, "log density of the prior")
    keep = rho.copy()
    v = P.make_valid(rho)
    ok(np.array_equal(rho, keep), "make_valid changed its argument")
    ok(np.all((v >= lo - 1e-12) & (v <= hi + 1e-12)), "make_valid left values outside the support")
    ins = (rho >= lo) & (rho <= hi)
    ok(np.array_equal(v[ins], rho[ins]), "make_valid changed valid values")
    ok(np.all(P.dlpdrho(rho) == 0), "gradient of a uniform prior")
    return {"nt": bool(ins.any() and not ins.all())}


# ------------------------------------------------------------------ models
class NormalPrior:
    """A prior with curvature, implementing the documented interface."""

    def __new__(cls, m, s):
        from mssm.src.python.utils import RhoPrior

        class P(RhoPrior):
            def logpdf(self, rho):
                return ss.norm.logpdf(rho, m, s).sum(axis=1)

            def make_valid(self, rho):
                return rho.copy()

            def dlpdrho(self, rho):
                return -(rho - m) / s ** 2
        return P()


def null_ridge(blocks, pens, p, lam0, o0):
    """Vague prior: ridge on linear terms, projector on the null space of penalised smooths without one."""
    S = np.zeros((p, p))
    for B in blocks:
        cols = B.cols + o0
        if B.kind == "lin":
            S[cols, cols] += lam0
        elif B.kind == "sm" and B.term.get("pen", True) and not B.term.get("null"):
            M = np.zeros((len(cols),) * 2)
            for q in pens:
                D = dense(q.S_J_emb)[np.ix_(cols, cols)]
                if np.abs(D).max() > 0:
                    M += D / np.abs(D).max()
            ev, U = np.linalg.eigh(M)
            if np.any((ev > ev[-1] * 1e-12) & (ev < ev[-1] * 1e-7)):
                raise Skip("rank of a penalty is not clear")
            U = U[:, ev < ev[-1] * 1e-9]
            S[np.ix_(cols, cols)] += lam0 * U @ U.T
    return S


def capture():
    """Record what the sampler hands to the compiled kernel."""
    import mssm.src.python.mcmc as Mo
    import mcmc
    seen = {}

    class Fake:
        find_reasonable_epsilon = staticmethod(mcmc.find_reasonable_epsilon)

        @staticmethod
        def advance_chain(*a):
            seen.setdefault("args", a)
            return mcmc.advance_chain(*a)
    return Mo, Fake, seen


def run(model, **k):
    from mssm.src.python.mcmc import sample_mssm
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return sample_mssm(model, progress_bar=False, auto_converge=False, **k)


def density(kind, c, model, forms, llk, n_extra, opt, lam_div):
    """log joint density as a function of (coefficients, extra parameters, rho)"""
    p = len(np.asarray(model.coef).ravel())
    P = p + n_extra
    pens = model.overall_penalties
    Sj = []
    for q in pens:
        D = np.zeros((P, P))
        d = dense(q.S_J_emb)
        D[:d.shape[0], :d.shape[0]] = d
        Sj.append(D)
    Sf = np.zeros((P, P))
    if opt["proper"]:
        pl = None
        for F, td, o0 in forms:
            Sf += null_ridge(C23.layout(F, td), [type("Q", (), {"S_J_emb": D}) for D in Sj], P, opt["lam0"], o0)
        ex = opt["extra_pen"]
        for i, e in enumerate(ex):
            Sf[P - len(ex) + i, P - len(ex) + i] += e
    lam_fit = np.array([q.lam for q in pens], float) / lam_div

    def f(b, rho=None, prior=None):
        lam = lam_fit if rho is None else np.exp(rho)
        S = sum((l * s for l, s in zip(lam, Sj)), np.zeros((P, P))) + Sf
        v = llk(b) - 0.5 * b @ S @ b
        if rho is not None:
            v += 0.5 * C21.Pen(pens, p, lam).logdet(1.0) + float(prior.logpdf(rho.reshape(1, -1))[0])
        return v
    return f, Sj, Sf, lam_fit


@st.composite
def opts(draw):
    return {"proper": draw(st.booleans()), "lam0": draw(st.sampled_from([1e-4, 0.05, 2.0])), "pt": draw(st.sampled_from([None, None, 0.3, "list"])),
            "rho": draw(st.sampled_from([False, True])), "prior": draw(st.sampled_from(["unif", "cent", "norm"])),
            "chains": draw(st.integers(1, 3)), "n_iter": draw(st.integers(5, 14)), "n_steps": draw(st.integers(1, 6)), "M": draw(st.sampled_from([3, 8, 15])),
            "seed": draw(st.integers(0, 10 ** 6)), "par": draw(st.sampled_from([False] * 5 + [True])), "uncond": draw(st.sampled_from([False, False, True]))}


def clean(c):
    """Terms the statement covers."""
    def bad(t):
        return t["t"] == "irf" or (t["t"] in ("f", "fs") and not t.get("pen", True))
    fs_ = c["forms"] if "forms" in c else [c["terms"]]
    if any(bad(t) for f in fs_ for t in f):
        raise Skip("un-penalised smooth")


def check_model(c, model, forms, llk, n_extra, twopar, theta, kw=None):
    op = c["opt"]
    p = len(np.asarray(model.coef).ravel())
    n_own = n_extra if (twopar or theta) else 0  # sampled separately from the coefficients
    pens = model.overall_penalties
    rho = op["rho"] and len(pens) > 0
    if op["proper"]:
        clean(c)
    if n_own:
        pt = op["lam0"] if op["pt"] is None else (op["pt"] if op["pt"] != "list" else [0.1 * (k + 1) for k in range(n_extra)])
        op_extra = pt if isinstance(pt, list) else [pt] * n_extra
        pt_arg = None if op["pt"] is None else pt
        if theta is False and isinstance(pt, list):
            pt_arg, op_extra = pt[0], [pt[0]]
    else:
        pt_arg, op_extra = None, [op["lam0"]] * (n_extra)
    ext = n_own  # extra columns beyond model.coef
    f, Sj, Sf, lam_fit = density(None, c, model, forms, llk, ext, {"proper": op["proper"], "lam0": op["lam0"], "extra_pen": op_extra}, float(model.scale) if twopar else 1.0)
    prior = None
    if rho:
        from mssm.src.python import utils as U
        prior = {"unif": lambda: U.MVUniformRhoPrior(-20, 20), "cent": lambda: U.CenteredUniformRhoPriors(np.log(lam_fit), -20, 20, 3.0),
                 "norm": lambda: NormalPrior(np.log(lam_fit), 2.0)}[op["prior"]]()
        if np.max(np.abs(np.log(lam_fit))) > 15:
            raise Skip("smoothing parameters at their limit")
    args = dict(n_iter=op["n_iter"], n_steps=op["n_steps"], M_adapt=op["M"], n_chains=op["chains"], make_proper=op["proper"], lambda_0=op["lam0"], phi_theta_lambda_0=pt_arg,
                sample_rho=rho, seed=op["seed"], parallelize_chains=False, init_unconditional=bool(rho and op["uncond"]))
    if rho:
        args["rho_prior"] = prior
    args.update(kw or {})
    before = (np.array(model.coef, copy=True), [q.lam for q in pens], model.scale if twopar else None)
    Mo, Fake, seen = capture()
    real = Mo.mcmc
    Mo.mcmc = Fake
    try:
        res = run(model, **args)
    finally:
        Mo.mcmc = real
    ok(np.array_equal(before[0], model.coef) and before[1] == [q.lam for q in pens] and (not twopar or before[2] == model.scale), "sampling changed the fitted model")
    nc, ni = op["chains"], op["n_iter"]
    shape(res.coefs, (nc, ni, p), "coefficient samples")
    shape(res.lps, (nc, ni, 1), "log densities")
    ok((res.lscales is None) != bool(twopar), "samples of the scale: %r" % (res.lscales is None))
    ok((res.thetas is None) != bool(theta), "samples of theta: %r" % (res.thetas is None))
    ok((res.rhos is None) != bool(rho), "samples of rho: %r" % (res.rhos is None))
    moved = False
    for ch in range(nc):
        for i in range(ni):
            b = [res.coefs[ch, i]]
            if twopar:
                b.append(res.lscales[ch, i])
            if theta:
                b.append(res.thetas[ch, i])
            b = np.concatenate(b)
            w = f(b, res.rhos[ch, i] if rho else None, prior)
            g = res.lps[ch, i, 0]
            ok(np.isfinite(g) or (i == 0 and not np.isfinite(w)), "draw %d of chain %d has log density %r" % (i, ch, g))
            ok(abs(g - w) <= 1e-6 * (1 + abs(w)), "draw %d of chain %d: reported log joint density %r, recomputed %r" % (i, ch, g, w))
        moved |= len(np.unique(res.coefs[ch, :, 0])) > 1
        for ch2 in range(ch):
            ok(not np.array_equal(res.coefs[ch], res.coefs[ch2]), "chains %d and %d are identical" % (ch, ch2))
    # reproducible, and whether chains run in parallel or not
    again = run(model, **dict(args, parallelize_chains=op["par"]))
    for k in ("coefs", "lps", "lscales", "thetas", "rhos"):
        a, b = getattr(res, k), getattr(again, k)
        ok((a is None and b is None) or np.array_equal(a, b), "%s differ between two runs with the same seed%s" % (k, " (serial and parallel)" if op["par"] else ""))
    # gradient and momenta handed to the kernel
    tags = [c["fam"], "rho" if rho else "fixed", "proper" if op["proper"] else "improper"]
    fns = [a for a in seen.get("args", ()) if callable(a)]
    if len(fns) == 3:
        lf, gf, rs = fns
        a = seen["args"]
        r = np.random.default_rng(c["seed"] + 77)
        n_om = ext + p + (len(pens) if rho else 0)
        x = np.concatenate([res.coefs[0, -1]] + ([res.lscales[0, -1]] if twopar else []) + ([res.thetas[0, -1]] if theta else []) + ([res.rhos[0, -1]] if rho else []))
        if np.isfinite(res.lps[0, -1, 0]):
            g = np.asarray(gf(np.asfortranarray(x.reshape(-1, 1)))).ravel()
            shape(g, (n_om,), "gradient")
            for _ in range(3):
                d = r.normal(size=n_om)
                d[p:] *= 0.3
                h = 1e-4

                def ff(t):
                    y = x + t * d
                    return f(y[:p + ext], y[p + ext:] if rho else None, prior)
                v = [ff(t * h) for t in (-2, -1, 1, 2)]
                if not np.all(np.isfinite(v)):
                    break
                num = (v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h)
                num2 = (v[2] - v[1]) / (2 * h)
                tol = 3e-5 * (np.abs(g) @ np.abs(d)) + 1e-4 + 10 * abs(num - num2) + 1e-10 * abs(ff(0)) / h
                ok(abs(num - g @ d) <= tol, "directional derivative of the log joint %r, gradient used by the sampler gives %r" % (num, g @ d))
        # momenta have the inverse of the metric as covariance
        iM = [k for k, q in enumerate(a) if isinstance(q, np.ndarray)]
        arrs = [q for q in a if isinstance(q, np.ndarray)]
        if n_om <= 40 and c["seed"] % 3 == 0:
            Mi = metric(a, n_om)
            if Mi is not None:
                n = 2500
                R = np.hstack([np.asarray(rs(int(s))).reshape(-1, 1) for s in range(n)])
                ev, U = np.linalg.eigh(Mi)
                ok(ev[0] > -1e-9 * ev[-1], "metric is not positive definite")
                W = (U * np.sqrt(np.maximum(ev, 0))).T @ R
                K = W @ W.T / n
                dev = np.abs(K - np.eye(n_om)) / np.where(np.eye(n_om) > 0, np.sqrt(2 / n), np.sqrt(1 / n))
                ok(dev.max() < 7.5, "covariance of the momenta is not the inverse of the metric (%.1f standard errors)" % dev.max())
                tags.append("momenta")
    return {"nt": bool(moved), "tags": tags}


def metric(a, n):
    """The matrix among the positional arguments (rows, cols, nnz, data, indptr, indices)."""
    for k in range(len(a) - 5):
        if all(isinstance(q, (int, np.integer)) for q in a[k:k + 3]) and a[k] == n and a[k + 1] == n and all(isinstance(q, np.ndarray) for q in a[k + 3:k + 6]):
            d, ip, ix = a[k + 3:k + 6]
            if len(ip) == n + 1 and len(d) == len(ix):
                return scp.sparse.csc_array((d, ix, ip), shape=(n, n)).toarray()
    return None


@st.composite
def gcase(draw):
    c = draw(C21.gcase(off=False, n=(50, 110)))
    c["opt"] = draw(opts())
    return c


def c_gamm(c):
    if not mfit.capped(c, 40):
        raise Skip("too many columns")
    model, df = mfit.mk_gamm(c)
    C11.fit(c, model, df)
    if model.info.iter >= (40 if c["fam"] == "scat" else 200):
        raise Skip("not converged")
    o = mfit.Oracle(model, c, df)
    if o.cond > 1e9 or len(o.drop):
        raise Skip("penalised Hessian numerically singular")
    if np.max(np.abs(o.eta)) > 15 and mfit.LINKS[c["fam"]] != "id":
        raise Skip("separated or overflowing data")
    two = model.family.twopar
    th = c["fam"] == "scat"
    nx = 1 if two else (2 if th else 0)

    def llk(b):
        eta = o.X @ b[:o.p]
        if two:
            return mfit.loglik(c["fam"], o.y, mfit.inv(c["fam"], eta), float(np.exp(b[o.p])))
        return mfit.loglik(c["fam"], o.y, mfit.inv(c["fam"], eta), 1.0, b[o.p:] if th else None)
    return check_model(c, model, [(model.formulas[0], c["terms"], 0)], llk, nx, two, th)


@st.composite
def lcase(draw):
    c = draw(mls.mcase(["gau", "gau", "gam", "mul2", "mul3", "mg1", "mg2", "cox", "w:gau", "x:gauss"], n=(60, 130)))
    c["fit"] = {"n_cores": 1}
    c["frozen"] = draw(st.sampled_from([None, [-1, 2]]))
    c["opt"] = draw(opts())
    return c


@st.composite
def ncase(draw):
    """Several formulas whose smooth terms do and do not have a null-space penalty of their own."""
    c = draw(mls.mcase(["gau", "mul2", "mg2", "w:gau"], n=(90, 120)))
    for k in range(len(c["forms"])):
        c["forms"][k] = [{"t": "i"}] + [{"t": "f", "v": [v], "nk": 4, "con": "QR", "m": [2], "rp": draw(st.sampled_from([0, 1])), "null": draw(st.booleans()), "deg": 3}
                                        for v in draw(st.permutations(["x0", "x1", "x2"]))[:draw(st.integers(1, 2))]]
    c["fit"] = {"n_cores": 1}
    c["frozen"] = [-1, 2]
    c["opt"] = dict(draw(opts()), proper=True, rho=False, lam0=2.0, n_iter=4, chains=1)
    return c


def c_ls(c):
    num = c["fam"].startswith("x:")
    if mls.ncol(c) > (10 if num else 36):
        raise Skip("too many columns")
    if num:
        c = dict(c, fit=dict(c["fit"], max_outer=20, max_inner=40))
    model, df = mls.mk(c)
    C13.fit(c, model)
    if model.info.dropped is not None and len(model.info.dropped):
        raise Skip("coefficients dropped")
    if model.info.eps > 0 or not np.all(np.isfinite(model.coef)):
        raise Skip("penalised Hessian indefinite")
    R = mls.Ref(c, model, df)
    A = dense(model.lvi)
    if np.linalg.cond(A) > 1e6:
        raise Skip("penalised Hessian numerically singular")
    at = 0
    forms = []
    for F, f in zip(model.formulas, c["forms"]):
        forms.append((F, f, at))
        at += int(F.n_coef)
    return check_model(c, model, forms, R.llk, R.extra, False, False)


# ------------------------------------------------------------------ moments of complete runs
@st.composite
def mcase(draw):
    c = draw(C21.gcase(fams=["gauss"], off=False, n=(40, 80), maxt=1))
    c["frozen"] = [-1, 2]
    c["opt"] = {"seed": draw(st.integers(0, 10 ** 6)), "proper": draw(st.booleans()), "lam0": draw(st.sampled_from([1e-4, 0.5]))}
    return c


def c_mom(c):
    if not mfit.capped(c, 16):
        raise Skip("too many columns")
    clean(c)
    model, df = mfit.mk_gamm(c)
    C11.fit(c, model, df)
    o = mfit.Oracle(model, c, df)
    if o.cond > 1e8 or len(o.drop):
        raise Skip("penalised Hessian numerically singular")
    op = c["opt"]
    phi = float(model.scale)
    f, Sj, Sf, lam = density(None, c, model, [(model.formulas[0], c["terms"], 0)], lambda b: 0.0, 1,
                             {"proper": op["proper"], "lam0": op["lam0"], "extra_pen": [op["lam0"]]}, phi)
    p = o.p
    S = sum((l * s for l, s in zip(lam, Sj)), np.zeros((p + 1, p + 1))) + Sf
    lx = S[p, p]
    S = S[:p, :p]
    G, g, yy, n = o.X.T @ o.X, o.X.T @ o.y, o.y @ o.y, o.n
    grid = np.log(phi) + np.linspace(-3, 3, 1201)
    lw = np.zeros(len(grid))
    E = np.zeros((len(grid), p))
    D = np.zeros((len(grid), p))
    for k, s in enumerate(grid):
        A = G / np.exp(s) + S
        m = np.linalg.solve(A, g / np.exp(s))
        E[k], D[k] = m, np.diag(np.linalg.inv(A))
        lw[k] = -n / 2 * s - 0.5 * (yy / np.exp(s) - m @ A @ m) - 0.5 * np.linalg.slogdet(A)[1] - 0.5 * lx * s ** 2
    w = np.exp(lw - lw.max())
    w /= w.sum()
    if w[0] > 1e-9 or w[-1] > 1e-9:
        raise Skip("posterior of the scale too wide for the grid")
    mean = w @ E
    sd = np.sqrt(w @ (D + E ** 2) - mean ** 2)
    ms = w @ grid
    ss_ = np.sqrt(w @ grid ** 2 - ms ** 2)
    mean, sd = np.append(mean, ms), np.append(sd, ss_)
    K, N = 4, c.get("N", 350)
    res = run(model, n_iter=N, n_steps=50, M_adapt=150, n_chains=K, parallelize_chains=False, make_proper=op["proper"], lambda_0=op["lam0"], seed=op["seed"])
    Z = (np.concatenate([res.coefs, res.lscales], axis=2) - mean) / sd
    # batch means over 4 chains x 5 batches, after discarding a fifth
    Z = Z[:, N // 5:]
    Bn = Z.shape[1] // 5
    bm = np.array([Z[ch, k * Bn:(k + 1) * Bn].mean(axis=0) for ch in range(K) for k in range(5)])
    se = np.maximum(bm.std(axis=0, ddof=1) / np.sqrt(len(bm)), 1.2 / np.sqrt(Z.shape[0] * Z.shape[1]))
    t = np.abs(Z.mean(axis=(0, 1))) / se
    ok(t.max() < 9, "mean of the draws of parameter %d is %.2f posterior standard deviations off (%.1f standard errors)" % (t.argmax(), Z.mean(axis=(0, 1))[t.argmax()], t.max()))
    v = np.sqrt((Z ** 2).mean(axis=(0, 1)))
    slow = se * np.sqrt(Z.shape[0] * Z.shape[1])
    lim = 1 + 0.25 * np.maximum(1, slow)
    ok(np.all(v < lim) and np.all(v > 1 / lim), "posterior standard deviations of the draws relative to the exact ones: %r" % [round(float(q), 2) for q in v])
    return {"nt": True}


def _known(kind):
    def f():
        c = {"n": 60, "seed": 4, "nA": 2, "nB": 2, "series": 3, "index": False, "terms": [{"t": "i"}, {"t": "l", "v": ["w"]}], "fam": "gauss", "na": 0, "na_cols": [], "sid": kind == "ar1",
             "off": "num" if kind == "offset" else None, "amp": 0.6}
        model, df = mfit.mk_gamm(c)
        kw = {"offset": 0.4} if kind == "offset" else {"rho": 0.5}
        model.fit(progress_bar=False, **kw)
        o = mfit.Oracle(model, c, df, rho=0.5 if kind == "ar1" else None)
        res = run(model, n_iter=4, M_adapt=3, n_chains=1, n_steps=2, seed=1, make_proper=False)
        b, ls = res.coefs[0, -1], float(res.lscales[0, -1, 0])
        eta = o.X @ b
        if kind == "offset":
            w = mfit.loglik("gauss", o.y, eta + 0.4, np.exp(ls))
        else:
            L = mfit.ar_root(model.formulas[0], df, np.asarray(model.formulas[0].NOT_NA_flat).ravel().astype(bool), 0.5)
            L = dense(L)
            r = L @ (o.y - eta)
            w = float(np.sum(ss.norm.logpdf(r, 0, np.sqrt(np.exp(ls))))) + np.linalg.slogdet(L)[1]
        return abs(res.lps[0, -1, 0] - w) > 1e-6 * (1 + abs(w))
    return f


KNOWN = [Known("sampler_offset", "sample_mssm: the offset of a GAMM is ignored by the sampled log density", _known("offset")),
         Known("sampler_ar1", "sample_mssm: the residual auto-correlation (rho) of a GAMM is ignored by the sampled log density", _known("ar1"))]

SUBS = [
    Sub("invariance", kcase(), c_inv, 96, 1500),
    Sub("forget", kcase(), c_forget, 16, 200),
    Sub("epsilon", ecase(), c_eps, 600, 20000),
    Sub("accept", kcase(), c_acc, 600, 20000),
    Sub("onestep", kcase(), c_one, 64, 1200),
    Sub("undefined", ucase(), c_undef, 160, 3000),
    Sub("prior", pcase(), c_prior, 300, 6000),
    Sub("gamm", gcase(), c_gamm, 90, 1500),
    Sub("ls", lcase(), c_ls, 60, 1000),
    Sub("nullmix", ncase(), c_ls, 40, 500),
    Sub("moments", mcase(), c_mom, 8, 120),
]
