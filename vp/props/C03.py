"""C03 Distributional families (GAUMLSS, GAMMALS, MULNOMLSS): density, CDF, derivatives, sampling, residuals."""
import numpy as np
import scipy as scp
from scipy.special import gammaln, gammainc, log_ndtr
from hypothesis import strategies as st
from vp.core import Sub
from vp.util import rng, close, ok, shape, SEED, fd_elem
from mssm.src.python.exp_fam import GAUMLSS, GAMMALS, MULNOMLSS, Identity, LOG, LOGb
from mssm.src.python.custom_types import DerivOrder

PROPERTY = "C03"
RULE = ("A case is one of the three location/scale/shape families (MULNOMLSS with 1..5 non-reference categories), "
        "n rows of parameters over several orders of magnitude and responses from the family or from its tails; "
        "non-trivial = at least two rows with different parameters.")
ASSUME = ["GAUMLSS/GAMMALS report *expected* second derivatives for d2/d2m (Fisher scoring), MULNOMLSS exact ones "
          "with respect to the linear predictors; both facts are documented by their docstrings/d_eta."]


@st.composite
def cases(draw):
    return {
        "fam": draw(st.sampled_from(["gau", "gam", "mul"])),
        "k": draw(st.integers(1, 5)),
        "n": draw(st.one_of(st.integers(1, 25), st.integers(1, 25), st.sampled_from([60, 130, 300]))),
        "spread": draw(st.sampled_from([0.2, 1.0, 2.0, 5.0])),
        "tails": draw(st.booleans()),
        "seed": draw(SEED),
    }


def setup(case):
    r = rng(case)
    n = case["n"]
    fam = case["fam"]
    if fam == "gau":
        F = GAUMLSS([Identity(), LOGb(-0.0001)])
        mus = [r.normal(size=(n, 1)) * 3, np.exp(r.normal(size=(n, 1)) * min(case["spread"], 3.0))]
        y = mus[0] + mus[1] * r.normal(size=(n, 1)) * (5 if case["tails"] else 1)
    elif fam == "gam":
        F = GAMMALS([LOG(), LOGb(-0.0001)])
        mus = [np.exp(r.normal(size=(n, 1)) * case["spread"]), np.exp(r.normal(size=(n, 1)) * min(case["spread"], 1.5))]
        y = r.gamma(1 / mus[1], mus[0] * mus[1], size=(n, 1)) + 1e-3
        if case["tails"]:
            y = np.exp(r.normal(size=(n, 1)) * 2)
    else:
        F = MULNOMLSS(case["k"])
        mus = [np.exp(r.normal(size=(n, 1)) * case["spread"]) for _ in range(case["k"])]
        P = mprobs(mus)
        y = np.array([r.choice(case["k"] + 1, p=P[i]) for i in range(n)]).reshape(-1, 1).astype(float)
        if case["tails"]:  # improbable categories too
            y = r.integers(0, case["k"] + 1, size=(n, 1)).astype(float)
    return r, F, mus, y


def mprobs(mus):
    """category 0 is the reference, category i>0 has weight mus[i-1]"""
    W = np.concatenate([np.ones_like(mus[0])] + list(mus), axis=1)
    return W / W.sum(axis=1, keepdims=True)


def ref_lp(fam, y, mus):
    if fam == "gau":
        return -0.5 * np.log(2 * np.pi) - np.log(mus[1]) - 0.5 * ((y - mus[0]) / mus[1])**2
    if fam == "gam":
        a = 1 / mus[1]
        return a * np.log(a / mus[0]) - gammaln(a) + (a - 1) * np.log(y) - a * y / mus[0]
    P = mprobs(mus)
    return np.log(P[np.arange(len(y)), y.astype(int).ravel()]).reshape(-1, 1)


def check_density(case):
    r, F, mus, y = setup(case)
    fam = case["fam"]
    keep = [m.copy() for m in mus] + [y.copy()]
    want = ref_lp(fam, y, mus)
    lp = F.lp(y, *mus)
    shape(lp, y.shape, "lp")
    close(lp, want, 1e-9, 1e-9, "%s lp" % fam)
    close(F.llk(y, *mus), want.sum(), 1e-9, 1e-9 * (np.abs(want).sum() + 1), "%s llk" % fam)
    lcp = F.lcp(y, *mus)
    if fam == "gau":
        close(lcp, log_ndtr((y - mus[0]) / mus[1]), 1e-7, 1e-9, "gaumlss lcp")
    elif fam == "gam":
        close(np.exp(lcp), gammainc(1 / mus[1], y / (mus[0] * mus[1])), 1e-6, 1e-9, "gammals lcp")
    else:
        # cumulative over categories 1,2,...,k with the reference category 0 last
        P = mprobs(mus)
        C = np.concatenate([np.ones((len(y), 1)), np.cumsum(P[:, 1:], axis=1)], axis=1)
        close(np.exp(lcp), C[np.arange(len(y)), y.astype(int).ravel()].reshape(-1, 1), 1e-9, 1e-12, "mulnomlss lcp")
        pr = F.get_probs(*mus)
        close(pr, P, 1e-9, 1e-14, "mulnomlss get_probs")
        close(pr.sum(axis=1), np.ones(len(y)), 0, 1e-9, "mulnomlss probabilities sum to one")
    for a, b in zip(keep, mus + [y]):
        ok(np.array_equal(a, b), "the family modified its arguments")
    return {"nt": case["n"] > 1, "tags": [fam]}


def check_d1(case):
    r, F, mus, y = setup(case)
    fam = case["fam"]
    for i in range(len(mus)):
        def f(m):
            mm = list(mus)
            mm[i] = np.exp(m) if fam == "mul" else m
            return ref_lp(fam, y, mm)
        x = np.log(mus[i]) if fam == "mul" else mus[i]
        h = 1e-2 * (np.ones_like(x) if fam == "mul" else (mus[1] if fam == "gau" else mus[i]))
        g, e = fd_elem(f, x, h=h)
        d1 = F.dpars(y, *mus, index=i, order=DerivOrder.d1)
        shape(d1, y.shape, "dpars d1")
        noise = 1e-12 * (np.abs(ref_lp(fam, y, mus)) + 1) / h
        close(d1, g, 1e-5, 100 * e + 100 * noise, "%s first derivative, parameter %d" % (fam, i))
    return {"nt": case["n"] > 1, "tags": [fam, "k%d" % case["k"] if fam == "mul" else ""]}


def check_d2(case):
    """d2 / d2m: exact Hessian of the log-density for MULNOMLSS (in eta); expectation of it for the other two."""
    r, F, mus, y = setup(case)
    fam = case["fam"]
    n = len(y)
    P = len(mus)
    pairs = [(i, j) for i in range(P) for j in range(i + 1, P)]
    if fam == "mul":
        Pm = mprobs(mus)
        for i in range(P):
            w = -Pm[:, [i + 1]] * (1 - Pm[:, [i + 1]])
            close(F.dpars(y, *mus, index=i, order=DerivOrder.d2), w, 1e-8, 1e-12, "mulnomlss d2 %d" % i)
        for q, (i, j) in enumerate(pairs):
            w = Pm[:, [i + 1]] * Pm[:, [j + 1]]
            close(F.dpars(y, *mus, index=q, order=DerivOrder.d2m), w, 1e-8, 1e-12, "mulnomlss d2m %s" % ((i, j),))
    else:
        # information identity: E[d2 log f] = -E[(d1 log f)^2], by quadrature on the quantile scale;
        # the score is the library's own first derivative (checked separately)
        q = (np.arange(4000) + 0.5) / 4000
        q = np.concatenate([q[:1] * 1e-3, q, 1 - q[:1] * 1e-3])
        for row in range(min(n, 3)):
            m = [np.full((4001, 1), mus[k][row, 0]) for k in range(2)]
            a = 1 / mus[1][row, 0]
            if fam == "gau":
                # Gauss-Hermite: exact for polynomials
                xs, ws = np.polynomial.hermite_e.hermegauss(40)
                yy = (mus[0][row, 0] + mus[1][row, 0] * xs).reshape(-1, 1)
                ws = ws / ws.sum()
            else:
                if a < 0.5:
                    continue
                # gamma quadrature in log space (trapezoid on log y)
                lo, hi = scp.stats.gamma.ppf([1e-14, 1 - 1e-14], a=a)
                u = np.linspace(np.log(max(lo, 1e-30)), np.log(hi), 6001)
                t = np.exp(u)
                ws = np.exp(scp.stats.gamma.logpdf(t, a=a)) * t
                ws = ws / ws.sum()
                yy = (t * mus[0][row, 0] / a).reshape(-1, 1)
            m = [np.full(yy.shape, mus[k][row, 0]) for k in range(2)]
            s = [F.dpars(yy, *m, index=k, order=DerivOrder.d1).ravel() for k in range(2)]
            for k in range(2):
                info = np.sum(ws * s[k]**2)
                got = F.dpars(y, *mus, index=k, order=DerivOrder.d2)
                shape(got, y.shape, "dpars d2")
                close(got[row], np.array([-info]), 1e-4, 1e-9, "%s E[d2], parameter %d" % (fam, k))
            got = F.dpars(y, *mus, index=0, order=DerivOrder.d2m)
            shape(got, y.shape, "dpars d2m")
            sc = np.sqrt(np.sum(ws * s[0]**2) * np.sum(ws * s[1]**2))
            close(got[row], np.array([-np.sum(ws * s[0] * s[1])]), 0, 1e-4 * sc, "%s E[d2m]" % fam)
    return {"nt": case["n"] > 1, "tags": [fam]}


def check_rvs(case):
    """Samples have the right layout, support and distribution, and are a function of the seed."""
    r, F, mus, y = setup(case)
    fam = case["fam"]
    n = min(case["n"], 4)
    mus = [m[:n] for m in mus]
    size = 2000
    seed = int(r.integers(0, 2**31 - 1))
    s = F.rvs(*mus, size=size, seed=seed)
    shape(s, (size, n), "rvs")
    ok(np.array_equal(s, F.rvs(*mus, size=size, seed=seed)), "rvs: not reproducible from its seed")
    if fam == "mul":
        P = mprobs(mus)
        for i in range(n):
            for k in range(P.shape[1]):
                ph = np.mean(s[:, i] == k)
                sd = np.sqrt(P[i, k] * (1 - P[i, k]) / size)
                ok(abs(ph - P[i, k]) < 7 * sd + 5e-3, "mulnomlss rvs: P(%d)=%.4f, sampled %.4f" % (k, P[i, k], ph))
        ok(np.all(np.isin(s, np.arange(P.shape[1]))), "mulnomlss rvs outside its categories")
    else:
        for i in range(n):
            if fam == "gau":
                u = scp.stats.norm.cdf(s[:, i], loc=mus[0][i, 0], scale=mus[1][i, 0])
            else:
                a = 1 / mus[1][i, 0]
                u = scp.stats.gamma.cdf(s[:, i], a=a, scale=mus[0][i, 0] / a)
            u = np.sort(u)
            ks = np.max(np.abs(u - (np.arange(size) + 0.5) / size))
            ok(ks < 3.5 / np.sqrt(size), "%s rvs: KS distance %.4f to its own distribution, row %d" % (fam, ks, i))
    return {"nt": True, "tags": [fam]}


def check_rvs_rows(case):
    """Every row of a long parameter vector is sampled from its own distribution (pooled over blocks of 50 rows)."""
    r, F, mus, y = setup(dict(case, n=max(case["n"], 100), spread=min(case["spread"], 2.0)))
    fam = case["fam"]
    n = len(y)
    size = 10
    s = F.rvs(*mus, size=size, seed=int(r.integers(0, 2**31 - 1)))
    shape(s, (size, n), "rvs")
    for a in range(0, n, 50):
        b = slice(a, min(a + 50, n))
        if fam == "mul":
            P = mprobs(mus)[b]
            lp = np.log(P)
            got = np.sum(np.take_along_axis(np.repeat(lp[None], size, 0), s[:, b].astype(int)[:, :, None], 2))
            want = size * np.sum(P * lp)
            sd = np.sqrt(size * np.sum(np.sum(P * lp**2, axis=1) - np.sum(P * lp, axis=1)**2))
            ok(abs(got - want) < 8 * sd + 12, "mulnomlss rvs: rows %d.. have mean log-density %.2f, expected %.2f (sd %.2f)" % (a, got, want, sd))
        else:
            m0, m1 = mus[0][b, 0], mus[1][b, 0]
            if fam == "gau":
                u = scp.stats.norm.cdf(s[:, b], loc=m0, scale=m1)
            else:
                u = scp.stats.gamma.cdf(s[:, b], a=1 / m1, scale=m0 * m1)
            u = np.sort(u.ravel())
            ks = np.max(np.abs(u - (np.arange(len(u)) + 0.5) / len(u)))
            ok(ks < 3.5 / np.sqrt(len(u)), "%s rvs: rows %d..: KS distance %.4f to their own distributions" % (fam, a, ks))
    return {"nt": True, "tags": [fam]}


def check_resid(case):
    r, F, mus, y = setup(case)
    fam = case["fam"]
    y0 = y.copy()
    if fam == "gau":
        close(F.get_resid(y, *mus), (y - mus[0]) / mus[1], 1e-10, 1e-12, "gaumlss residual")
    elif fam == "gam":
        D = 2 * ((y - mus[0]) / mus[0] - np.log(y / mus[0]))
        close(F.get_resid(y, *mus), np.sign(y - mus[0]) * np.sqrt(np.maximum(D, 0) / mus[1]), 1e-7, 1e-7, "gammals residual")
    else:
        seed = int(r.integers(0, 2**31 - 1))
        res = F.get_resid(y, *mus, seed=seed)
        shape(res, y.shape, "mulnomlss residual")
        ok(np.array_equal(res, F.get_resid(y, *mus, seed=seed)), "mulnomlss residual not reproducible from its seed")
        P = mprobs(mus)
        order = list(range(1, P.shape[1])) + [0]
        C = np.cumsum(P[:, order], axis=1)
        lo = np.concatenate([np.zeros((len(y), 1)), C[:, :-1]], axis=1)
        u = scp.stats.norm.cdf(res.ravel())
        for i in range(len(y)):
            k = order.index(int(y[i, 0]))
            ok(lo[i, k] - 1e-9 <= u[i] <= C[i, k] + 1e-9,
               "mulnomlss quantile residual %.5f outside its category's interval [%.5f, %.5f] (y=%d)" % (u[i], lo[i, k], C[i, k], y[i, 0]))
    ok(np.array_equal(y, y0), "get_resid modified y")
    return {"nt": case["n"] > 1, "tags": [fam]}


def check_mul_uniform(case):
    """Quantile residuals of correctly specified categorical data are standard normal."""
    r = rng(case)
    k = case["k"]
    n = 400
    F = MULNOMLSS(k)
    mus = [np.exp(r.normal(size=(n, 1)) * case["spread"]) for _ in range(k)]
    P = mprobs(mus)
    y = (r.random((n, 1)) > np.cumsum(P, axis=1)).sum(axis=1).reshape(-1, 1).astype(float)
    y = np.minimum(y, k)
    u = np.sort(scp.stats.norm.cdf(F.get_resid(y, *mus, seed=int(r.integers(0, 2**31 - 1))).ravel()))
    ks = np.max(np.abs(u - (np.arange(n) + 0.5) / n))
    ok(ks < 3.2 / np.sqrt(n), "mulnomlss quantile residuals are not uniform on the probability scale: KS %.3f" % ks)
    return {"nt": True, "tags": ["k%d" % k]}


SUBS = [
    Sub("density", cases(), check_density, 2400, 60000),
    Sub("d1", cases(), check_d1, 2000, 50000),
    Sub("d2", cases(), check_d2, 1600, 40000),
    Sub("rvs", cases(), check_rvs, 400, 8000),
    Sub("rvs_rows", cases(), check_rvs_rows, 80, 1600),
    Sub("resid", cases(), check_resid, 1600, 40000),
    Sub("resid_dist", cases(), check_mul_uniform, 80, 1600),
]
