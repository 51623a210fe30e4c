"""Generated (generalised) additive models and the dense oracle for their fits.

The oracle uses the model matrix and penalties of the model (decided independently by C05-C08), reference densities from
scipy and dense linear algebra.
"""
import numpy as np
import scipy.stats as ss
from scipy.special import gammaln
from hypothesis import strategies as st
from vp import fgen
from vp.core import Skip, Violation
from vp.util import SEED, dense, ok, close, close_norm


# ------------------------------------------------------------------ cases
@st.composite
def lin1(draw):
    return {"t": "l", "v": draw(st.sampled_from([["w"], ["w"], ["fA"], ["fB"], ["w", "fA"], ["fA", "fB"]]))}


@st.composite
def sm1(draw):
    """A smooth whose defaults stay close to what users write."""
    d = {"t": "f", "v": [draw(st.sampled_from(fgen.NUM))], "nk": draw(st.integers(5, 10)), "con": "QR",
         "m": [draw(st.sampled_from([1, 2, 2]))], "rp": draw(st.sampled_from([0, 0, 1])), "null": draw(st.booleans()), "deg": 3}
    k = draw(st.sampled_from(["no", "no", "no", "by", "by+id", "cont"]))
    if "by" in k:
        d["by"] = draw(st.sampled_from(["fA", "fB"]))
    if "id" in k:
        d["id"] = 1
    if k == "cont":
        d["by_cont"] = "w"
    return d


@st.composite
def ten1(draw):
    vs = draw(st.permutations(fgen.NUM))[:2]
    return {"t": "f", "v": list(vs), "te": draw(st.booleans()), "nk": [4, 4], "con": "QR", "m": [2],
            "rp": draw(st.sampled_from([0, 2])), "scale_te": True, "null": False, "deg": 3}


@st.composite
def tame(draw, maxt=3, n=(60, 160), irf=False, na=True, sid=None):
    """A formula as a user writes it: intercept plus terms in different covariates (usually identifiable)."""
    terms = [{"t": "i"}]
    pool = [lin1(), sm1(), sm1(), sm1(), ten1(), fgen.fsmooth(), fgen.RI, fgen.rslope()]
    if irf:
        pool.append(fgen.irfterm())
    used = set()
    for _ in range(draw(st.integers(1, maxt))):
        t = draw(draw(st.sampled_from(pool)))
        key = (t["t"] if t["t"] != "irf" else "irf") + "/" + "_".join(sorted(t["v"]))
        lin = set(t["v"]) if t["t"] == "l" else set()
        if key in used or (t["t"] == "fs" and any(u.startswith("fs") for u in used)):
            continue
        if t["t"] == "irf":
            t["pen"] = True
        if t["t"] == "l" and any(u.startswith("l/") for u in used):
            continue
        used.add(key)
        terms.append(t)
    if len(terms) == 1:
        terms.append({"t": "f", "v": ["x0"], "nk": 7, "con": "QR", "m": [2], "rp": 0, "null": False, "deg": 3})
    if draw(st.booleans()):
        terms = terms[1:] + terms[:1]
    c = {"n": draw(st.integers(*n)), "seed": draw(SEED), "nA": draw(st.integers(2, 4)), "nB": draw(st.integers(2, 3)),
         "series": draw(st.integers(1, 5)), "index": draw(st.booleans()), "terms": terms,
         "na": draw(st.sampled_from([0, 0, 0.1])) if na else 0,
         "na_cols": draw(st.lists(st.sampled_from(["y", "x0", "w", "fA"]), min_size=1, max_size=2, unique=True)),
         "sid": draw(st.booleans()) if sid is None else sid}
    c["n"] = max(c["n"], int(1.5 * fgen.ncols(c)) + 30)
    if any(t["t"] == "irf" for t in terms):
        irs = iter(sorted([t for t in terms if t["t"] == "irf"], key=lambda t: t["pen"]))
        c["terms"] = [t if t["t"] != "irf" else next(irs) for t in terms]
        c["sid"] = True
        c["series"] = max(c["series"], c["nB"])
    return c


FAMS = ["gauss", "gauss", "gauss_log", "binom", "binom_n", "gamma", "pois", "invgauss", "scat"]


def family(name, case=None):
    from mssm.src.python import exp_fam as E
    if name == "gauss":
        return E.Gaussian()
    if name == "gauss_log":
        return E.Gaussian(E.LOG())
    if name == "binom":
        return E.Binomial()
    if name == "binom_n":
        return E.Binomial(E.Logit(), n=7)
    if name == "gamma":
        return E.Gamma(E.LOG())
    if name == "pois":
        return E.Poisson()
    if name == "invgauss":
        return E.InvGauss(E.LOG())
    if name == "scat":
        return E.ScaledT()
    raise AssertionError(name)


def signal(df, r, amp):
    """A smooth function of the covariates, and group effects."""
    z0 = (df["x0"].values - 0.5) / 1.5
    z1 = (df["x1"].values - 100) / 20
    z2 = df["x2"].values.astype(float) / 12 - 1
    f = (np.sin(2 * np.nan_to_num(z0) + r.uniform(-1, 1)) + r.normal() * np.nan_to_num(z1) ** 2 + r.normal() * np.nan_to_num(z2)
         + 0.5 * r.normal() * np.nan_to_num(df["w"].values) + 0.5 * r.normal() * np.nan_to_num(z0 * z2))
    for c in ("fA", "fB"):
        e = {k: v for k, v in zip(fgen.LEV[c], r.normal(size=4) * 0.5)}
        f = f + np.array([e.get(v, 0.0) if isinstance(v, str) else 0.0 for v in df[c].values])
    s = np.std(f)
    return amp * (f - np.mean(f)) / (s if s > 0 else 1.0)


def response(name, df, r, amp=0.6, offset=0.0):
    n = len(df)
    eta = signal(df, r, amp) + offset
    if name == "gauss":
        return 3 + 2 * eta + r.normal(size=n) * r.uniform(0.3, 2)
    if name == "gauss_log":
        mu = np.exp(1.0 + 0.5 * eta)
        return np.maximum(mu + 0.2 * r.normal(size=n), 0.05)
    if name == "binom":
        return (r.random(n) < 1 / (1 + np.exp(-eta))).astype(float)
    if name == "binom_n":
        return r.binomial(7, 1 / (1 + np.exp(-eta))) / 7
    if name == "gamma":
        return r.gamma(4.0, np.exp(0.5 + eta) / 4.0)
    if name == "pois":
        return r.poisson(np.exp(0.7 + eta)).astype(float)
    if name == "invgauss":
        return r.wald(np.exp(0.3 + 0.5 * eta), 4.0)
    if name == "scat":
        return 1 + eta + 0.5 * r.standard_t(4, size=n)
    raise AssertionError(name)


def data(case):
    """Data frame with the response of the case's family; missing values as the frame has them."""
    df = fgen.frame(case)
    miss = df["y"].isna().values
    r = np.random.default_rng(case["seed"] + 5)
    y = response(case.get("fam", "gauss"), df, r, case.get("amp", 0.6), offset_vec(case, len(df)) if case.get("off") == "vec" else 0.0)
    df["y"] = np.where(miss, np.nan, y)
    return df


def offset_vec(case, n):
    return np.random.default_rng(case["seed"] + 6).normal(size=n) * 0.3


def offset(case, n):
    """Offset in the documented shapes: float or one entry per row of the data."""
    if case.get("off") == "vec":
        return offset_vec(case, n).reshape(-1, 1)
    if case.get("off") == "num":
        return 0.4
    return None


def capped(case, cap=140):
    return fgen.ncols(case) <= cap


def mk_gamm(case, df=None, **kw):
    from mssm.models import GAMM
    df = data(case) if df is None else df
    F = fgen.mk_formula(case, df, **kw)
    return GAMM(F, family(case.get("fam", "gauss"), case)), df


# ------------------------------------------------------------------ family references
LINKS = {"gauss": "id", "gauss_log": "log", "binom": "logit", "binom_n": "logit", "gamma": "log", "pois": "log", "invgauss": "log", "scat": "id"}


def inv(name, eta):
    k = LINKS[name]
    if k == "id":
        return eta
    if k == "log":
        return np.exp(eta)
    return 1 / (1 + np.exp(-eta))


def dmu(name, eta):
    """d mu / d eta."""
    k = LINKS[name]
    if k == "id":
        return np.ones_like(eta)
    if k == "log":
        return np.exp(eta)
    m = inv(name, eta)
    return m * (1 - m)


def var(name, mu):
    return {"gauss": lambda m: np.ones_like(m), "gauss_log": lambda m: np.ones_like(m), "binom": lambda m: m * (1 - m),
            "binom_n": lambda m: m * (1 - m) / 7, "gamma": lambda m: m ** 2, "pois": lambda m: m, "invgauss": lambda m: m ** 3}[name](mu)


def fixed_scale(name):
    return 1.0 if name in ("binom", "binom_n", "pois", "scat") else None


def loglik(name, y, mu, phi, theta=None):
    if name in ("gauss", "gauss_log"):
        return float(np.sum(ss.norm.logpdf(y, mu, np.sqrt(phi))))
    if name == "binom":
        return float(np.sum(y * np.log(np.where(y > 0, mu, 1)) + (1 - y) * np.log(np.where(y < 1, 1 - mu, 1))))
    if name == "binom_n":
        return float(np.sum(ss.binom.logpmf(np.round(y * 7), 7, mu)))
    if name == "gamma":
        return float(np.sum(ss.gamma.logpdf(y, 1 / phi, scale=mu * phi)))
    if name == "pois":
        return float(np.sum(ss.poisson.logpmf(y, mu)))
    if name == "invgauss":
        lam = 1 / phi
        return float(np.sum(0.5 * np.log(lam / (2 * np.pi * y ** 3)) - lam * (y - mu) ** 2 / (2 * mu ** 2 * y)))
    if name == "scat":
        sig, nu = np.exp(theta[0]), np.exp(theta[1]) + 3
        return float(np.sum(ss.t.logpdf((y - mu) / sig, nu) - np.log(sig)))
    raise AssertionError(name)


def tot_pen(pens, p):
    S = np.zeros((p, p))
    for q in pens:
        S = S + q.lam * dense(q.S_J_emb)
    return S


def score_w(name, y, eta, theta=None):
    """(d loglik*phi / d eta, Fisher weight) per observation."""
    mu = inv(name, eta)
    if name == "scat":
        sig, nu = np.exp(theta[0]), np.exp(theta[1]) + 3
        r = y - mu
        # deviance is -2 log density, so scores are on the log-likelihood scale with phi=1
        return (nu + 1) * r / (nu * sig ** 2 + r ** 2), np.full(len(y), (nu + 1) / (sig ** 2 * (nu + 3)))
    d = dmu(name, eta)
    v = var(name, mu)
    return (y - mu) * d / v, d ** 2 / v


def theta_of(model):
    th = getattr(model.family, "theta", None)
    return None if th is None else np.asarray(th, float).ravel()


class Oracle:
    """Everything a GAMM fit should report, recomputed densely from its coefficients and smoothing parameters."""

    def __init__(self, model, case, df, rho=None):
        name = case.get("fam", "gauss")
        self.name = name
        F = model.formulas[0]
        self.X = dense(model.get_mmat())
        n, p = self.X.shape
        self.n, self.p = n, p
        keep = np.asarray(F.NOT_NA_flat).ravel().astype(bool)
        self.rows = keep
        self.y = df["y"].values[keep].astype(float)
        off = offset(case, len(df))
        self.off = np.zeros(n) if off is None else (np.full(n, off) if np.ndim(off) == 0 else np.asarray(off).ravel()[keep])
        dr = model.info.dropped
        self.drop = np.array([], int) if dr is None else np.asarray(dr, int)
        self.keep = np.setdiff1d(np.arange(p), self.drop)
        self.beta = np.asarray(model.coef, float).ravel()
        self.S = tot_pen(model.overall_penalties, p)
        self.theta = theta_of(model)
        self.eta = self.X @ self.beta + self.off
        self.mu = inv(name, self.eta)
        self.g, self.w = score_w(name, self.y, self.eta, self.theta)
        self.R = np.eye(n) if rho is None else ar_root(F, df, keep, rho)
        k = self.keep
        Xw = self.R @ (np.sqrt(self.w)[:, None] * self.X)
        self.XWX = Xw.T @ Xw
        self.A = self.XWX + self.S
        self.Xw = Xw
        if not np.all(np.isfinite(self.A)):
            raise Skip("overflowing fit")
        if len(k):
            self.cond = np.linalg.cond(self.A[np.ix_(k, k)])
            if not self.cond < 1e11:
                raise Skip("penalised Hessian numerically singular")
            self.V = np.zeros((p, p))
            self.V[np.ix_(k, k)] = np.linalg.inv(self.A[np.ix_(k, k)])
        self.edf = float(np.trace(self.V @ self.XWX))
        # working residuals: sqrt(w) (z - eta) = sqrt(w) * g / w
        self.wres = self.g / np.sqrt(self.w)
        self.ares = self.R @ self.wres
        fs = fixed_scale(name)
        self.phi = fs if fs is not None else float(self.ares @ self.ares / (n - self.edf))
        self.grad = Xw.T @ self.ares - self.S @ self.beta


def ar_root(F, df, keep, rho):
    """Rows whiten the AR(1) correlation within each series of the remaining rows (one series without series id)."""
    n = int(keep.sum())
    s = df["s"].values[keep] if F.series_id is not None else np.zeros(n, int)
    full = df["s"].values if F.series_id is not None else np.zeros(len(df), int)
    blk = np.concatenate([[0], np.cumsum(full[1:] != full[:-1])])[keep]
    R = np.zeros((n, n))
    a = 1 / np.sqrt(1 - rho ** 2)
    for q in range(n):
        if q == 0 or blk[q] != blk[q - 1]:
            R[q, q] = 1.0
        else:
            R[q, q], R[q, q - 1] = a, -rho * a
    return R


def newton_gap(o):
    """Suboptimality of the penalised deviance to second order."""
    k = o.keep
    g = o.grad[k]
    return float(g @ np.linalg.solve(o.A[np.ix_(k, k)], g))


def pen_groups(pens):
    """Indices of penalties whose coefficients overlap, with the coefficients of the group."""
    sup = [np.abs(dense(q.S_J_emb)).sum(axis=0) > 0 for q in pens]
    out = []
    for j in range(len(pens)):
        g, s = {j}, sup[j]
        for G in [x for x in out if np.any(x[1] & s)]:
            g, s = g | G[0], s | G[1]
            out.remove(G)
        out.append((g, s))
    return [(sorted(g), np.where(s)[0]) for g, s in out]


def trSinvS(pens):
    """lambda_j tr(S^- S_j) per penalty (None where smoothing parameters of overlapping penalties differ too much)."""
    res = [None] * len(pens)
    for g, idx in pen_groups(pens):
        if len(idx) == 0:
            continue
        lam = np.array([pens[j].lam for j in g])
        if lam.max() / lam.min() > 1e7:
            continue
        M = [dense(pens[j].S_J_emb)[np.ix_(idx, idx)] for j in g]
        nrm = [np.abs(m).max() for m in M]
        base = sum(m / k for m, k in zip(M, nrm))
        ev, U = np.linalg.eigh(base)
        pos = ev > 1e-9 * ev.max()
        Q = U[:, pos]
        T = np.linalg.inv(sum(l * Q.T @ m @ Q for l, m in zip(lam, M)))
        for j, l, m in zip(g, lam, M):
            res[j] = float(l * np.trace(T @ Q.T @ m @ Q))
    return res
