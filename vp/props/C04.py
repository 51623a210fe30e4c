"""C04 General smooth families: likelihood, gradient, Hessian and derived quantities are consistent."""
import numpy as np
import scipy as scp
from hypothesis import strategies as st
from vp.core import Sub
from vp.util import rng, close, ok, shape, SEED, fd_grad, fd_jac, dense
from mssm.src.python.exp_fam import (Identity, LOG, Logit, LOGb, Gaussian, Gamma, InvGauss, Binomial, Poisson, ScaledT,
                                     GAUMLSS, GAMMALS, MULNOMLSS, PropHaz, MultiGauss, GSMMFamily)
from mssm.src.python.utils import GAMLSSGSMMFamily
from vp.props import C02 as E, C03 as L

PROPERTY = "C04"
RULE = ("A case is a general-smooth-model family (Cox proportional hazards with ties and censoring, multivariate Gaussian "
        "with 1..4 signals and shared/own matrices, a GAMLSS or exponential family wrapped as a GSMM, or a user-defined "
        "family that only supplies llk), a random sparse design and a coefficient vector; non-trivial = more than one "
        "coefficient (and, for Cox, at least one event and one censored row).")
ASSUME = ["Cox: ut is decreasing, r indexes ut, survival is asked at observed times, as the class documents.",
          "GAMLSS families wrapped as GSMM report the expected Hessian, so it is compared with the information identity "
          "only through C03; here gradient is compared with differences of llk, and exact Hessians where documented."]


def spX(r, n, p, dens):
    X = r.normal(size=(n, p))
    X[r.random((n, p)) > dens] = 0
    X[:, 0] = 1
    return X


# ---------------------------------------------------------------- Cox
COX = st.fixed_dictionaries({
    "n": st.one_of(st.integers(2, 40), st.integers(2, 40), st.sampled_from([130, 300])), "p": st.integers(1, 5), "times": st.one_of(st.integers(1, 20), st.integers(1, 20), st.sampled_from([60, 250])), "pev": st.sampled_from([0.2, 0.6, 1.0]),
    "dens": st.sampled_from([0.5, 1.0]), "scale": st.sampled_from([0.1, 0.7, 2.0]), "sort": st.booleans(), "seed": SEED})


def cox_setup(case):
    r = rng(case)
    n, p = case["n"], case["p"]
    t = r.integers(1, case["times"] + 1, size=n)
    if case["sort"]:
        t = np.sort(t)[::-1]
    u, inv = np.unique(t, return_inverse=True)
    ut = np.flip(u)
    ri = np.abs(inv - max(inv))
    delta = (r.random((n, 1)) < case["pev"]).astype(int)
    X = spX(r, n, p, case["dens"])
    coef = r.normal(size=(p, 1)) * case["scale"]
    return r, t, ut, ri, delta, X, coef


def cox_llk(t, delta, X, coef):
    eta = (X @ coef.reshape(-1, 1)).ravel()
    d = delta.ravel()
    out = 0.0
    for i in range(len(t)):
        if d[i]:
            e = eta[t >= t[i]]
            m = e.max()
            out += eta[i] - m - np.log(np.sum(np.exp(e - m)))
    return out


def cox_H(t, delta, X, coef, times):
    g = np.exp(X @ coef.reshape(-1, 1)).ravel()
    d = delta.ravel()
    return np.array([sum(1.0 / g[t >= t[i]].sum() for i in range(len(t)) if d[i] and t[i] <= s) for s in times])


def check_cox(case):
    r, t, ut, ri, delta, X, coef = cox_setup(case)
    F = PropHaz(ut, ri)
    Xs = [scp.sparse.csc_array(X)]
    ys = [delta]
    f = lambda c: cox_llk(t, delta, X, c)
    want = f(coef)
    close(F.llk(coef, None, ys, Xs), want, 1e-9, 1e-9 * (1 + delta.sum() * (1 + np.abs(X @ coef).max())), "Cox partial log-likelihood")
    g, e = fd_grad(f, coef, h=1e-2)
    sc = 1 + np.abs(X).sum()
    close(F.gradient(coef, None, ys, Xs), g.reshape(-1, 1), 1e-6, (50 * e + 1e-9 * sc).reshape(-1, 1), "Cox gradient")
    # Hessian from its definition: minus the event-weighted covariance of x in each risk set
    Hw = np.zeros((X.shape[1],) * 2)
    w = np.exp(X @ coef).ravel()
    for i in range(len(t)):
        if delta[i, 0]:
            at = t >= t[i]
            ww = w[at] / w[at].sum()
            xm = ww @ X[at]
            Hw -= (X[at] * ww[:, None]).T @ X[at] - np.outer(xm, xm)
    close(F.hessian(coef, None, ys, Xs), Hw, 1e-7, 1e-9 * (1 + (np.abs(X)**2).sum()), "Cox Hessian")
    return {"nt": case["p"] > 1 and 0 < delta.sum() < len(delta), "tags": ["ties" if len(ut) < len(t) else "noties", "sorted" if case["sort"] else "unsorted"]}


def check_cox_pred(case):
    """Baseline hazard, survival, its standard error and residuals - also after the same family object was asked about
    other coefficients."""
    r, t, ut, ri, delta, X, coef = cox_setup(case)
    F = PropHaz(ut, ri)
    Xs = [scp.sparse.csc_array(X)]
    coefs = [coef, r.normal(size=coef.shape) * case["scale"]]
    A = r.normal(size=(len(coef), len(coef)))
    V = A @ A.T
    for it, c in enumerate(coefs):
        H = cox_H(t, delta, X, c, ut)
        got = F.get_baseline_hazard(c, delta, Xs)
        close(np.asarray(got), H, 1e-8, 1e-12, "cumulative baseline hazard (call %d on the same family)" % it)
        k = int(r.integers(1, 4))
        x = r.normal(size=(k, len(c))) * 0.5
        xx = scp.sparse.csc_array(x) if r.random() < 0.5 else x
        j = int(r.integers(0, len(ut)))
        S, SE = F.get_survival(c, Xs, delta, ut[j], xx, scp.sparse.csc_array(V), True)
        eta = x @ c
        wS = np.exp(-H[j] * np.exp(eta))
        close(np.asarray(S).reshape(-1, 1), wS, 1e-8, 1e-12, "survival")
        ok(np.all((np.asarray(S) >= 0) & (np.asarray(S) <= 1)), "survival outside [0,1]")
        # delta-method standard error: d(H(b) e^{xb})/db by differences, plus the Poisson part of H
        g = np.exp(X @ c).ravel()
        q = sum(1.0 / g[t >= t[i]].sum()**2 for i in range(len(t)) if delta[i, 0] and t[i] <= ut[j])
        for row in range(k):
            dv, ev = fd_grad(lambda b: np.log(max(cox_H(t, delta, X, b, [ut[j]])[0], 1e-300)) + x[row] @ b, c.ravel(), h=1e-2)
            if H[j] == 0:
                dv = np.zeros_like(dv)
            v = dv * H[j]
            wSE = np.exp(eta[row, 0]) * wS[row, 0] * np.sqrt(q + v @ V @ v)
            close(np.asarray(SE).reshape(-1, 1)[row, 0], wSE, 1e-5, 1e-8, "standard error of the survival function")
        S2, none = F.get_survival(c, Xs, delta, ut[j], x, None, compute_var=False)
        ok(none is None, "compute_var=False returned a variance")
        close(np.asarray(S2).reshape(-1, 1), wS, 1e-8, 1e-12, "survival (compute_var=False)")
        # residuals
        Hrow = cox_H(t, delta, X, c, t)
        m = delta.ravel() - Hrow * g
        close(F.get_resid(c, None, [delta], Xs).ravel(), m, 1e-7, 1e-9, "martingale residuals")
        hz = np.maximum(Hrow * g, np.finfo(float).eps)
        D = np.sign(m) * np.sqrt(np.maximum(-2 * (m + delta.ravel() * np.log(hz)), 0))
        perm = r.permutation(len(t))
        close(F.get_resid(c, None, [delta], Xs, resid_type="Deviance", reorder=perm).ravel(), D[perm], 1e-6, (2e-6 + 2e-15 / hz)[perm], "deviance residuals")
        close(F.llk(c, None, [delta], Xs), cox_llk(t, delta, X, c), 1e-8, 1e-8 * (1 + np.abs(X @ c).sum()), "llk after predictions")
    return {"nt": case["p"] > 1 and 0 < delta.sum() < len(delta), "tags": ["ev%.1f" % case["pev"]]}


# ---------------------------------------------------------------- MultiGauss
MG = st.fixed_dictionaries({
    "m": st.integers(1, 4), "n": st.one_of(st.integers(2, 12), st.integers(2, 12), st.sampled_from([80])), "p": st.integers(1, 3), "share": st.booleans(),
    "link": st.sampled_from(["id", "id", "log"]), "scale": st.sampled_from([0.3, 1.0]), "seed": SEED})


def mg_setup(case):
    r = rng(case)
    m, n = case["m"], case["n"]
    ps = [case["p"]] + [case["p"] if case["share"] else int(r.integers(1, 4)) for _ in range(m - 1)]
    Xd = [spX(r, n, p, 0.7) * (0.3 if case["link"] == "log" else 1) for p in ps]
    Xs = [scp.sparse.csc_array(x) for x in Xd]
    if case["share"]:
        Xd = [Xd[0]] * m
        Xs = [Xs[0]] + [None] * (m - 1)
    nth = m * (m + 1) // 2
    coef = r.normal(size=(sum(ps) + nth, 1)) * case["scale"] * 0.5
    split = list(np.cumsum(ps))
    links = [LOG() if (case["link"] == "log" and i == 0) else Identity() for i in range(m)]
    Y = r.normal(size=(n, m))
    return r, m, n, ps, Xd, Xs, coef, split, links, Y


def mg_parts(case, m, Xd, split, c):
    sp = np.split(c.reshape(-1, 1), split)
    mu = np.concatenate([Xd[i] @ sp[i] for i in range(m)], axis=1)
    if case["link"] == "log":
        mu[:, 0] = np.exp(mu[:, 0])
    th = sp[-1].ravel()
    R = np.zeros((m, m))
    R[np.triu_indices(m)] = th
    R[np.diag_indices(m)] = np.exp(np.diag(R))
    return mu, R, th


def mg_llk(case, m, Xd, split, Y, c):
    mu, R, th = mg_parts(case, m, Xd, split, c)
    cov = np.linalg.inv(R.T @ R)
    e = Y - mu
    _, ld = np.linalg.slogdet(cov)
    return -0.5 * np.sum(e @ np.linalg.inv(cov) * e) - 0.5 * len(Y) * ld


def check_mg(case):
    r, m, n, ps, Xd, Xs, coef, split, links, Y = mg_setup(case)
    F = MultiGauss(m, links)
    ok(F.extra_coef == m * (m + 1) // 2, "extra_coef")
    ys = [Y[:, [i]] for i in range(m)]
    f = lambda c: mg_llk(case, m, Xd, split, Y, c)
    want = f(coef)
    close(F.llk(coef, split, ys, Xs), want, 1e-9, 1e-8 * (1 + abs(want)), "MultiGauss llk (up to the 2 pi constant)")
    g, e = fd_grad(f, coef, h=1e-3)
    sc = 1 + np.abs(g).max() + abs(want)
    close(F.gradient(coef, split, ys, Xs), g.reshape(-1, 1), 1e-6, (50 * e + 1e-8 * sc).reshape(-1, 1), "MultiGauss gradient")
    J, EJ = fd_jac(lambda c: F.gradient(c.reshape(-1, 1), split, ys, Xs), coef, h=1e-3)
    H = dense(F.hessian(coef, split, ys, Xs))
    close(H, J, 1e-5, 50 * EJ + 1e-7 * sc, "MultiGauss Hessian")
    close(H, H.T, 1e-10, 1e-10 * sc, "MultiGauss Hessian symmetric")
    mu, R, th = mg_parts(case, m, Xd, split, coef)
    gm, gt = F.predict(coef, split, Xs)
    close(gm, mu, 1e-10, 1e-12, "MultiGauss predicted means")
    close(gt, th, 0, 0, "MultiGauss theta")
    Rg, ld = F.getR(gt)
    close(Rg, R, 1e-12, 0, "MultiGauss R")
    close(ld, np.log(np.diag(R)).sum(), 1e-9, 1e-12, "MultiGauss logdet")
    res = F.get_resid(coef, split, ys, Xs)
    close(res, (Y - mu) @ R.T, 1e-9, 1e-10, "MultiGauss residuals")
    k = int(r.integers(0, m))
    close(F.get_resid(coef, split, ys, Xs, mean=k), ((Y - mu) @ R.T)[:, [k]], 1e-9, 1e-10, "MultiGauss residuals of one mean")
    return {"nt": m > 1, "tags": ["m%d" % m, "shared" if case["share"] else "own", case["link"]]}


def check_mg_rvs(case):
    r, m, n, ps, Xd, Xs, coef, split, links, Y = mg_setup(case)
    F = MultiGauss(m, links)
    mu, R, th = mg_parts(case, m, Xd, split, coef)
    mu = mu[:2]
    size = 1500
    seed = int(r.integers(0, 2**31 - 1))
    s = F.rvs(mu, th, size=size, seed=seed)
    shape(s, (size, m, len(mu)), "MultiGauss rvs")
    ok(np.array_equal(s, F.rvs(mu, th, size=size, seed=seed)), "MultiGauss rvs not reproducible")
    for i in range(len(mu)):
        z = (s[:, :, i] - mu[i]) @ R.T    # standard normal, independent
        ok(np.max(np.abs(z.mean(axis=0))) < 7 / np.sqrt(size), "MultiGauss rvs: mean of whitened draws %r" % z.mean(axis=0))
        C = z.T @ z / size
        ok(np.max(np.abs(C - np.eye(m))) < 10 / np.sqrt(size), "MultiGauss rvs: covariance of whitened draws %r" % C)
    return {"nt": m > 1}


# ---------------------------------------------------------------- wrapped families
@st.composite
def wrapped(draw):
    kind = draw(st.sampled_from(["gamlss", "exp"]))
    c = draw(L.cases() if kind == "gamlss" else E.cases())
    c["kind"] = kind
    c["p"] = draw(st.integers(1, 3))
    c["n"] = max(3, c["n"])
    return c


def check_wrapped(case):
    if case["kind"] == "gamlss":
        r, F, mus, y = L.setup(case)
        n, P = len(y), len(mus)
        Xd = [spX(r, n, case["p"], 0.8) * 0.5 for _ in range(P)]
        ps = [case["p"]] * P
        coef = r.normal(size=(sum(ps), 1)) * 0.5
        split = list(np.cumsum(ps)[:-1])
        W = GAMLSSGSMMFamily(P, F)
        ys = [y] + [None] * (P - 1)
        Xs = [scp.sparse.csc_array(x) for x in Xd]

        def mu_of(c):
            sp = np.split(c.reshape(-1, 1), split)
            out = []
            for i in range(P):
                eta = Xd[i] @ sp[i]
                if case["fam"] == "gau" and i == 0:
                    out.append(eta)
                elif case["fam"] == "mul" or (case["fam"] == "gam" and i == 0):
                    out.append(np.exp(eta))
                else:
                    out.append(np.exp(eta) + 0.0001)
            return out
        f = lambda c: float(np.sum(L.ref_lp(case["fam"], y, mu_of(c))))
        tag = case["fam"]
    else:
        r, F, link, y, mu, scale, N, theta = E.setup(case)
        n = len(y)
        p = case["p"]
        X = spX(r, n, p, 0.8) * 0.3
        fam, ln = case["fam"], case["link"]
        if ln in ("id", "logb") and fam not in ("gaussian", "scaledt"):
            X = np.abs(X)
            beta = np.abs(r.normal(size=(p, 1))) * 0.5 + (3.0 if ln == "id" else 0.2)
        elif ln == "log" and fam == "binomial":
            X = np.abs(X)
            beta = -np.abs(r.normal(size=(p, 1))) - 0.5
        else:
            beta = r.normal(size=(p, 1)) * 0.5
        X[:, 0] = 1
        W = GAMLSSGSMMFamily(1, F)
        extra = {"gaussian": 1, "gamma": 1, "invgauss": 1, "scaledt": 2}.get(fam, 0)
        ok((W.extra_coef or 0) == extra, "extra_coef of wrapped %s" % fam)
        if fam == "scaledt":
            coef = np.concatenate([beta, theta])
        elif extra:
            coef = np.concatenate([beta, [[case["scale"] / 2]]])
        else:
            coef = beta
        ys, Xs, split = [y], [scp.sparse.csc_array(X)], None
        inv = {"id": lambda e: e, "log": np.exp, "logit": lambda e: 1 / (1 + np.exp(-e)), "logb": lambda e: np.exp(e) - 0.3}[ln]

        def f(c):
            c = np.asarray(c).reshape(-1, 1)
            m = inv(X @ c[:p])
            s = np.exp(c[p, 0]) if extra == 1 else 1.0
            return float(np.sum(E.ref_lp(fam, y, m, s, N, c[p:] if extra == 2 else None, case["min_df"])))
        tag = fam + "/" + ln
    want = f(coef)
    if not np.isfinite(want):
        return {"nt": False, "tags": ["nonfinite"]}
    got = W.llk(coef, split, ys, Xs)
    sc = 1 + abs(want)
    close(got, want, 1e-8, 1e-8 * sc, "%s wrapped llk" % tag)
    g, e = fd_grad(f, coef, h=1e-3)
    gs = 1 + np.abs(g).max() + abs(want)
    close(W.gradient(coef, split, ys, Xs), g.reshape(-1, 1), 1e-4, (50 * e + 3e-6 * gs).reshape(-1, 1), "%s wrapped gradient" % tag)
    if case["kind"] == "exp" and case["fam"] in ("poisson", "binomial"):
        # the generic Hessian differentiates the analytic gradient numerically (with coarse initial steps, so the
        # sharply peaked t-likelihood is left to the gradient comparison)
        J, EJ = fd_jac(lambda c: W.gradient(c.reshape(-1, 1), split, ys, Xs), coef, h=1e-3)
        close(W.hessian(coef, split, ys, Xs), J, 1e-3, 50 * EJ + 1e-3 * (1 + np.abs(J).max()), "%s wrapped Hessian" % tag)
    if case["kind"] == "gamlss":
        # (expected) Hessian = -sum_i X_i' I_i X_j with the information of C03 in terms of eta
        from mssm.src.python.custom_types import DerivOrder
        H = dense(W.hessian(coef, split, ys, Xs))
        ok(H.shape == (len(coef),) * 2, "wrapped Hessian has shape %s for %d coefficients" % (H.shape, len(coef)))
        close(H, H.T, 1e-9, 1e-9 * (1 + np.abs(H).max()), "wrapped Hessian symmetric")
        m = mu_of(coef)
        P = len(m)
        q = 0
        blocks = np.split(np.arange(len(coef)), split)
        d1 = [F.dpars(y, *m, index=i, order=DerivOrder.d1) for i in range(P)]
        for i in range(P):
            for j in range(i, P):
                if i == j:
                    d = F.dpars(y, *m, index=i, order=DerivOrder.d2)
                else:
                    d = F.dpars(y, *m, index=q, order=DerivOrder.d2m)
                    q += 1
                if case["fam"] != "mul":
                    # chain rule by hand: eta_i -> mu_i with d mu/d eta and d2 mu/d eta2
                    def jac(k):
                        if case["fam"] == "gau" and k == 0:
                            return np.ones_like(y), np.zeros_like(y)
                        e_ = m[k] if (case["fam"] == "gam" and k == 0) else m[k] - 0.0001
                        return e_, e_
                    ji, h2 = jac(i)
                    jj, _ = jac(j)
                    dd = d * ji * jj
                    if i == j:
                        dd = dd + d1[i] * h2
                    d = dd
                blk = Xd[i].T @ (d * Xd[j])
                close(H[np.ix_(blocks[i], blocks[j])], blk, 1e-6, 1e-7 * (1 + np.abs(blk).max()),
                      "%s wrapped Hessian block (%d,%d)" % (tag, i, j))
        res = W.get_resid(coef, split, ys, Xs)
        close(res, F.get_resid(y, *m), 1e-9, 1e-10, "wrapped residuals")
    else:
        res = W.get_resid(coef, split, ys, Xs)
        m = inv(X @ coef[:p])
        D = F.D(y, m, **({"theta": coef[p:]} if extra == 2 else {}))
        close(res, np.sign(y - m) * np.sqrt(np.maximum(D, 0)), 1e-7, 1e-7, "wrapped residuals")
    return {"nt": len(coef) > 1, "tags": [tag]}


# ---------------------------------------------------------------- user family: only llk given
class Quad(GSMMFamily):
    """llk = b'c - 0.5 c'Ac - sum log cosh(c): everything else is the base class' job."""

    def __init__(self, A, b):
        super().__init__(1, [Identity()])
        self.A, self.b = A, b

    def llk(self, coef, split, ys, Xs):
        c = np.asarray(coef).reshape(-1, 1)
        return float((self.b.T @ c - 0.5 * c.T @ self.A @ c)[0, 0] - np.sum(np.log(np.cosh(c))))

    def get_resid(self, *a, **k):
        return None


class QuadG(Quad):
    def gradient(self, coef, split, ys, Xs):
        c = np.asarray(coef).reshape(-1, 1)
        return self.b - self.A @ c - np.tanh(c)


def check_user(case):
    r = rng(case)
    p = case["p"]
    A = r.normal(size=(p, p))
    A = A @ A.T
    if case["sparse"]:
        A = A * (np.abs(np.subtract.outer(np.arange(p), np.arange(p))) < 2)
    b = r.normal(size=(p, 1))
    c = r.normal(size=(p, 1))
    F, G = Quad(A, b), QuadG(A, b)
    g = b - A @ c - np.tanh(c)
    H = -A - np.diag(1 / np.cosh(c.ravel())**2)
    sc = 1 + np.abs(A).max() + np.abs(b).max()
    close(F.gradient(c, None, None, None), g, 1e-3, 1e-3 * sc, "finite-difference gradient of the base class")
    keep = c.copy()
    close(G.hessian(c, None, None, None), H, 1e-3, 1e-3 * sc, "finite-difference Hessian of the base class")
    ok(np.array_equal(keep, c), "hessian modified coef")
    cols = np.sort(r.choice(p, size=int(r.integers(1, p + 1)), replace=False))
    if case["shuffle"]:
        cols = r.permutation(cols)
    J = dense(G.jhessian(cols, c, None, None, None))
    want = np.zeros((p, p))
    want[:, cols] = H[:, cols]
    want[cols, :] = H[cols, :]
    close(J, want, 1e-3, 1e-3 * sc, "partial Hessian: requested columns and their mirror rows, nothing else")
    j = int(r.integers(0, p))
    close(np.asarray(G.jcolhessian(j, c, None, None, None)).ravel(), H[:, j], 1e-3, 1e-3 * sc, "single Hessian column")
    return {"nt": p > 1}


SUBS = [
    Sub("cox", COX, check_cox, 1200, 30000),
    Sub("cox_pred", COX, check_cox_pred, 240, 6000, weight=4),
    Sub("multigauss", MG, check_mg, 500, 12000, weight=3),
    Sub("multigauss_rvs", MG, check_mg_rvs, 100, 2000),
    Sub("wrapped", wrapped(), check_wrapped, 900, 20000, weight=3),
    Sub("user_family", st.fixed_dictionaries({"p": st.integers(1, 6), "sparse": st.booleans(), "shuffle": st.booleans(), "seed": SEED}),
        check_user, 240, 4000, weight=2),
]
