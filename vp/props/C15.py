"""C15: posterior samples have the stated mean and covariance."""
import numpy as np
import scipy.sparse as sp
import scipy.stats as ss
from hypothesis import strategies as st
from vp import fgen, mfit, mls
from vp.core import Sub, Skip
from vp.util import close, ok, dense, shape, SEED
from vp.props import C11, C13

PROPERTY = "C15"
RULE = ("Cases: random precision matrices (dimension 1-12, permuted factors, either root orientation, any scale, coefficient subsets) and fitted GAMM/GAMMLSS/"
        "GSMM models. Oracle: chi-square test of the sample mean and eigenvalue bounds of the whitened sample covariance (4000-20000 draws per case, "
        "false-alarm probability below 1e-9 each), and exact relations between draws of one seed. Non-trivial: dimension > 1.")
ASSUME = ["draws are deterministic given the seed, so a run is reproducible"]


def dist(S, mu, V, what, exact_zero=True):
    """Columns of S are draws from N(mu, V) (V may be singular: components without variance are constant)."""
    p, n = S.shape
    ok(np.all(np.isfinite(S)), what + ": draws are not finite")
    sd = np.sqrt(np.diag(V))
    z = sd == 0
    if np.any(z):
        close(S[z], np.repeat(mu[z, None], n, axis=1), 1e-12, 1e-12, what + ": components without variance")
    k = ~z
    if not np.any(k):
        return
    C = V[np.ix_(k, k)] / np.outer(sd[k], sd[k])
    D = (S[k] - mu[k, None]) / sd[k, None]
    ev, U = np.linalg.eigh(C)
    pos = ev > 1e-8 * ev[-1]
    W = (U[:, pos].T @ D) / np.sqrt(ev[pos])[:, None]
    m = pos.sum()
    if np.any(~pos):
        ok(np.max(np.abs(U[:, ~pos].T @ D)) <= 6e-3 * np.sqrt(ev[-1]) * 6, what + ": variance in directions without any")
    stat = n * float(np.sum(W.mean(axis=1) ** 2))
    pv = ss.chi2.sf(stat, m)
    ok(pv > 1e-10, "%s: mean of %d draws is off (p = %.3g): %r, expected %r" % (what, n, pv, S.mean(axis=1)[:6], mu[:6]))
    G = W @ W.T / n
    e = np.linalg.eigvalsh(G)
    t = np.sqrt(m / n) + 6.8 / np.sqrt(n)
    ok((1 - t) ** 2 <= e[0] and e[-1] <= (1 + t) ** 2, "%s: whitened covariance of %d draws has eigenvalues %.4f .. %.4f, expected within %.4f .. %.4f"
       % (what, n, e[0], e[-1], max(0, 1 - t) ** 2, (1 + t) ** 2))


@st.composite
def mcase(draw):
    return {"p": draw(st.integers(1, 12)), "seed": draw(SEED), "scale": draw(st.sampled_from([1, 1.0, 0.25, 7.3, 1e-4, 250.0])),
            "root": draw(st.sampled_from(["L", "LI", "LI+P", "both", "tall"])), "mu": draw(st.sampled_from(["vec", "zero"])),
            "use": draw(st.sampled_from([None, None, "sub"])), "rs": draw(st.integers(0, 10 ** 6))}


def mvn(c):
    from mssm.src.python.utils import sample_MVN
    r = np.random.default_rng(c["seed"])
    p = c["p"]
    B = r.normal(size=(p + 2, p)) * np.exp(r.normal(size=p))
    A = B.T @ B + 0.05 * np.eye(p) * np.trace(B.T @ B) / p
    perm = r.permutation(p)
    P = np.eye(p)[perm]
    L = np.linalg.cholesky(P @ A @ P.T)
    LI = np.linalg.inv(L)
    mu = r.normal(size=p) * 3
    kw = {"P": None, "L": None, "LI": None}
    root = c["root"]
    if c["use"] and root == "L":
        root = "LI+P"
    if root == "L":
        kw.update(P=sp.csc_array(P), L=sp.csc_array(L))
    elif root == "LI":
        kw.update(LI=sp.csc_array(LI @ P))
    elif root == "LI+P":
        kw.update(P=sp.csc_array(P), LI=sp.csc_array(LI))
    elif root == "tall":
        # any root R with R'R = covariance / scale: more rows than columns
        Q = np.linalg.qr(r.normal(size=(p + 3, p)))[0]
        kw.update(LI=sp.csc_array(Q @ LI @ P))
    else:
        kw.update(L=sp.csc_array(L), LI=sp.csc_array(LI @ P))
    use = sorted(int(v) for v in r.choice(p, size=int(r.integers(1, p + 1)), replace=False)) if c["use"] else None
    V = np.linalg.inv(A) * c["scale"]
    n = 12000
    S = np.asarray(sample_MVN(n, mu if c["mu"] == "vec" else 0, c["scale"], kw["P"], kw["L"], kw["LI"], use=use, seed=c["rs"]))
    k = np.arange(p) if use is None else np.array(use)
    shape(S, (len(k), n), "draws")
    dist(S, mu[k] if c["mu"] == "vec" else np.zeros(len(k)), V[np.ix_(k, k)], "sample_MVN")
    again = np.asarray(sample_MVN(n, mu if c["mu"] == "vec" else 0, c["scale"], kw["P"], kw["L"], kw["LI"], use=use, seed=c["rs"]))
    ok(np.array_equal(S, again), "the same seed gives other draws")
    other = np.asarray(sample_MVN(n, mu if c["mu"] == "vec" else 0, c["scale"], kw["P"], kw["L"], kw["LI"], use=use, seed=c["rs"] + 1))
    ok(not np.array_equal(S, other), "another seed gives the same draws")
    # draws are independent of each other
    D = (S - (mu[k][:, None] if c["mu"] == "vec" else 0)) / np.sqrt(np.diag(V)[k])[:, None]
    for lag in (1, 2, len(k), n // 2):
        a, b = D[:, :-lag], D[:, lag:]
        rho = np.mean(a * b, axis=1) * np.sqrt(a.shape[1])
        ok(np.max(np.abs(rho)) < 7.5, "draws %d apart are correlated" % lag)
    return {"nt": p > 1, "tags": [root, c["mu"]] + (["subset"] if use else [])}


@st.composite
def pcase(draw):
    multi = draw(st.booleans())
    if multi:
        c = draw(mls.mcase(["gau", "gam", "mul2", "mg2", "mg1", "cox"]))
        c["fit"] = {"method": draw(st.sampled_from(["QR/Chol", "Chol"])), "n_cores": 1, "repara": draw(st.booleans()), "control_lambda": 2}
    else:
        c = draw(mfit.tame())
        c["fam"] = draw(st.sampled_from(["gauss", "gauss", "binom", "gamma"]))
        c["off"] = None
        c["fit"] = {"method": draw(st.sampled_from(["QR", "Chol"])), "n_cores": 1}
        c["tight"] = False
    c["multi"] = multi
    c["frozen"] = [-1, 2]
    c["dup"] = draw(st.sampled_from([False, False, True]))
    return c


def model_post(c):
    multi = c["multi"]
    if multi:
        if mls.ncol(c) > 50:
            raise Skip("too many columns")
        if c["dup"]:
            c = C13.add_dup(c)
            c = dict(c, fit=dict(c["fit"], repara=False))
        model, df = mls.mk(c)
        C13.fit(c, model, conv_tol=1e-7)
    else:
        if not mfit.capped(c, 60):
            raise Skip("too many columns")
        if c["dup"]:
            c = dict(c, terms=[t for t in c["terms"] if t["t"] != "l"] + [{"t": "l", "v": ["w"]}, {"t": "l", "v": ["w"]}])
        model, df = mfit.mk_gamm(c)
        C11.fit(c, model, df)
    r = np.random.default_rng(c["seed"] + 41)
    coef = np.asarray(model.coef, float).ravel()
    A = mfit.tot_pen(model.overall_penalties, len(coef))
    sc = float(getattr(model, "scale", 1) or 1)
    A = A / sc - dense(model.hessian)
    drop = np.array([], int) if model.info.dropped is None else np.asarray(model.info.dropped, int)
    keep = np.setdiff1d(np.arange(len(coef)), drop)
    d = 1 / np.sqrt(np.maximum(np.diag(A)[keep], 1e-300))
    ev = np.linalg.eigvalsh(d[:, None] * A[np.ix_(keep, keep)] * d[None, :])
    if ev[0] < 1e-8 * ev[-1]:
        raise Skip("penalised Hessian numerically singular")
    V = np.zeros_like(A)
    V[np.ix_(keep, keep)] = np.linalg.inv(A[np.ix_(keep, keep)])
    n = 8000
    ntag = 0
    at = 0
    pars = [F.n_coef for F in model.formulas]
    for j, p in enumerate(pars):
        b, Vj = coef[at:at + p], V[at:at + p, at:at + p]
        at += p
        kw = {"par": j} if multi else {}
        S = np.asarray(model.sample_post(n, seed=11 + j, **kw))
        shape(S, (p, n), "posterior draws of parameter %d" % j)
        dist(S, b, Vj, "sample_post(par=%d)" % j)
        ok(np.array_equal(S, np.asarray(model.sample_post(n, seed=11 + j, **kw))), "the same seed gives other draws")
        D = np.asarray(model.sample_post(n, deviations=True, seed=11 + j, **kw))
        close(D, S - b[:, None], 1e-9, 1e-9 * (1 + np.max(np.abs(b))), "deviations are draws minus coefficients")
        use = sorted(int(v) for v in r.choice(p, size=int(r.integers(1, p + 1)), replace=False))
        U = np.asarray(model.sample_post(n, use_post=use, seed=5, **kw))
        dist(U, b[use], Vj[np.ix_(use, use)], "sample_post(use_post=%s)" % use)
        Ud = np.asarray(model.sample_post(n, use_post=use, deviations=True, seed=6, **kw))
        dist(Ud, np.zeros(len(use)), Vj[np.ix_(use, use)], "sample_post(use_post, deviations)")
        ntag += p > 1
    close(np.asarray(model.coef).ravel(), coef, 0, 0, "sampling changed the coefficients")
    return {"nt": ntag > 0, "tags": [c["fam"]] + (["dropped"] if len(drop) else [])}


SUBS = [
    Sub("mvn", mcase(), mvn, 400, 8000),
    Sub("model", pcase(), model_post, 250, 5000, weight=2),
]
