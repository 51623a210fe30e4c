"""C10: AR(1) error models whiten exactly the stated correlation."""
import numpy as np
from hypothesis import strategies as st
from vp import fgen, mfit
from vp.core import Sub, Skip
from vp.props import C11
from vp.util import SEED, close, close_norm, ok, dense, shape

PROPERTY = "C10"
RULE = ("Cases: data frames with 1-12 series (lengths from 1) or no series id, missing responses/covariates (also at the first and last row of a series), "
        "correlation parameters in (-0.98, 0.98), random formulas and families; oracle: dense AR(1) correlation matrix per series and generalised least "
        "squares with it. Non-trivial: rho is not 0 and at least one series keeps two or more rows.")
ASSUME = ["rows of one series that remain after dropping missing values are treated as consecutive (the documented behaviour of the package)"]

RHO = st.one_of(st.floats(-0.98, 0.98), st.sampled_from([0.0, 0.3, 0.9, -0.5]))


@st.composite
def fcase(draw):
    return {"n": draw(st.integers(4, 60)), "seed": draw(SEED), "series": draw(st.integers(1, 12)), "nA": 2, "nB": 2,
            "na": draw(st.sampled_from([0, 0.15, 0.5])), "na_cols": draw(st.sampled_from([["y"], ["x0"], ["y", "x0"]])),
            "first": draw(st.booleans()), "sid": draw(st.booleans()), "rho": draw(RHO), "index": draw(st.booleans()),
            "terms": [{"t": "i"}, {"t": "l", "v": ["x0"]}]}


def fframe(c):
    r = np.random.default_rng(c["seed"] + 3)
    d = dict(c, na=0)
    df = fgen.frame(d)
    n = len(df)
    for col in c["na_cols"]:
        m = r.random(n) < c["na"]
        if c["first"] and c["na"]:
            s = df["s"].values
            st_ = np.concatenate([[True], s[1:] != s[:-1]])
            m |= st_ & (r.random(n) < 0.6)
        if m.sum() >= n - 2:
            m[:] = False
        df.loc[df.index[m], col] = np.nan
    return df


def factor(c):
    from mssm.src.python.utils import computeAr1Chol
    df = fframe(c)
    if df[["y", "x0"]].dropna().shape[0] < 3:
        raise Skip("no rows left")
    F = fgen.mk_formula(c, df)
    keep = ~df[["y", "x0"]].isna().any(axis=1).values
    rho = c["rho"]
    L, llc = computeAr1Chol(F, rho)
    L = dense(L)
    n = int(keep.sum())
    shape(L, (n, n), "AR(1) factor")
    # dense correlation matrix per series
    s = df["s"].values if c["sid"] else np.zeros(len(df))
    blk = np.concatenate([[0], np.cumsum(s[1:] != s[:-1])])[keep]
    C = np.zeros((n, n))
    pairs = 0
    for b in np.unique(blk):
        ix = np.where(blk == b)[0]
        C[np.ix_(ix, ix)] = rho ** np.abs(np.subtract.outer(np.arange(len(ix)), np.arange(len(ix)))) if rho != 0 else np.eye(len(ix))
        pairs += len(ix) - 1
    T = L.T
    close(T @ C @ T.T, np.eye(n), 0, 1e-9 / (1 - abs(rho)), "whitened correlation matrix")
    close(L @ L.T, np.linalg.inv(C), 0, 1e-8 / (1 - abs(rho)) ** 2, "factor of the inverse correlation")
    ld = -0.5 * np.linalg.slogdet(C)[1]
    ok(abs(float(llc) - ld) <= 1e-9 * (1 + abs(ld)) + 1e-8, "log-determinant correction %r, expected %r" % (float(llc), ld))
    return {"nt": rho != 0 and pairs > 0, "tags": ["sid" if c["sid"] else "one series", "first row missing" if c["first"] and c["na"] else ""]}


@st.composite
def gcase(draw):
    c = draw(mfit.tame(irf=False, maxt=2, sid=None))
    c["series"] = draw(st.integers(1, 9))
    c["fam"] = draw(st.sampled_from(["gauss", "gauss", "gauss", "gauss_log", "binom_n", "gamma", "pois"]))
    c["off"] = draw(st.sampled_from([None, None, "vec", "num"]))
    c["rho"] = draw(st.one_of(st.floats(-0.9, 0.9), st.sampled_from([0.3, 0.8])))
    c["fit"] = {"method": draw(st.sampled_from(["QR", "Chol"])), "n_cores": 1}
    c["tight"] = True
    c["frozen"] = draw(st.sampled_from([None, [-2, 2]]))
    return c


def gls(c):
    if not mfit.capped(c):
        raise Skip("too many columns")
    model, df = mfit.mk_gamm(c)
    rho, name = c["rho"], c["fam"]
    C11.fit(c, model, df, rho=rho)
    if model.info.iter >= 200:
        raise Skip("not converged")
    o = mfit.Oracle(model, c, df, rho=rho)
    if np.max(np.abs(o.eta)) > 15 and mfit.LINKS[name] != "id":
        raise Skip("overflowing data")
    if o.cond > 1e9 or len(o.drop):
        raise Skip("numerically singular")
    exact = name == "gauss"
    tol = 1e-5 if exact else 2e-3
    sc = np.max(np.abs(o.eta)) + 1
    close(np.asarray(model.preds[0]).ravel(), o.eta, 0, 1e-6 * sc, "linear predictor = X coef + offset (not whitened)")
    dev = float(o.ares @ o.ares) + float(o.beta @ o.S @ o.beta)
    gap = mfit.newton_gap(o)
    if not exact and gap > 1e-7 * dev:
        raise Skip("iteration for a non-Gaussian AR(1) model stopped at its deviance check")
    ok(gap <= 1e-11 * max(1, o.cond * 1e-4) * dev or not exact, "not the generalised least squares solution: Newton decrement %.3g of %.3g" % (gap, dev))
    lvi = dense(model.lvi)
    cs = np.sqrt(np.diag(o.V))
    ok(np.max(np.abs((lvi.T @ lvi - o.V) / np.outer(cs, cs))) <= max(tol, 1e-12 * o.cond), "covariance root does not belong to the AR(1) model")
    ok(abs(float(model.edf) - o.edf) <= max(tol, 1e-10 * o.cond) * max(1, o.edf), "edf %r, expected %r" % (float(model.edf), o.edf))
    ok(abs(float(model.scale) - o.phi) <= tol * o.phi, "scale %r, expected %r" % (float(model.scale), o.phi))
    close(np.asarray(model.get_resid("ar1")).ravel(), o.ares, 0, max(tol, 1e-4) * (np.max(np.abs(o.ares)) + 1e-3), "whitened residuals")
    close(np.asarray(model.get_resid()).ravel(), o.wres, 0, max(tol, 1e-4) * (np.max(np.abs(o.wres)) + 1e-3), "plain residuals")
    close_norm(-dense(model.hessian) * float(model.scale), o.XWX, tol, "Hessian", floor=1e-8)
    if exact:
        phi = float(model.scale)
        n = o.n
        ld = float(np.sum(np.log(np.diag(o.R))))
        ll = -0.5 * n * np.log(2 * np.pi * phi) - float(o.ares @ o.ares) / (2 * phi) + ld
        ok(abs(float(np.asarray(model.get_llk(penalized=False)).ravel()[0]) - ll) <= 1e-6 * max(n, abs(ll)), "Gaussian AR(1) log-likelihood %r, expected %r"
           % (model.get_llk(penalized=False), ll))
        pen = float(o.beta @ o.S @ o.beta) / (2 * phi)
        ok(abs(float(np.asarray(model.get_llk()).ravel()[0]) - ll + pen) <= 1e-6 * max(n, abs(ll)), "penalised AR(1) log-likelihood %r, expected %r"
           % (model.get_llk(), ll - pen))
    tags = [name, c["fit"]["method"]]
    if not c.get("frozen") and len(model.overall_penalties):
        C11.criterion(c, o, model.overall_penalties, tags, float(model.scale))
    return {"nt": abs(c["rho"]) > 1e-6, "tags": tags}


SUBS = [
    Sub("factor", fcase(), factor, 800, 20000),
    Sub("gls", gcase(), gls, 400, 8000),
]
