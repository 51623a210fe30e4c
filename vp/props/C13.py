"""C13: fitted GAMMLSS and general smooth models are stationary points, and what they report is consistent."""
import numpy as np
from hypothesis import strategies as st
from vp import fgen, mfit, mls
from vp.core import Sub, Skip, Known, Violation
from vp.util import close, close_norm, ok, dense, shape
from vp.props import C11

PROPERTY = "C13"
RULE = ("Cases: generated data (80-400 rows) x 1-3 formulas x family (Gaussian and Gamma location-scale, multinomial; multivariate Gaussian, proportional "
        "hazards, GAMLSS/exponential families wrapped as general smooth models) x fitting options; oracle: independent likelihood, gradient and Hessian. "
        "Non-trivial: converged with at least one penalty whose smoothing parameter lies inside (1e-5, 1e6).")
ASSUME = ["model matrix and penalties of the model are the ones C05-C08 decide"]
METHODS = ["QR/Chol", "QR/Chol", "Chol", "LU/Chol", "Direct/Chol"]


@st.composite
def case(draw, fams, gs=False):
    c = draw(mls.mcase(fams))
    c["fit"] = {"method": draw(st.sampled_from(METHODS)), "control_lambda": draw(st.sampled_from([2, 2, 1])),
                "extend_lambda": draw(st.sampled_from([False, False, True])), "n_cores": draw(st.sampled_from([1, 2])),
                "prefit_grad": draw(st.booleans()), "repara": draw(st.booleans()), "should_keep_drop": draw(st.booleans()),
                "check_cond": draw(st.sampled_from([1, 1, 0]))}
    c["frozen"] = draw(st.sampled_from([None, None, [-1, 2]]))
    c["dup"] = draw(st.sampled_from([False, False, False, True]))
    return c


def fit(c, model, **kw):
    o = dict(c["fit"], progress_bar=False)
    o.update(kw)
    if c.get("frozen"):
        mls.freeze(c, model, c["frozen"])
        o["restart"] = True
    o.setdefault("conv_tol", 1e-9)
    model.fit(**o)
    return model


def add_dup(c):
    """Make the first formula rank deficient: a factor with an intercept and the same covariate twice as linear terms."""
    c = dict(c)
    c["forms"] = [list(f) for f in c["forms"]]
    f0 = [t for t in c["forms"][0] if t["t"] != "l"]
    f0 += [{"t": "l", "v": ["w"]}, {"t": "l", "v": ["w"]}]
    c["forms"][0] = f0
    return c


def check(c):
    num = c["fam"].startswith("x:")  # numerical Hessian: slow
    if mls.ncol(c) > (14 if num else 70):
        raise Skip("too many columns")
    if num:
        c = dict(c, dup=False, fit=dict(c["fit"], max_outer=30, max_inner=60))
    if c["dup"]:
        c = add_dup(c)
    model, df = mls.mk(c)
    fit(c, model)
    return verify(c, model, df)


def verify(c, model, df):
    fam = c["fam"]
    if model.info.iter >= c["fit"].get("max_outer", 200) - 1:
        raise Skip("not converged")
    R = mls.Ref(c, model, df)
    p = R.tot
    shape(model.coef, (p, 1), "coef")
    b = np.asarray(model.coef, float).ravel()
    ok(np.all(np.isfinite(b)), "coefficients are not finite")
    pens = model.overall_penalties
    S = mfit.tot_pen(pens, p)
    etas, ex = R.etas(b)
    if max(np.max(np.abs(e)) for e in etas) > 30:
        raise Skip("separated or overflowing data")
    drop = np.array([], int) if model.info.dropped is None else np.asarray(model.info.dropped, int)
    keep = np.setdiff1d(np.arange(p), drop)
    if c["fit"]["repara"] and np.any(np.diag(S)[drop] > 0) and not c.get("known"):
        raise Skip("penalised coefficients dropped after re-parameterising (known finding)")
    ok(np.all(b[drop] == 0), "dropped coefficients are not zero: %r" % b[drop])
    # split
    cs = [int(v) for v in model.coef_split_idx]
    want = list(np.cumsum(R.ps)) if R.extra else list(np.cumsum(R.ps)[:-1])
    ok(cs == want, "coef_split_idx %r, expected %r" % (cs, want))
    for j, e in enumerate(etas):
        close(np.asarray(model.preds[j]).ravel(), e, 1e-8, 1e-8 * (1 + np.max(np.abs(R.X[j]) @ np.abs(R.split(b)[0][j]))), "linear predictor %d" % j)
        close(np.asarray(model.get_pars(j)).ravel(), R.split(b)[0][j], 0, 0, "coefficients of parameter %d" % j)
    # likelihood and penalty
    ll = R.llk(b)
    L = max(abs(ll), len(R.y))
    pen = float(b @ S @ b)
    got = float(np.asarray(model.get_llk(penalized=False)).ravel()[0])
    ok(abs(got - ll) <= 1e-7 * L, "log-likelihood %r, expected %r" % (got, ll))
    ok(abs(float(np.asarray(model.penalty).ravel()[0]) - pen) <= 1e-6 * pen + 1e-7 * L, "penalty %r, expected %r" % (model.penalty, pen))
    got = float(np.asarray(model.get_llk()).ravel()[0])
    ok(abs(got - ll + pen / 2) <= 2e-7 * L, "penalised log-likelihood %r, expected %r" % (got, ll - pen / 2))
    # Hessian
    H, acc = R.hess(b)
    Hm = dense(model.hessian)
    shape(Hm, (p, p), "hessian")
    eps = float(model.info.eps)
    Hk = Hm + eps * np.eye(p)
    kk = np.ix_(keep, keep)
    htol = 3e-2 if fam.startswith("x:") else 1e-3
    sc = np.sqrt(np.abs(np.diag(H)) + np.diag(S) + 1e-3)
    rel = (Hk - H) / np.outer(sc, sc)
    # stationarity
    A = (S - Hm)[kk]
    Aex = (S - H)[kk]
    d = 1 / np.sqrt(np.maximum(np.diag(A), 1e-300))
    ev = np.linalg.eigvalsh(d[:, None] * A * d[None, :])
    if ev[0] < 1e-9 * ev[-1]:
        raise Skip("penalised Hessian numerically singular")
    g = R.grad(b) - S @ b
    step = np.linalg.solve(A, g[keep])
    gap = abs(float(g[keep] @ step))
    ok(gap <= 1e-5 * L, "not a stationary point of the penalised likelihood: Newton decrement %.3g (likelihood %.5g)" % (gap, ll))
    # the Hessian is the one of the last iterate, so it is as accurate as the iteration has converged
    ok(np.max(np.abs(rel[kk])) <= htol + 10 * np.sqrt(gap), "Hessian differs from the reference by %.3g (relative)" % np.max(np.abs(rel[kk])))
    # a dropped coefficient is redundant: the likelihood would not gain from it
    V = np.zeros((p, p))
    V[kk] = np.linalg.inv(A)
    lvi = dense(model.lvi)
    VV = lvi.T @ lvi
    vs = np.sqrt(np.diag(V)[keep])
    cond = ev[-1] / ev[0]
    rel = (VV - V)[kk] / np.outer(vs, vs)
    ok(np.max(np.abs(rel)) <= max(1e-5, 1e-12 * cond), "lvi'lvi differs from the inverse penalised Hessian by %.3g (relative)" % np.max(np.abs(rel)))
    ok(np.all(VV[drop] == 0) and np.all(VV[:, drop] == 0), "covariance of dropped coefficients")
    tags = [fam, c["fit"]["method"]] + (["dropped"] if len(drop) else []) + (["eps"] if eps > 0 else []) + (["frozen"] if c.get("frozen") else [])
    # effective degrees of freedom
    lams = np.array([q.lam for q in pens])
    edf = len(keep) - float(np.trace(V @ S))
    ok(abs(float(model.edf) - edf) <= 1e-4 * max(1, edf), "total edf %r, expected %r" % (float(model.edf), edf))
    if c.get("frozen"):
        r = np.random.default_rng(c["seed"] + 9)
        want = np.array([float(10 ** r.uniform(*c["frozen"])) for _ in pens])
        close(lams, want, 1e-12, 0, "frozen smoothing parameters")
    if len(pens):
        te = np.asarray(model.term_edf, float).ravel()
        up = sum(F.unpenalized_coef for F in model.formulas) + R.extra
        ok(abs(te.sum() + up - len(drop) - edf) <= 1e-4 * p, "edf of terms plus unpenalised coefficients: %r + %r, total %r" % (te.sum(), up, edf))
        if not c.get("frozen") and not len(drop) and eps == 0 and np.linalg.eigvalsh(-H)[0] > -1e-6 * np.max(np.abs(H)):
            o = type("O", (), {})()
            o.V, o.beta = V, b
            C11.criterion({"tight": True}, o, pens, tags, 1.0)
    nt = len(pens) > 0 and bool(np.any((lams > 1e-5) & (lams < 1e6)))
    return {"nt": nt, "tags": tags}


KCASE = {"dup": True, "fam": "gam", "known": True,
         "fit": {"check_cond": 0, "control_lambda": 2, "extend_lambda": False, "method": "LU/Chol", "n_cores": 1, "prefit_grad": True, "repara": True,
                 "should_keep_drop": True},
         "forms": [[{"t": "i"}, {"by": "fA", "con": "QR", "deg": 3, "m": [2], "nk": 7, "null": False, "rp": 0, "t": "f", "v": ["x2"]},
                    {"m": 1, "nk": 4, "rf": "fA", "rp": 1, "t": "fs", "v": ["x0"]}], [{"t": "i"}, {"t": "l", "v": ["w"]}]],
         "frozen": None, "index": True, "n": 114, "nA": 2, "nB": 2, "na": 0, "na_cols": ["y"], "seed": 28016, "series": 3, "sid": False}


def k_drop():
    try:
        check(dict(KCASE))
    except Violation as e:
        return "dropped coefficients are not zero" in str(e)
    return False


KNOWN = [Known("repara_dropped", "with repara=True, penalised coefficients are dropped in the re-parameterised space but info.dropped is read as indices "
               "of the returned coefficients, so the coefficients reported as dropped are not zero", k_drop)]

SUBS = [
    Sub("lss", case(mls.LSS), check, 120, 6000),
    Sub("gsmm", case(mls.GS), check, 120, 6000),
]
