"""C14: predictions, intervals and differences follow from coefficients and covariance."""
import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st
from vp import fgen, mfit, mls
from vp.core import Sub, Skip
from vp.util import close, ok, dense, shape
from vp.props import C11, C13

PROPERTY = "C14"
RULE = ("Cases: a generated model (GAMM, GAMMLSS or general smooth model at random fixed smoothing parameters), new data (random, gridded and symmetric, "
        "or varying one column only), a subset of terms, a level. Oracle: an independent model matrix of the new data, the coefficients and the covariance "
        "of the fit; simultaneous intervals against an independent simulation. Non-trivial: at least 2 columns are used.")
ASSUME = ["coefficients and covariance root are those C11 and C13 decide"]


@st.composite
def pcase(draw, multi=False):
    if multi:
        c = draw(mls.mcase(["gau", "gau", "gam", "mul2", "mg2", "cox", "w:gau"]))
        c["fit"] = {"method": "QR/Chol", "n_cores": 1, "repara": draw(st.booleans()), "control_lambda": 2}
    else:
        c = draw(mfit.tame())
        c["fam"] = draw(st.sampled_from(["gauss", "gauss", "binom", "gamma", "pois"]))
        c["off"] = draw(st.sampled_from([None, None, "num"]))
        c["fit"] = {"method": draw(st.sampled_from(["QR", "Chol"])), "n_cores": 1}
        c["tight"] = False
    c["frozen"] = [-1, 2]
    c["nnew"] = draw(st.integers(1, 14))
    c["kind"] = draw(st.sampled_from(["rand", "grid", "one"]))
    c["alpha"] = draw(st.sampled_from([0.05, 0.05, 0.01, 0.2, 0.3173, 0.5]))
    c["sub"] = draw(st.booleans())
    return c


def newdata(c, R, salt, like=None):
    """Rows inside the ranges and levels of the training data."""
    n = c["nnew"]
    r = np.random.default_rng(c["seed"] + salt)
    if like is None:
        new = fgen.frame(c, seed=c["seed"] + salt, n=n, na=0, fresh=True)
    else:
        new = like.copy()
        col = ["x0", "x1", "x2", "w", "fA", "fB"][int(r.integers(6))]
        src = fgen.frame(c, seed=c["seed"] + salt, n=n, na=0, fresh=True)
        m = r.random(n) < 0.7
        new[col] = np.where(m, src[col].values, new[col].values) if col not in ("fA", "fB") else np.where(m, src[col].values, new[col].values).astype(object)
    if c["kind"] == "grid" and like is None:
        g = np.linspace(-1, 1, n)
        new["w"] = g if n > 1 else np.ones(1)
        for v in ("x0", "x1"):
            lo, hi = R.rng[v]
            new[v] = (lo + hi) / 2 + g * (hi - lo) / 2.1
    for v in fgen.NUM:
        lo, hi = R.rng[v]
        new[v] = new[v].clip(lo, hi) if v != "x2" else new[v].clip(int(np.ceil(lo)), int(hi)).astype(np.int64)
    new.index = np.arange(n) * 3 + 5
    for v in ["fA", "fB", "fC", "g", "fN"]:
        lv = R.levels[v]
        new[v] = [q if q in lv else lv[0] for q in new[v]]
    return new


def run(c, multi):
    if multi:
        if mls.ncol(c) > 60:
            raise Skip("too many columns")
        model, df = mls.mk(c)
        C13.fit(c, model, conv_tol=1e-7)
        r = np.random.default_rng(c["seed"] + 41)
        par = int(r.integers(len(c["forms"])))
        cc = dict(c, terms=c["forms"][par])
        off = 0
    else:
        if not mfit.capped(c, 90):
            raise Skip("too many columns")
        model, df = mfit.mk_gamm(c)
        C11.fit(c, model, df)
        par, cc = 0, c
        off = 0.4 if c["off"] else 0
        r = np.random.default_rng(c["seed"] + 41)
    F = model.formulas[par]
    R = fgen.Ref(cc, df, F.terms)
    beta = np.asarray(model.coef, float).ravel()
    lvi = dense(model.lvi)
    V = lvi.T @ lvi * float(getattr(model, "scale", 1) or 1)
    if not np.all(np.isfinite(beta)) or not np.all(np.isfinite(V)):
        raise Skip("fit diverged")
    if multi:
        ps = [F_.n_coef for F_ in model.formulas]
        at = int(np.sum(ps[:par]))
        sl = slice(at, at + ps[par])
        beta, V = beta[sl], V[sl, sl]
    # training data
    kw = {"par": par} if multi else {}
    tr = df if multi or c["na"] == 0 else df[np.asarray(F.NOT_NA_flat).ravel()]
    keep = np.asarray(F.NOT_NA_flat).ravel().astype(bool)
    pt, Xt, none = model.predict(None, df[keep], **kw)
    ok(none is None, "predict without ci returned an interval")
    pm = np.asarray(model.preds[par]).ravel()
    sc = np.max(np.abs(dense(Xt)) @ np.abs(beta)) + 1
    close(np.asarray(pt).ravel() + off, pm, 0, 1e-6 * (np.max(np.abs(pm)) + 1) + 1e-8 * sc, "prediction of the training data")
    # new data, subset of terms
    nt = len(cc["terms"])
    use = None
    if c["sub"]:
        use = [int(v) for v in r.permutation(nt)[: int(r.integers(1, nt + 1))]]
    d1 = newdata(c, R, 51)
    d2 = newdata(c, R, 52, like=d1 if c["kind"] == "one" else None)
    b1, b2 = d1.copy(deep=True), d2.copy(deep=True)
    alpha = c["alpha"]
    z = ss.norm.isf(alpha / 2)

    def ref(d):
        W, _, idx = R.matrix(d)
        if use is not None:
            M = np.zeros_like(W)
            for k in use:
                M[:, idx[k]] = W[:, idx[k]]
            W = M
        return W
    W1, W2 = ref(d1), ref(d2)

    def judge(pred, b, W, what):
        sc = np.max(np.abs(W) @ np.abs(beta)) + 1e-3
        shape(pred, (len(W),), what)
        close(pred, W @ beta, 0, 1e-6 * sc, what)
        se = np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", W, V, W), 0))
        top = np.sqrt(np.max((np.abs(W) @ np.sqrt(np.diag(V))) ** 2)) + 1e-12
        close(b, z * se, 1e-5, 1e-6 * z * top, what + ": half-width at level %s" % alpha)
        return se
    p1, X1, ci1 = model.predict(use, d1, alpha=alpha, ci=True, **kw)
    sx = 1 + np.max(np.abs(W1), axis=0)
    close(dense(X1) / sx, W1 / sx, 1e-7, 1e-7, "model matrix of the new data")
    se1 = judge(p1, ci1, W1, "prediction")
    pd_, bd = model.predict_diff(d1, d2, use, alpha=alpha, **kw)
    sed = judge(pd_, bd, W1 - W2, "difference")
    # columns not needed by the model may be missing, additional ones are ignored
    ok(d1.equals(b1) and d2.equals(b2), "prediction changed the new data")
    # simultaneous intervals
    n_ps = 4000
    q = 0.0
    for W, got, se, what in [(W1, model.predict(use, d1, alpha=alpha, ci=True, whole_interval=True, n_ps=n_ps, seed=3, **kw)[2], se1, "simultaneous"),
                             (W1 - W2, model.predict_diff(d1, d2, use, alpha=alpha, whole_interval=True, n_ps=n_ps, seed=3, **kw)[1], sed, "simultaneous difference")]:
        top = np.max(np.abs(W) @ np.sqrt(np.diag(V))) + 1e-12
        pos = se > 1e-5 * top
        zero = np.all(W == 0, axis=1)
        shape(got, (len(W),), what + " interval")
        ok(np.all(np.isfinite(got)), "%s interval is not finite: %r" % (what, got))
        ok(np.all(np.abs(got[zero]) <= 1e-12 * top), "%s interval where nothing differs: %r" % (what, got[zero]))
        if not np.any(pos) or np.any(~pos & ~zero):
            continue
        k = got[pos] / (z * se[pos])
        ok(np.max(k) - np.min(k) <= 1e-4 * np.max(k), "%s interval is not a multiple of the point-wise one: %r .. %r" % (what, np.min(k), np.max(k)))
        ev, U = np.linalg.eigh(V)
        dev = (W[pos] @ U) * np.sqrt(np.maximum(ev, 0)) @ np.random.default_rng(7).normal(size=(V.shape[0], 20000))
        mx = np.max(np.abs(dev) / se[pos, None], axis=0)
        lo, hi = np.quantile(mx, [max(0, 1 - alpha - 6 * np.sqrt(alpha * (1 - alpha) / n_ps)), min(1, 1 - alpha + 6 * np.sqrt(alpha * (1 - alpha) / n_ps))]) / z
        ok(lo * 0.98 <= k[0] <= hi * 1.02, "%s: multiplier %.4f of the point-wise interval, expected within %.4f .. %.4f" % (what, k[0], lo, hi))
        q = k[0]
    return {"nt": W1.shape[1] > 1, "tags": [c["kind"], c["fam"]] + (["subset"] if use is not None else []) + (["wide"] if q > 1.2 else [])}


SUBS = [
    Sub("gamm", pcase(), lambda c: run(c, False), 500, 8000, weight=2),
    Sub("multi", pcase(True), lambda c: run(c, True), 300, 5000, weight=2),
]
