"""C11: a fitted GAMM is the penalised maximum likelihood estimate it reports."""
import numpy as np
from hypothesis import strategies as st
from vp import fgen, mfit
from vp.core import Sub, Skip
from vp.util import close, close_norm, ok, dense, shape

PROPERTY = "C11"
RULE = ("Cases: generated data frames (60-400 rows, missing values, factors) x formulas (linear, smooth, tensor, factor smooth, random, impulse "
        "response terms) x families (Gaussian identity/log, Binomial 1 and 7 trials, Gamma, Poisson, inverse Gaussian, scaled t) x offset "
        "(none, number, vector) x fitting options; oracle: dense penalised likelihood at the reported smoothing parameters. Non-trivial: the fit "
        "converged, has at least one penalty and at least one smoothing parameter inside (1e-5, 1e6).")
ASSUME = ["model matrix and penalties of the model are the ones C05-C08 decide", "smoothing parameters: the criterion is the working-model "
          "REML criterion of the (extended) Fellner-Schall method, as documented"]


@st.composite
def case(draw, wild=False):
    c = draw(fgen.formula(irf=True, n=(60, 140), maxt=2, intercept=None)) if wild else draw(mfit.tame(irf=True))
    c["fam"] = draw(st.sampled_from(mfit.FAMS))
    c["off"] = draw(st.sampled_from([None, None, None, "vec", "num"]))
    c["fit"] = {"method": draw(st.sampled_from(["QR", "QR", "Chol"])), "control_lambda": draw(st.sampled_from([2, 2, 1])),
                "extend_lambda": draw(st.sampled_from([False, False, True])), "n_cores": draw(st.sampled_from([1, 2])),
                "check_cond": draw(st.sampled_from([1, 1, 0, 2]))}
    if draw(st.integers(0, 5)) == 0:
        c["fit"]["exclude_lambda"] = True
    c["frozen"] = draw(st.sampled_from([None, None, None, [-2, 2], [-1, 4]]))
    c["tight"] = draw(st.sampled_from([True, True, False]))
    return c


def fit(c, model, df, **kw):
    opts = dict(c["fit"])
    opts.update(kw)
    opts["progress_bar"] = False
    if c["fam"] == "scat":
        opts.update(max_outer=40, max_inner=40)  # alternates between coefficients and theta; can be slow
    off = mfit.offset(c, len(df))
    if off is not None:
        opts["offset"] = off
    if c.get("tight"):
        opts["conv_tol"] = 1e-10
    if c.get("frozen"):
        from mssm.src.python.formula import build_penalties
        from mssm.src.python.penalties import combine_shared_penalties
        model.overall_penalties = combine_shared_penalties(build_penalties(model.formulas[0]))
        r = np.random.default_rng(c["seed"] + 9)
        for q in model.overall_penalties:
            q.lam = float(10 ** r.uniform(*c["frozen"]))
            q.frozen = True
        opts["restart"] = True
    try:
        model.fit(**opts)
    except ArithmeticError:
        if opts.get("check_cond") == 2:
            raise Skip("documented refusal: badly conditioned")
        raise
    except ValueError as e:
        if "provided information" in str(e):
            raise Skip("documented refusal: no valid weights")
        raise
    return model


def check(c):
    if not mfit.capped(c):
        raise Skip("too many columns")
    model, df = mfit.mk_gamm(c)
    name = c["fam"]
    lams0 = None
    fit(c, model, df)
    return verify(c, model, df)


def verify(c, model, df):
    name = c["fam"]
    if model.info.iter >= (40 if name == "scat" else 200):
        raise Skip("not converged")
    o = mfit.Oracle(model, c, df)
    n, p = o.n, o.p
    shape(model.coef, (p, 1), "coef")
    ok(np.all(np.isfinite(o.beta)), "coefficients are not finite")
    pens = model.overall_penalties
    lams = np.array([q.lam for q in pens])
    if c.get("frozen"):
        r = np.random.default_rng(c["seed"] + 9)
        want = np.array([float(10 ** r.uniform(*c["frozen"])) for _ in pens])
        close(lams, want, 1e-12, 0, "frozen smoothing parameters")
    ok(np.all(lams > 0), "smoothing parameters positive: %r" % lams)
    if o.cond > 1e9:
        raise Skip("penalised Hessian numerically singular")
    if np.max(np.abs(o.eta)) > 15 and mfit.LINKS[name] != "id":
        raise Skip("separated or overflowing data")
    # rows used
    ok(n == len(df.dropna(subset=sorted(fgen.Ref(c, df, None).used))), "rows used")
    # fitted values
    sc = np.max(np.abs(o.eta)) + 1
    close(np.asarray(model.preds[0]).ravel(), o.eta, 0, (1e-7 if name == "gauss" else 1e-6) * sc + 1e-9 * np.max(np.abs(o.X) @ np.abs(o.beta)), "linear predictor = X coef + offset")
    close(np.asarray(model.mus[0]).ravel(), o.mu, 1e-5, 1e-6 * sc, "fitted means")
    ok(np.all(o.beta[o.drop] == 0), "dropped coefficients are zero")
    exact = name == "gauss"
    tol = 1e-5 if exact else (2e-2 if not c["tight"] else 1e-3)
    # stationarity
    dev = float(o.ares @ o.ares) + float(o.beta @ o.S @ o.beta)
    gap = mfit.newton_gap(o)
    lim = 1e-12 * max(1, o.cond * 1e-4) if exact else (5e-5 if not c["tight"] else 1e-6)
    ok(gap <= lim * dev, "coefficients do not maximise the penalised likelihood: Newton decrement %.3g, penalised deviance %.3g" % (gap, dev))
    # covariance root
    lvi = dense(model.lvi)
    VV = lvi.T @ lvi
    cs = np.sqrt(np.maximum(np.diag(o.V), 1e-300))
    rel = (VV - o.V)[np.ix_(o.keep, o.keep)] / np.outer(cs[o.keep], cs[o.keep])
    ok(np.max(np.abs(rel)) <= max(tol, 1e-12 * o.cond), "covariance root: lvi'lvi differs from the inverse penalised Hessian by %.3g (relative)" % np.max(np.abs(rel)))
    ok(np.all(VV[o.drop] == 0) and np.all(VV[:, o.drop] == 0), "covariance of dropped coefficients")
    # edf
    ok(abs(float(model.edf) - o.edf) <= max(tol, 1e-10 * o.cond) * max(1, o.edf), "total edf %r, expected %r" % (float(model.edf), o.edf))
    # scale
    ok(abs(float(model.scale) - o.phi) <= tol * o.phi, "scale %r, expected %r" % (float(model.scale), o.phi))
    # penalty
    pen = float(o.beta @ o.S @ o.beta)
    ok(abs(float(np.asarray(model.penalty).ravel()[0]) - pen) <= (1e-5 if exact else 1e-3) * pen + (1e-9 if exact else 1e-6) * dev, "penalty %r, expected %r" % (model.penalty, pen))
    # residuals
    close(np.asarray(model.get_resid()).ravel(), o.wres, 0, max(tol, 1e-4) * (np.max(np.abs(o.wres)) + 1e-3), "Pearson (working) residuals")
    Hn = -dense(model.hessian) * float(model.scale)
    Xk = o.X.copy()
    Xk[:, o.drop] = 0
    XW = Xk.T @ (o.w[:, None] * Xk)
    close_norm(Hn, XW, tol, "Hessian = -X'WX/scale", floor=1e-8)
    if name != "scat":
        dres = np.sign(o.y - o.mu) * np.sqrt(np.maximum(dev_resid(name, o.y, o.mu), 0))
        close(np.asarray(model.get_resid(type="Deviance")).ravel(), dres, 0, 1e-5 * (np.max(np.abs(dres)) + 1), "deviance residuals")
    # likelihood
    phi = float(model.scale)
    ll = mfit.loglik(name, o.y, o.mu, phi, o.theta)
    L = max(abs(ll), n)
    ok(abs(float(np.asarray(model.get_llk(penalized=False)).ravel()[0]) - ll) <= 1e-7 * L, "log-likelihood %r, expected %r" % (model.get_llk(penalized=False), ll))
    ok(abs(float(np.asarray(model.get_llk()).ravel()[0]) - (ll - pen / (2 * phi))) <= 1e-6 * L,
       "penalised log-likelihood %r, expected %r" % (model.get_llk(), ll - pen / (2 * phi)))
    if name == "scat":
        for j in range(2):
            f = []
            for h in (-1e-4, 1e-4):
                th = o.theta.copy()
                th[j] += h
                f.append(mfit.loglik(name, o.y, o.mu, 1.0, th))
            ok(abs(f[1] - f[0]) / 2e-4 <= 1e-4 * L, "scaled t parameters do not maximise the likelihood: derivative %r" % ((f[1] - f[0]) / 2e-4))
    # per-term edf and smoothing-parameter criterion
    tags = [name, c["fit"]["method"]] + [t["t"] for t in c["terms"]] + (["dropped"] if len(o.drop) else [])
    if len(pens):
        tr = np.array([q.lam * np.trace(dense(q.S_J_emb) @ o.V) for q in pens])
        kdim = len(o.keep)
        ok(abs(kdim - tr.sum() - o.edf) < 1e-5 * kdim * max(1, 1e-6 * o.cond), "oracle self-check")
        terms_edf(c, model, o, tol)
        if not c.get("frozen") and not len(o.drop):
            criterion(c, o, pens, tags, phi)
    nt = len(pens) > 0 and bool(np.any((lams > 1e-5) & (lams < 1e6)))
    return {"nt": nt, "tags": tags}


def terms_edf(c, model, o, tol):
    """term_edf: one number per penalised term (per level for by-smooths); edf of the coefficients the term owns."""
    te = np.asarray(model.term_edf, float).ravel()
    F = np.diag(o.V @ o.XWX)
    covered = np.zeros(o.p, bool)
    for q in model.overall_penalties:
        covered |= np.abs(dense(q.S_J_emb)).sum(axis=0) > 0
    # every coefficient is either penalised or belongs to an unpenalised/partly penalised block: totals have to add up
    up = model.formulas[0].unpenalized_coef
    ok(np.all(te > -1e-3), "term edf non-negative: %r" % te)
    ok(abs(te.sum() + up - len(o.drop) - o.edf) <= max(tol, 1e-9 * o.cond) * o.p, "edf of terms plus unpenalised coefficients: %r + %r, total %r" % (te.sum(), up, o.edf))


def dev_resid(name, y, mu):
    if name in ("gauss", "gauss_log"):
        return (y - mu) ** 2
    if name == "gamma":
        return 2 * ((y - mu) / mu - np.log(y / mu))
    if name == "pois":
        return 2 * (np.where(y > 0, y * np.log(np.where(y > 0, y, 1) / mu), 0) - (y - mu))
    if name == "invgauss":
        return (y - mu) ** 2 / (mu ** 2 * y)
    k = 7 if name == "binom_n" else 1
    a = np.where(y > 0, y * np.log(np.where(y > 0, y, 1) / mu), 0)
    b = np.where(y < 1, (1 - y) * np.log(np.where(y < 1, 1 - y, 1) / (1 - mu)), 0)
    return 2 * k * (a + b)


def criterion(c, o, pens, tags, phi):
    """Derivative of the (working) REML criterion with respect to log lambda."""
    lam = np.array([q.lam for q in pens])
    tr = mfit.trSinvS(pens)
    for j, q in enumerate(pens):
        Sj = dense(q.S_J_emb)
        a = tr[j]
        if a is None:
            continue
        b = lam[j] * np.trace(o.V @ Sj)
        d = lam[j] * float(o.beta @ Sj @ o.beta) / phi
        g = 0.5 * (a - b - d)
        if lam[j] >= 1e4 or lam[j] <= 1e-5:
            continue
        # gain available from one more step, in units of log-likelihood
        h = 0.5 * (d + max(a - b, 0)) + 1e-12
        gain = g * g / (2 * max(h, 1e-3))
        lim = 0.02 if c["tight"] else 0.2
        ok(gain <= lim, "smoothing parameter %d (%.4g) is not stationary: derivative %.4g, attainable gain %.4g" % (j, lam[j], g, gain))
        tags.append("criterion")


SUBS = [
    Sub("tame", case(), check, 700, 12000),
    Sub("wild", case(wild=True), check, 200, 4000),
]
