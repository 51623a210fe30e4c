"""C21: REML scores and smoothing-parameter uncertainty corrections."""
import copy
import numpy as np
import scipy as scp
import scipy.stats as ss
from hypothesis import strategies as st
from vp import fgen, mfit, mls
from vp.core import Sub, Skip, Violation
from vp.util import close, close_norm, ok, dense, SEED, shape
from vp.props import C11, C13

PROPERTY = "C21"
RULE = ("Cases: generated GAMMs (all families, offsets, AR(1) residuals), GAMMLSS and general smooth models fitted at generated or estimated smoothing parameters; "
        "candidate smoothing parameters far from the fitted ones; grid types, weights, priors, processes for the corrections. Oracle: dense Laplace-approximate marginal "
        "likelihood, its second derivatives, dense covariance formulas and finite-differenced inverse factors. Non-trivial: at least one penalty with rank below its order or "
        "two penalties.")
ASSUME = ["penalties whose smoothing parameters differ by more than 1e6 within one term are excluded (determinants lose their accuracy)",
          "Monte-Carlo corrections: the oracle draws the same candidates from scipy's multivariate t with the given seed"]


# ------------------------------------------------------------------ dense reference
class Pen:
    """Dense view of a list of penalties: log|S/phi|_+, S^-, null dimension."""

    def __init__(self, pens, p, lam=None):
        self.Sj = [dense(q.S_J_emb) for q in pens]
        self.lam = np.array([q.lam for q in pens], float) if lam is None else np.asarray(lam, float)
        self.p = p
        self.S = sum((l * s for l, s in zip(self.lam, self.Sj)), np.zeros((p, p)))
        self.groups = []
        r = 0
        for g, idx in mfit.pen_groups(pens):
            if len(idx) == 0:
                continue
            l = self.lam[g]
            if l.max() / l.min() > 1e6:
                raise Skip("smoothing parameters of one term too far apart")
            B = sum(self.Sj[j][np.ix_(idx, idx)] / np.abs(self.Sj[j]).max() for j in g)
            ev, U = np.linalg.eigh(B)
            if np.any((ev > ev[-1] * 1e-12) & (ev < ev[-1] * 1e-7)):
                raise Skip("rank of a penalty is not clear")
            U = U[:, ev > ev[-1] * 1e-9]
            r += U.shape[1]
            self.groups.append((g, idx, U))
        self.rank = r

    def logdet(self, phi):
        t = 0.0
        for g, idx, U in self.groups:
            M = U.T @ self.S[np.ix_(idx, idx)] @ U / phi
            d = 1 / np.sqrt(np.diag(M))
            s, l = np.linalg.slogdet(M * np.outer(d, d))
            t += l - 2 * np.log(d).sum()
        return t

    def pinv(self):
        P = np.zeros((self.p, self.p))
        for g, idx, U in self.groups:
            P[np.ix_(idx, idx)] = U @ np.linalg.inv(U.T @ self.S[np.ix_(idx, idx)] @ U) @ U.T
        return P


def logdet(A):
    d = 1 / np.sqrt(np.diag(A))
    s, l = np.linalg.slogdet(A * np.outer(d, d))
    if s <= 0:
        raise Skip("penalised Hessian not definite")
    return l - 2 * np.log(d).sum()


def reml_ref(llk, nH, beta, phi, P, keep):
    """nH: negative Hessian of the log-likelihood"""
    A = (nH + P.S / phi)[np.ix_(keep, keep)]
    if np.linalg.cond(A / np.sqrt(np.outer(np.diag(A), np.diag(A)))) > 1e10:
        raise Skip("penalised Hessian numerically singular")
    return llk - beta @ P.S @ beta / (2 * phi) + P.logdet(phi) / 2 - logdet(A) / 2 + (P.p - P.rank) * np.log(2 * np.pi) / 2


def f1(x):
    return float(np.asarray(x).ravel()[0])


# ------------------------------------------------------------------ models
@st.composite
def gcase(draw, fams=None, off=True, maxt=2, n=(60, 130)):
    c = draw(mfit.tame(irf=False, maxt=maxt, n=n))
    c["fam"] = draw(st.sampled_from(fams or mfit.FAMS))
    c["off"] = draw(st.sampled_from([None, None, None, "vec", "num"])) if off else None
    c["fit"] = {"method": draw(st.sampled_from(["QR", "Chol"])), "n_cores": 1}
    c["frozen"] = draw(st.sampled_from([None, [-1, 2], [-2, 3]]))
    c["tight"] = True
    return c


def gfit(c, cap=60, pen=True):
    if not mfit.capped(c, cap):
        raise Skip("too many columns")
    model, df = mfit.mk_gamm(c)
    C11.fit(c, model, df)
    if model.info.iter >= (40 if c["fam"] == "scat" else 200):
        raise Skip("not converged")
    if pen and not len(model.overall_penalties):
        raise Skip("no penalties")
    o = mfit.Oracle(model, c, df)
    if o.cond > 1e9:
        raise Skip("penalised Hessian numerically singular")
    if np.max(np.abs(o.eta)) > 15 and mfit.LINKS[c["fam"]] != "id":
        raise Skip("separated or overflowing data")
    return model, df, o


def c_reml(c):
    model, df, o = gfit(c, pen=False)
    P = Pen(model.overall_penalties, o.p)
    phi = float(model.scale)
    ll = mfit.loglik(c["fam"], o.y, o.mu, phi, o.theta)
    nH = -dense(model.hessian)
    want = reml_ref(ll, nH, o.beta, phi, P, o.keep)
    tol = 1e-6 * (abs(ll) + o.n)
    got = f1(model.get_reml())
    ok(abs(got - want) <= tol, "get_reml() = %r, Laplace-approximate marginal likelihood %r" % (got, want))
    # the function itself at other smoothing parameters, scales and coefficients
    from mssm.src.python.utils import REML
    r = np.random.default_rng(c["seed"] + 31)
    for _ in range(3):
        pens = copy.deepcopy(model.overall_penalties)
        for q in pens:
            q.lam = float(10 ** r.uniform(-2, 3))
        Q = Pen(pens, o.p)
        b = r.normal(size=o.p) * np.abs(o.beta).max()
        s = float(10 ** r.uniform(-1, 1))
        kk = None if len(o.drop) == 0 else o.keep
        ke = o.keep
        if len(ke) > 2 and r.random() < 0.4:
            # some coefficients are declared not identifiable
            ke = np.sort(r.choice(ke, size=len(ke) - int(r.integers(1, 3)), replace=False))
            kk = ke
        got = f1(REML(1.5, scp.sparse.csc_array(nH), b.reshape(-1, 1), s, pens, kk))
        want = reml_ref(1.5, nH, b, s, Q, ke)
        ok(abs(got - want) <= 1e-6 * (1 + abs(b @ Q.S @ b / s)) + 1e-7 * abs(want), "REML() = %r, expected %r (lambda %r, scale %r)" % (got, want, list(Q.lam), s))
    return {"nt": P.rank < sum(len(i) for _, i, _ in P.groups) or len(P.lam) > 1, "tags": [c["fam"]] + (["dropped"] if len(o.drop) else [])}


def c_cand(c):
    """Scores of other smoothing parameters than the fitted ones."""
    from mssm.src.python.utils import compute_reml_candidate_GAMM
    model, df, o = gfit(c)
    fam = c["fam"]
    r = np.random.default_rng(c["seed"] + 32)
    pens = copy.deepcopy(model.overall_penalties)
    for q in pens:
        q.lam = float(np.clip(q.lam, 1e-3, 1e4) * 10 ** r.uniform(-1, 1))
    P = Pen(pens, o.p)
    th0 = copy.deepcopy(getattr(model.family, "theta", None))
    lam_before = [q.lam for q in model.overall_penalties]
    orig = None
    if c["orig"]:
        orig = float(model.scale) if fam == "gauss" else -1 * model.hessian
    reml, Linv, LP, Pr, coef, scale, edf, llk = compute_reml_candidate_GAMM(
        model.family, model.get_ys(), model.get_mmat(), pens, 1, model.offset, None if not c["init"] else model.preds[0], c["meth"], True, orig)
    if not np.isfinite(reml) and len(o.drop):
        raise Skip("not identifiable without dropping coefficients")
    ok(np.isfinite(reml), "REML of a candidate is not finite")
    ok([q.lam for q in model.overall_penalties] == lam_before, "fitted smoothing parameters were changed")
    if th0 is not None:
        close(model.family.theta, th0, 0, 0, "theta of the family after scoring a candidate")
        return {"nt": False, "tags": ["theta re-estimated"]}
    b = np.asarray(coef).ravel()
    eta = o.X @ b + o.off
    if np.max(np.abs(eta)) > 15 and mfit.LINKS[fam] != "id":
        raise Skip("separated or overflowing data")
    g, w = mfit.score_w(fam, o.y, eta)
    XW = o.X.T @ (w[:, None] * o.X)
    A = XW + P.S
    dropped = np.where(np.abs(dense(Linv)).sum(axis=0) == 0)[0]
    keep = np.setdiff1d(np.arange(o.p), dropped)
    Ak = A[np.ix_(keep, keep)]
    if np.linalg.cond(Ak) > 1e9:
        raise Skip("penalised Hessian numerically singular")
    V = np.zeros((o.p, o.p))
    V[np.ix_(keep, keep)] = np.linalg.inv(Ak)
    gr = (o.X.T @ g - P.S @ b)[keep]
    gap = gr @ np.linalg.solve(Ak, gr)
    dev = float((g ** 2 / w).sum() + b @ P.S @ b)
    ok(gap <= 1e-6 * dev, "candidate coefficients are not the penalised estimate: Newton decrement %.3g of %.3g" % (gap, dev))
    XWk = XW.copy()
    XWk[dropped] = 0
    XWk[:, dropped] = 0
    e = float(np.trace(V @ XWk))
    phi = mfit.fixed_scale(fam) or float((g ** 2 / w).sum() / (o.n - e))
    ok(abs(scale - phi) <= 1e-4 * phi, "candidate scale %r, expected %r" % (scale, phi))
    Lv = dense(Linv)
    VV = Lv.T @ Lv
    cs = np.sqrt(np.diag(V)[keep])
    ok(np.max(np.abs((VV - V)[np.ix_(keep, keep)]) / np.outer(cs, cs)) <= 1e-3, "candidate covariance root")
    ll = mfit.loglik(fam, o.y, mfit.inv(fam, eta), phi)
    ok(abs(llk - ll) <= 1e-4 * (abs(ll) + o.n), "candidate log-likelihood %r, expected %r" % (llk, ll))
    we = e
    if orig is not None:
        we = float(np.trace(V @ -dense(model.hessian))) * phi if not (fam == "gauss" and len(o.drop)) else None
    if we is not None:
        ok(abs(edf - we) <= 1e-3 * max(1, we), "candidate edf %r, expected %r (external Hessian: %r)" % (edf, we, c["orig"]))
    want = reml_ref(ll, XWk / phi, b, phi, P, keep)
    ok(abs(f1(reml) - want) <= 1e-4 * (abs(ll) + o.n), "candidate REML %r, expected %r" % (f1(reml), want))
    return {"nt": True, "tags": [fam, c["meth"]] + (["dropped"] if len(dropped) else [])}


@st.composite
def g_cand(draw):
    c = draw(gcase())
    c["meth"] = draw(st.sampled_from(["Chol", "QR"]))
    c["orig"] = draw(st.booleans())
    c["init"] = draw(st.booleans())
    return c


# ------------------------------------------------------------------ corrections
def vp_ref(nH, S_phi_V, P, beta, phi, keep):
    """(d beta/d rho, Hessian of the PQL REML); nH negative Hessian of the log-likelihood, V its penalised inverse."""
    V = S_phi_V
    k = len(P.lam)
    dB = np.stack([-P.lam[j] / phi * V @ P.Sj[j] @ beta for j in range(k)], axis=1)
    Sm = P.pinv()
    H = np.zeros((k, k))
    for i in range(k):
        for j in range(k):
            t = -P.lam[i] / phi * beta @ P.Sj[i] @ dB[:, j]
            t += -0.5 * P.lam[i] * P.lam[j] * np.trace(Sm @ P.Sj[i] @ Sm @ P.Sj[j])
            t += 0.5 * P.lam[i] * P.lam[j] / phi ** 2 * np.trace(V @ P.Sj[i] @ V @ P.Sj[j])
            if i == j:
                t += -P.lam[i] / (2 * phi) * beta @ P.Sj[i] @ beta + 0.5 * P.lam[i] * np.trace(Sm @ P.Sj[i]) - 0.5 * P.lam[i] / phi * np.trace(V @ P.Sj[i])
            H[i, j] = t
    return dB, (H + H.T) / 2


def inv_plus(H, add):
    ev, U = np.linalg.eigh(-H)
    sc = np.abs(ev).max()
    if np.any(np.abs(ev) < 1e-4 * max(sc, 1e-2)):
        raise Skip("curvature of the REML criterion at zero")
    d = np.array([1 / (v + add) if v > 0 else 0.0 for v in ev])
    return (U * d) @ U.T, ev


def vcc_ref(nH, P, phi, Vpr):
    """sum_kl Vpr[k,l] d(R^-1)/drho_k d(R^-1)'/drho_l * phi with R'R = phi*nH + S, by central differences of R^-1."""
    k = len(P.lam)
    d = []
    for j in range(k):
        h = 1e-3
        f = lambda t: np.linalg.inv(scp.linalg.cholesky(nH * phi + P.S + (np.exp(t) - 1) * P.lam[j] * P.Sj[j]))
        d.append((8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h))
    return phi * sum(Vpr[i, j] * d[i] @ d[j].T for i in range(k) for j in range(k))


def ingredients(c, model, o=None, R=None):
    """(beta, nH, V, phi, P, keep, p)"""
    p = model.hessian.shape[0]
    beta = np.asarray(model.coef, float).ravel()
    phi = 1.0 if o is None else float(model.scale)
    nH = -dense(model.hessian)
    dr = model.info.dropped
    drop = np.array([], int) if dr is None else np.asarray(dr, int)
    keep = np.setdiff1d(np.arange(p), drop)
    P = Pen(model.overall_penalties, p)
    A = (nH + P.S / phi)[np.ix_(keep, keep)]
    ev = np.linalg.eigvalsh(A)
    if ev[0] < 1e-8 * ev[-1]:
        raise Skip("penalised Hessian numerically singular")
    V = np.zeros((p, p))
    V[np.ix_(keep, keep)] = np.linalg.inv(A)
    return beta, nH, V, phi, P, keep, drop, p


def check_jjj1(c, model, o, tags):
    from mssm.src.python.utils import correct_VB, estimateVp, compute_Vp_WPS
    beta, nH, V, phi, P, keep, drop, p = ingredients(c, model, o)
    dB, H = vp_ref(nH, V, P, beta, phi, keep)
    S_emb = scp.sparse.csc_array(P.S)
    vp, vpr, ri, rir, hp, db = compute_Vp_WPS(model.lvi, model.hessian, S_emb, model.overall_penalties, model.coef, phi, 1)
    sB = np.sqrt(np.diag(V)).max()
    close_norm(db, dB, 1e-4, "derivative of the coefficients by the log smoothing parameters", floor=1e-3 * sB)
    hs = max(np.abs(H).max(), 1e-2)
    close_norm(hp, H, 1e-4, "Hessian of the approximate REML criterion", floor=hs)
    Vp, ev = inv_plus(H, 0.0)
    Vpr, _ = inv_plus(H, 0.1)
    t = 1e-4 * max(1, max(1e-2, np.abs(ev).max()) / np.abs(ev).min())
    close_norm(vp, Vp, t, "covariance of the log smoothing parameters", floor=1e-3)
    close_norm(vpr, Vpr, t, "regularised covariance of the log smoothing parameters", floor=1e-3)
    close_norm(dense(ri).T @ dense(ri), Vp, t, "root of the covariance", floor=1e-3)
    close_norm(dense(rir).T @ dense(rir), Vpr, t, "root of the regularised covariance", floor=1e-3)
    e2 = estimateVp(model, grid_type="JJJ1", n_c=1)
    close_norm(e2[0], Vp, t, "estimateVp", floor=1e-3)
    close_norm(e2[1], Vpr, t, "estimateVp, regularised", floor=1e-3)
    close(np.asarray(e2[4]).ravel(), np.log(P.lam), 1e-9, 1e-9, "estimateVp: log smoothing parameters")
    lam0 = [q.lam for q in model.overall_penalties]
    edf0 = float(model.edf)
    vcc = len(drop) == 0
    res = correct_VB(model, grid_type="JJJ1", n_c=1, compute_Vcc=c["vcc"], form_t1=c["t1"])
    gV, gLV, gVp, gVpr, gedf, gtot, gedf2, gtot2, exp, mean = res
    ok([q.lam for q in model.overall_penalties] == lam0, "fitted smoothing parameters were changed")
    ok(exp is None and mean is None, "expected edf and mean coefficients are only for the sampling corrections")
    Vc = dB @ Vp @ dB.T
    Vcc = vcc_ref(nH, P, phi, Vpr) if (c["vcc"] and vcc) else np.zeros((p, p))
    Vt = V + Vc + Vcc
    if c["vcc"] and not vcc:
        # dropped coefficients: the second term may be zero; only the first is compared
        ok(np.linalg.eigvalsh(dense(gV) - V - Vc)[0] >= -1e-4 * np.abs(V).max(), "the correction adds a negative term")
        return tags + ["dropped"]
    cs = np.sqrt(np.diag(Vt))
    cs = np.where(cs > 0, cs, 1)
    d = np.abs(dense(gV) - Vt) / np.outer(cs, cs)
    ok(d.max() <= 10 * t + 1e-4, "corrected covariance is not Vb + dB Vp dB' + Vcc: relative difference %.3g" % d.max())
    if len(drop) == 0:
        L = dense(gLV)
        close_norm(L @ L.T, dense(gV), 1e-8, "Cholesky factor of the corrected covariance")
    check_edf(c, model, dense(gV), nH, V, gedf, gtot, gedf2, gtot2)
    return tags


def check_edf(c, model, gV, nH, V, gedf, gtot, gedf2, gtot2):
    Fm = gV @ nH
    uF = V @ nH
    up = 2 * np.diag(uF) - np.sum(uF * uF.T, axis=0)
    upt = 2 * float(model.edf) - np.sum(uF * uF.T)
    tot, e = np.trace(Fm), np.diag(Fm)
    if abs(tot - upt) < 1e-4 * abs(upt):
        return
    if tot > upt:
        tot, e = upt, up
    s = max(1, abs(tot))
    ok(abs(gtot - tot) <= 1e-3 * s, "corrected total edf %r, expected %r (upper bound %r)" % (gtot, tot, upt))
    close(np.asarray(gedf).ravel(), e, 0, 1e-3 * s, "corrected edf per coefficient")
    t2, e2 = upt, up
    if c["t1"]:
        t2 = t2 + tot - float(model.edf)
        e2 = e2 + e - np.diag(uF)
    ok(abs(gtot2 - t2) <= 1e-3 * s, "bias-corrected total edf %r, expected %r" % (gtot2, t2))
    close(np.asarray(gedf2).ravel(), e2, 0, 1e-3 * s, "bias-corrected edf per coefficient")


@st.composite
def g_corr(draw):
    c = draw(gcase())
    c["vcc"] = draw(st.sampled_from([True, True, False]))
    c["t1"] = draw(st.booleans())
    return c


def c_corr(c):
    model, df, o = gfit(c, 45)
    P = Pen(model.overall_penalties, o.p)
    tags = check_jjj1(c, model, o, [c["fam"]])
    return {"nt": len(P.lam) > 1 or P.rank < o.p, "tags": tags}


@st.composite
def g_ls(draw):
    c = draw(mls.mcase(["gau", "gau", "gam", "mul2", "mg1", "mg2", "cox", "w:gau"], maxt=2))
    c["fit"] = {"method": draw(st.sampled_from(["QR/Chol", "Chol"])), "n_cores": 1, "repara": draw(st.booleans())}
    c["frozen"] = draw(st.sampled_from([None, [-1, 2], [0, 1]]))
    c["vcc"] = draw(st.sampled_from([True, True, False]))
    c["t1"] = draw(st.booleans())
    return c


def c_ls(c):
    from mssm.src.python.utils import compute_REML_candidate_GSMM
    if mls.ncol(c) > 45:
        raise Skip("too many columns")
    model, df = mls.mk(c)
    C13.fit(c, model, conv_tol=1e-10)
    if model.info.iter >= 199:
        raise Skip("not converged")
    pens = model.overall_penalties
    if model.info.eps > 0:
        raise Skip("Hessian was modified")
    R = mls.Ref(c, model, df)
    b = np.asarray(model.coef, float).ravel()
    etas, ex = R.etas(b)
    if max(np.max(np.abs(e)) for e in etas) > 30:
        raise Skip("separated or overflowing data")
    beta, nH, V, phi, P, keep, drop, p = ingredients(c, model)
    if len(drop) and c["fit"]["repara"]:
        raise Skip("dropped coefficients after re-parameterising (known finding of C13)")
    ll = R.llk(b)
    want = reml_ref(ll, nH, b, 1.0, P, keep)
    got = f1(model.get_reml())
    ok(abs(got - want) <= 1e-6 * (abs(ll) + 100), "get_reml() = %r, Laplace-approximate marginal likelihood %r" % (got, want))
    if not len(pens):
        return {"nt": False, "tags": [c["fam"], "no penalties"]}
    tags = check_jjj1(c, model, None, [c["fam"]])
    # candidate at other smoothing parameters
    r = np.random.default_rng(c["seed"] + 33)
    cp = copy.deepcopy(pens)
    for q in cp:
        q.lam = float(np.clip(q.lam, 1e-3, 1e4) * 10 ** r.uniform(-0.7, 0.7))
    Q = Pen(cp, p)
    kd = None if len(drop) == 0 else (keep, drop)
    ys, Xs = model.get_ys(), model.get_mmat()
    reml, Vg, LV, coef, edf, llk = compute_REML_candidate_GSMM(model.family, ys, Xs, cp, copy.deepcopy(model.coef), p, model.coef_split_idx, "Chol", 1e-10, 1, {}, None, kd)
    ok(np.isfinite(reml), "REML of a candidate is not finite")
    bb = np.asarray(coef).ravel()
    ll2 = R.llk(bb)
    ok(abs(llk - ll2) <= 1e-6 * (abs(ll2) + 100), "candidate log-likelihood %r, expected %r" % (llk, ll2))
    H2 = -R.hess(bb)[0]
    g2 = R.grad(bb) - Q.S @ bb
    A2 = (H2 + Q.S)[np.ix_(keep, keep)]
    if np.linalg.eigvalsh(A2)[0] < 1e-8 * np.linalg.eigvalsh(A2)[-1]:
        raise Skip("penalised Hessian numerically singular")
    gap = g2[keep] @ np.linalg.solve(A2, g2[keep])
    ok(abs(gap) <= 1e-5 * (abs(ll2) + 100), "candidate coefficients are not the penalised estimate: Newton decrement %.3g" % gap)
    want = reml_ref(ll2, H2, bb, 1.0, Q, keep)
    ok(abs(f1(reml) - want) <= 1e-3 * (abs(ll2) + 100), "candidate REML %r, expected %r" % (f1(reml), want))
    V2 = np.zeros((p, p))
    V2[np.ix_(keep, keep)] = np.linalg.inv(A2)
    ok(abs(edf - np.trace(V2 @ H2)) <= 1e-2 * max(1, edf), "candidate edf %r, expected %r" % (edf, np.trace(V2 @ H2)))
    cs = np.sqrt(np.diag(V2)[keep])
    ok(np.max(np.abs((dense(Vg) - V2)[np.ix_(keep, keep)]) / np.outer(cs, cs)) <= 2e-2, "candidate covariance")
    return {"nt": len(P.lam) > 1 or P.rank < p, "tags": tags}


# ------------------------------------------------------------------ sampled corrections
@st.composite
def g_mc(draw):
    c = draw(gcase(["gauss", "gauss", "gauss", "pois", "gamma", "binom_n"], maxt=2, n=(60, 110)))
    c["frozen"] = draw(st.sampled_from([None, [-1, 2]]))
    c["grid"] = draw(st.sampled_from(["JJJ2", "JJJ3"]))
    c["nR"] = draw(st.sampled_from([3, 1, 8, 12]))
    c["df"] = draw(st.sampled_from([40, 10]))
    c["w"] = draw(st.booleans())
    c["prior"] = draw(st.sampled_from([None, None, "mv", "cent"]))
    c["only"] = draw(st.booleans())
    c["rs"] = draw(st.integers(0, 1000))
    c["cores"] = draw(st.sampled_from([1, 1, 1, 2]))
    c["t1"] = draw(st.booleans())
    return c


def prior_ref(kind, rho, mrho):
    if kind == "mv":
        a, b = np.log(1e-5), np.log(1e6)
        ld = np.full(len(rho), -rho.shape[1] * np.log(b - a))
        return np.where(np.any((rho < a) | (rho > b), axis=1), -np.inf, ld)
    lo, hi = np.maximum(mrho - 2, np.log(1e-7)), np.minimum(mrho + 2, np.log(1e7))
    ld = np.full(len(rho), -np.log(hi - lo).sum())
    return np.where(np.any((rho < lo) | (rho > hi), axis=1), -np.inf, ld)


def solve(o, fam, P, b0):
    """penalised estimate by damped Newton; returns beta, V (unscaled), XWX, phi, llk"""
    b = b0.copy()

    def dev(b):
        return -2 * mfit.loglik(fam, o.y, mfit.inv(fam, o.X @ b + o.off), 1.0) + b @ P.S @ b

    for it in range(200):
        g, w = mfit.score_w(fam, o.y, o.X @ b + o.off)
        XW = o.X.T @ (w[:, None] * o.X)
        A = XW + P.S
        gr = o.X.T @ g - P.S @ b
        st_ = np.linalg.solve(A, gr)
        if gr @ st_ < 1e-13 * (abs(b @ A @ b) + 1):
            break
        if fam == "gauss":
            b = b + st_
            continue
        t, d0 = 1.0, dev(b)
        while not dev(b + t * st_) <= d0 + 1e-12 * abs(d0) and t > 1e-8:
            t /= 2
        b = b + t * st_
    eta = o.X @ b + o.off
    g, w = mfit.score_w(fam, o.y, eta)
    XW = o.X.T @ (w[:, None] * o.X)
    A = XW + P.S
    if np.linalg.cond(A) > 1e9:
        raise Skip("penalised Hessian numerically singular")
    V = np.linalg.inv(A)
    phi = mfit.fixed_scale(fam) or float((g ** 2 / w).sum() / (o.n - np.trace(V @ XW)))
    return b, V, XW, phi, mfit.loglik(fam, o.y, mfit.inv(fam, eta), phi)


def c_mc(c):
    from mssm.src.python.utils import correct_VB, MVUniformRhoPrior, CenteredUniformRhoPriors
    model, df, o = gfit(c, 30)
    fam = c["fam"]
    if len(o.drop):
        raise Skip("dropped coefficients")
    beta, nH, V, phi, P, keep, drop, p = ingredients(c, model, o)
    dB, H = vp_ref(nH, V, P, beta, phi, keep)
    Vp, ev = inv_plus(H, 0.0)
    Vpr, _ = inv_plus(H, 0.1)
    if np.linalg.eigvalsh(Vpr)[0] <= 1e-6:
        raise Skip("proposal covariance singular")
    mrho = np.log(np.clip(P.lam, 1e-7, 1e7))
    pr = {None: None, "mv": MVUniformRhoPrior(np.log(1e-5), np.log(1e6)), "cent": CenteredUniformRhoPriors(mrho)}[c["prior"]]
    kw = dict(nR=c["nR"], grid_type=c["grid"], df=c["df"], use_importance_weights=c["w"], prior=pr, seed=c["rs"], only_expected_edf=c["only"], form_t1=c["t1"])
    # the candidates: what the code draws with its own (verified) proposal covariance
    from mssm.src.python.utils import compute_Vp_WPS
    cVpr = compute_Vp_WPS(model.lvi, model.hessian, scp.sparse.csc_array(P.S), model.overall_penalties, model.coef, phi, 1)[1]
    close_norm(cVpr, Vpr, 1e-4 * max(1, max(1e-2, np.abs(ev).max()) / np.abs(ev).min()), "proposal covariance", floor=1e-3)
    smp = np.exp(ss.multivariate_t.rvs(loc=mrho, shape=cVpr, df=c["df"], size=c["nR"], random_state=c["rs"])).reshape(c["nR"], -1)
    md = 0.1 * np.sqrt(np.diag(cVpr)).min()
    if not np.any(np.max(np.abs(smp - P.lam), axis=1) < md):
        smp = np.vstack([P.lam, smp])
    if smp.max() > 1e6 or smp.min() < 1e-6:
        raise Skip("extreme candidates")
    rows = []
    for lam in smp:
        Q = Pen(model.overall_penalties, p, lam)
        b, Vr, XW, ph, ll = solve(o, fam, Q, o.beta)
        if np.max(np.abs(o.X @ b + o.off)) > 15 and mfit.LINKS[fam] != "id":
            raise Skip("separated or overflowing data")
        rows.append((b, Vr * ph, reml_ref(ll, XW / ph, b, ph, Q, keep), ph))
    rem = np.array([x[2] for x in rows])
    if c["w"] and c["prior"] is not None:
        lp = prior_ref(c["prior"], np.log(smp), mrho)
        if np.any(np.abs(np.log(smp) - mrho).max(axis=1) == 2):
            raise Skip("boundary")
        lw = rem + lp - ss.multivariate_t.logpdf(np.log(smp), mrho, cVpr, c["df"]).reshape(-1)
    elif c["w"]:
        lw = rem
    else:
        lw = np.zeros(len(rem))
    if not np.any(np.isfinite(lw)):
        raise Skip("no candidate inside the prior")
    ws = np.exp(lw - lw.max())
    ws /= ws.sum()
    EV = sum(w * x[1] for w, x in zip(ws, rows))
    EB = sum(w * x[0] for w, x in zip(ws, rows))
    EBB = sum(w * np.outer(x[0], x[0]) for w, x in zip(ws, rows))
    Vc = dB @ Vp @ dB.T
    edf0 = float(model.edf)
    for nc in ([1] if c["cores"] == 1 else [1, 2]):
        res = correct_VB(model, n_c=nc, **kw)
        what = "%s, %d process(es): " % (c["grid"], nc)
        if c["only"]:
            ok(all(x is None for x in res[:8]), what + "only the expected edf is computed")
            e = max(edf0, sum(w * np.trace(x[1] @ nH) for w, x in zip(ws, rows)))
            t2 = np.trace(Vc @ nH)
            if c["grid"] == "JJJ3":
                t2 = max(t2, np.trace((EBB - np.outer(EB, EB)) @ nH))
            ok(abs(res[8] - (e + t2)) <= 2e-3 * max(1, e + t2), what + "expected edf %r, expected %r" % (res[8], e + t2))
            continue
        if c["grid"] == "JJJ2":
            base = EV
            tr = np.trace(EV @ nH)
            if abs(tr - edf0) < 1e-5 * edf0:
                return {"nt": False, "tags": ["bound undecided"]}
            if tr < edf0:
                base = V
            want = base + Vc
        else:
            want = EV + EBB - np.outer(EB, EB)
            lb = V + Vc + vcc_ref(nH, P, phi, Vpr)
            a, b = np.trace(lb @ nH), np.trace(want @ nH)
            if abs(a - b) < 1e-4 * a:
                return {"nt": False, "tags": ["bound undecided"]}
            if a > b:
                want = lb
        cs = np.sqrt(np.diag(want))
        d = np.abs(dense(res[0]) - want) / np.outer(cs, cs)
        ok(d.max() <= 5e-3, what + "covariance of the marginal posterior differs by %.3g (relative)" % d.max())
        check_edf(c, model, dense(res[0]), nH, V, *res[4:8])
    return {"nt": True, "tags": [fam, c["grid"], "prior=%s" % c["prior"], "weights=%s" % c["w"], "only" if c["only"] else "V", "cores=%d" % c["cores"]]}


# ------------------------------------------------------------------ priors
@st.composite
def g_prior(draw):
    a = draw(st.floats(-20, 15, allow_nan=False))
    k = draw(st.integers(1, 4))
    return {"a": a, "w": draw(st.floats(0.5, 30, allow_nan=False)), "c": draw(st.sampled_from([0.5, 2.0, 6.0])), "k": k,
            "n": draw(st.integers(1, 6)), "seed": draw(SEED)}


def c_prior(c):
    from mssm.src.python.utils import MVUniformRhoPrior, CenteredUniformRhoPriors
    r = np.random.default_rng(c["seed"])
    a, b = c["a"], c["a"] + c["w"]
    rho = r.uniform(a - 0.2 * c["w"], b + 0.2 * c["w"], (c["n"], c["k"]))
    rho[0] = np.clip(rho[0], a + 1e-6, b - 1e-6)
    m = r.uniform(a, b, c["k"])
    lo, hi = np.maximum(m - c["c"], a), np.minimum(m + c["c"], b)
    for name, pr, l, h in (("MVUniformRhoPrior", MVUniformRhoPrior(a, b), np.full(c["k"], a), np.full(c["k"], b)),
                           ("CenteredUniformRhoPriors", CenteredUniformRhoPriors(m, a, b, c["c"]), lo, hi)):
        inside = np.all((rho >= l) & (rho <= h), axis=1)
        want = np.where(inside, -np.log(h - l).sum(), -np.inf)
        cp = rho.copy()
        close(pr.logpdf(rho), want, 1e-10, 1e-10, name + ".logpdf")
        v = pr.make_valid(rho)
        close(rho, cp, 0, 0, name + ": argument unchanged")
        ok(np.all(np.isfinite(pr.logpdf(v))), name + ".make_valid leaves candidates outside the prior limits [%r, %r]: %r" % (l, h, v))
        el = (rho >= l) & (rho <= h)
        close(v[el], rho[el], 0, 0, name + ".make_valid changes valid entries")
        shape(pr.dlpdrho(rho), rho.shape, name + ".dlpdrho")
        ok(np.all(np.asarray(pr.dlpdrho(rho)) == 0), name + ": a uniform density has zero derivative")
    return {"nt": c["k"] > 1}


SUBS = [
    Sub("reml", gcase(), c_reml, 110, 2500),
    Sub("candidate", g_cand(), c_cand, 90, 2500),
    Sub("corr", g_corr(), c_corr, 90, 2500),
    Sub("ls", g_ls(), c_ls, 50, 1200),
    Sub("mc", g_mc(), c_mc, 60, 1500),
    Sub("priors", g_prior(), c_prior, 800, 20000),
]
