"""C22: compare_CDL."""
import copy
import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st
from vp import fgen, mfit, mls
from vp.core import Sub, Skip
from vp.util import close, ok, dense
from vp.props import C11, C13

PROPERTY = "C22"
RULE = ("Cases: pairs of nested models (one with at least one more term, also models without penalties) of one family fitted to the same data - GAMMs of all families, "
        "GAMMLSS and general smooth models - compared under generated options (corrections of the edf, GLRT, grid, alpha, order of the models). Oracle: every reported "
        "number recomputed from the two fits (likelihood from the densities, edf from dense covariance and Hessian or the correction, p-value from scipy), plus "
        "antisymmetry, repetition, self-comparison. Non-trivial: the models differ in likelihood and edf.")
ASSUME = ["the smoothness-uncertainty corrected edf are those of correct_VB (decided by C21)"]


@st.composite
def opts(draw, gamm):
    grid = draw(st.sampled_from([None, None, "JJJ1", "JJJ1", "JJJ2", "JJJ3"] if gamm else [None, "JJJ1"]))
    o = {"correct_V": draw(st.booleans()), "correct_t1": draw(st.sampled_from([None, None, True, False])), "perform_GLRT": draw(st.booleans()),
         "alpha": draw(st.sampled_from([0.05, 0.3])), "grid": grid, "seed": draw(st.integers(0, 50)), "nR": draw(st.sampled_from([3, 6])),
         "compute_Vcc": draw(st.sampled_from([None, False])), "n_c": 1}
    if grid in ("JJJ2", "JJJ3"):
        o["use_importance_weights"] = draw(st.sampled_from([None, True, False]))
        o["recompute_H"] = draw(st.sampled_from([None, False]))
        if not o["perform_GLRT"] and not o["correct_t1"]:
            o["only_expected_edf"] = draw(st.sampled_from([None, True]))
    return o


@st.composite
def g_gamm(draw):
    c = draw(mfit.tame(irf=False, maxt=3, n=(70, 140), na=False))
    c["fam"] = draw(st.sampled_from(mfit.FAMS))
    c["off"] = draw(st.sampled_from([None, None, None, "num"]))
    c["fit"] = {"method": draw(st.sampled_from(["QR", "Chol"])), "n_cores": 1}
    c["frozen"] = None
    c["tight"] = True
    c["cut"] = draw(st.integers(1, 3))
    c["flip"] = draw(st.sampled_from([False, False, True]))
    c["o"] = draw(opts(True))
    c["alt"] = draw(st.booleans())    # the second model has the other terms instead
    if c["alt"]:
        c["flip"] = False
        c["o"]["perform_GLRT"] = True
        c["o"].pop("only_expected_edf", None)
    return c


@st.composite
def g_ls(draw):
    c = draw(mls.mcase(["gau", "gau", "gam", "mul2", "mg1", "cox"], maxt=2))
    c["na"] = 0
    c["fit"] = {"method": draw(st.sampled_from(["QR/Chol", "Chol"])), "n_cores": 1, "repara": False}
    c["frozen"] = None
    c["cut"] = draw(st.integers(1, 2))
    c["flip"] = draw(st.sampled_from([False, False, True]))
    c["o"] = draw(opts(False))
    return c


def simpler(terms, cut):
    """drop the last `cut` terms that are not the intercept"""
    out = list(terms)
    k = 0
    for t in terms[::-1]:
        if t["t"] != "i" and k < cut:
            out.remove(t)
            k += 1
    return out


def defaults(o, fam_gauss, ncoef):
    o = dict(o)
    if o["correct_t1"] is None:
        o["correct_t1"] = o["perform_GLRT"]
    if o["grid"] is None:
        o["grid"] = "JJJ1"
    if o.get("only_expected_edf") is None:
        o["only_expected_edf"] = False
    if o["compute_Vcc"] is None:
        o["compute_Vcc"] = True
    for k in ("use_importance_weights", "recompute_H"):
        if o.get(k) is None:
            o[k] = not (o["grid"] == "JJJ1" or fam_gauss)
    return o


def dofs(model, o, extra):
    """(edf for the AIC, edf for the test)"""
    from mssm.src.python.utils import correct_VB
    V = dense(model.lvi)
    V = V.T @ V * float(getattr(model, "scale", 1) or 1)
    Fm = V @ -dense(model.hessian)
    e = float(model.edf)
    if o["correct_V"] and len(model.overall_penalties):
        r = correct_VB(model, nR=o["nR"], n_c=1, form_t1=o["correct_t1"], grid_type=o["grid"], method="Chol", only_expected_edf=o["only_expected_edf"],
                       use_importance_weights=o["use_importance_weights"], recompute_H=o["recompute_H"], compute_Vcc=o["compute_Vcc"], seed=o["seed"])
        a = r[8] if o["only_expected_edf"] else r[5]
        t = r[7] if o["correct_t1"] else a
    else:
        a = e
        t = 2 * e - np.sum(Fm * Fm.T) if o["correct_t1"] else e
    return float(a) + extra, float(t) + extra


def snap(m):
    return [np.array(m.coef, float).copy(), np.array([q.lam for q in m.overall_penalties]), float(m.edf), dense(m.lvi).copy(), dense(m.hessian).copy(),
            np.array(getattr(m.family, "theta", []), float).copy() if getattr(m.family, "theta", None) is not None else np.zeros(0)]


def compare(c, m1, m2, ll, extra, gauss, two, n):
    from mssm.src.python.compare import compare_CDL
    o = c["o"]
    before = [snap(m1), snap(m2)]
    kw = dict(o)
    if o["perform_GLRT"] and len(m1.coef) < len(m2.coef):
        try:
            compare_CDL(m1, m2, **kw)
        except ValueError:
            return ["refused"], False
        ok(False, "a test with the simpler model first is not refused")
    res = compare_CDL(m1, m2, **kw)
    d = defaults(o, gauss, len(m1.coef))
    (a1, t1), (a2, t2) = dofs(m1, d, extra[0]), dofs(m2, d, extra[1])
    l1, l2 = ll
    lt = 1e-7 * (abs(l1) + n)
    ok(abs(res["test_stat"] - 2 * (l1 - l2)) <= 4 * lt, "test_stat %r, twice the difference of the log-likelihoods is %r" % (res["test_stat"], 2 * (l1 - l2)))
    for k, w in (("DOF1", t1), ("DOF2", t2), ("Res. DOF", t1 - t2)):
        ok(abs(res[k] - w) <= (1e-7 if len(m1.overall_penalties) and len(m2.overall_penalties) else 1e-4) * max(1, abs(t1)), "%s %r, expected %r" % (k, res[k], w))
    if d["correct_t1"]:
        for k, w in (("DOF12", a1), ("DOF22", a2)):
            ok(abs(res[k] - w) <= 1e-7 * max(1, abs(a1)), "%s %r, expected %r" % (k, res[k], w))
    A1, A2 = -2 * l1 + 2 * a1, -2 * l2 + 2 * a2
    for k, w in (("aic1", A1), ("aic2", A2), ("aic_diff", A1 - A2)):
        ok(abs(res[k] - w) <= 5 * lt + 1e-6 * max(1, abs(a1)), "%s %r, expected %r" % (k, res[k], w))
    tags = []
    st_, dd = 2 * (l1 - l2), t1 - t2
    if abs(st_) > 10 * lt and abs(dd) > 1e-3:
        val = -st_ if (st_ < 0 and dd < 0) else st_
        if not o["perform_GLRT"] or val < 0:
            ok(np.isnan(res["p"]) and np.isnan(res["H1"]), "p-value %r without a test" % res["p"])
            tags.append("no test" if not o["perform_GLRT"] else "negative statistic")
        else:
            p = ss.f.sf(val / abs(dd), abs(dd), n - max(t1, t2)) if two else ss.chi2.sf(val, abs(dd))
            ok(abs(res["p"] - p) <= 1e-5, "p-value %r, expected %r" % (res["p"], p))
            if abs(p - o["alpha"]) > 1e-4:
                ok(bool(res["H1"]) == (p <= o["alpha"]), "H1 %r with p-value %r and alpha %r" % (res["H1"], p, o["alpha"]))
            tags.append("F" if two else "chi2")
    # the models are not changed; a repetition gives the same result, the reversed comparison the negative
    for b, m in zip(before, (m1, m2)):
        for x, y, w in zip(b, snap(m), ("coef", "lambda", "edf", "lvi", "hessian", "theta")):
            close(y, x, 0, 0, "%s of a compared model was changed" % w)
    rep = compare_CDL(m1, m2, **kw)
    for k in res:
        ok(rep[k] == res[k] or (rep[k] is not None and abs(float(rep[k]) - float(res[k])) <= 1e-9 * max(1, abs(float(res[k])))) or np.isnan(float(res[k])),
           "repeating the comparison changes %s: %r, then %r" % (k, res[k], rep[k]))
    if not o["perform_GLRT"]:
        rev = compare_CDL(m2, m1, **dict(kw, **{k: d[k] for k in ("grid", "correct_t1", "compute_Vcc", "use_importance_weights", "recompute_H", "only_expected_edf")}))
        for k, w in (("test_stat", -res["test_stat"]), ("Res. DOF", -res["Res. DOF"]), ("aic_diff", -res["aic_diff"]), ("aic1", res["aic2"]), ("DOF1", res["DOF2"])):
            ok(abs(rev[k] - w) <= 1e-7 * max(1, abs(w)), "reversed comparison: %s %r, expected %r" % (k, rev[k], w))
    return tags, True


def c_gamm(c):
    if not mfit.capped(c, 40):
        raise Skip("too many columns")
    small = simpler(c["terms"], c["cut"])
    if not small:
        raise Skip("no simpler model")
    df = mfit.data(c)
    ms, ll, ex = [], [], []
    big = c["terms"]
    if c.get("alt"):
        one = [t for t in big if t["t"] == "i" or t not in small]
        if len(small) > sum(t["t"] == "i" for t in big):
            big, small = small, one
            if fgen.ncols(dict(c, terms=big)) < fgen.ncols(dict(c, terms=small)):
                big, small = small, big
    for terms in (big, small):
        cc = dict(c, terms=terms)
        m, _ = mfit.mk_gamm(cc, df)
        C11.fit(cc, m, df)
        if m.info.iter >= (40 if c["fam"] == "scat" else 200):
            raise Skip("not converged")
        o = mfit.Oracle(m, cc, df)
        if o.cond > 1e9 or len(o.drop):
            raise Skip("penalised Hessian numerically singular")
        if np.max(np.abs(o.eta)) > 15 and mfit.LINKS[c["fam"]] != "id":
            raise Skip("separated or overflowing data")
        if len(m.overall_penalties) and max(q.lam for q in m.overall_penalties) / min(q.lam for q in m.overall_penalties) > 1e8:
            raise Skip("extreme smoothing parameters")
        ms.append(m)
        ll.append(mfit.loglik(c["fam"], o.y, o.mu, float(m.scale), o.theta))
        ex.append((1.0 if m.family.twopar else 0.0) + (len(m.family.theta) if c["fam"] == "scat" else 0.0))
    if c["flip"]:
        ms, ll, ex = ms[::-1], ll[::-1], ex[::-1]
    tags, nt = compare(c, ms[0], ms[1], ll, ex, c["fam"] == "gauss", bool(ms[0].family.twopar), o.n)
    return {"nt": nt, "tags": [c["fam"], "V=%s" % c["o"]["correct_V"], "grid=%s" % c["o"]["grid"]] + tags + (["unpenalised"] if not all(len(m.overall_penalties) for m in ms) else [])}


def c_ls(c):
    if mls.ncol(c) > 40:
        raise Skip("too many columns")
    df = None
    ms, ll = [], []
    f0 = simpler(c["forms"][0], c["cut"])
    if not f0 or f0 == c["forms"][0]:
        raise Skip("no simpler model")
    for forms in (c["forms"], [f0] + c["forms"][1:]):
        cc = dict(c, forms=forms)
        m, d = mls.mk(cc, df)
        df = d
        C13.fit(cc, m, conv_tol=1e-10)
        if m.info.iter >= 199 or m.info.eps > 0 or m.info.dropped is not None and len(m.info.dropped):
            raise Skip("not converged")
        R = mls.Ref(cc, m, d)
        b = np.asarray(m.coef, float).ravel()
        if max(np.max(np.abs(e)) for e in R.etas(b)[0]) > 30:
            raise Skip("separated or overflowing data")
        A = -dense(m.hessian) + sum((q.lam * dense(q.S_J_emb) for q in m.overall_penalties), np.zeros(m.hessian.shape))
        ev = np.linalg.eigvalsh(A)
        if ev[0] < 1e-8 * ev[-1]:
            raise Skip("penalised Hessian numerically singular")
        ms.append(m)
        ll.append(R.llk(b))
    if c["flip"]:
        ms, ll = ms[::-1], ll[::-1]
    tags, nt = compare(c, ms[0], ms[1], ll, [0.0, 0.0], False, False, len(df))
    return {"nt": nt, "tags": [c["fam"], "V=%s" % c["o"]["correct_V"]] + tags + (["unpenalised"] if not all(len(m.overall_penalties) for m in ms) else [])}


SUBS = [
    Sub("gamm", g_gamm(), c_gamm, 170, 3500),
    Sub("ls", g_ls(), c_ls, 50, 1200),
]
