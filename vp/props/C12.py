"""C12: the same model fitted by another route gives the same answer."""
import numpy as np
from hypothesis import strategies as st
from vp import fgen, mfit, mls
from vp.core import Sub, Skip
from vp.util import close, ok, dense
from vp.props import C11, C13

PROPERTY = "C12"
RULE = ("Cases: a generated model and data set fitted twice, once with reference options and once by another route (solver, cores, row order, order of "
        "terms, re-parameterisation, gradient prefit, or written as GAMM / GAMMLSS / GSMM). Oracle: the two fits agree in linear predictors, prediction "
        "variances, likelihood, edf, scale. Non-trivial: both fits converge and at least one penalty is present.")
ASSUME = ["fits whose penalised Hessian is numerically singular are skipped"]


def pvar(model, Xs):
    """Variance of the linear predictor of each distribution parameter."""
    V = dense(model.lvi)
    V = V.T @ V * float(getattr(model, "scale", 1) or 1)
    out, at = [], 0
    for X in Xs:
        p = X.shape[1]
        out.append(np.einsum("ij,jk,ik->i", X, V[at:at + p, at:at + p], X))
        at += p
    return out


def summary(model, perm=None, nh=False):
    """What is compared; rows back in the order of the original data."""
    from mssm.src.python.formula import build_model_matrix
    Xs = [dense(build_model_matrix(F)) for F in model.formulas]
    etas = [np.asarray(e, float).ravel() for e in model.preds]
    var = None if nh else pvar(model, Xs)
    if perm is not None:
        inv = np.argsort(perm)
        etas = [e[inv] for e in etas]
        var = None if nh else [v[inv] for v in var]
    return {"etas": etas, "var": var, "edf": float(model.edf), "llk": float(np.asarray(model.get_llk(False)).ravel()[0]),
            "pen": float(np.asarray(model.penalty).ravel()[0]), "scale": float(getattr(model, "scale", 1) or 1),
            "lam": np.array([q.lam for q in model.overall_penalties])}


def same(a, b, tol, what, edf=True, var=True, scale=True, vtol=None):
    n = len(a["etas"][0])
    vtol = tol if vtol is None else vtol
    for j, (x, y) in enumerate(zip(a["etas"], b["etas"])):
        close(y, x, 0, tol * (np.max(np.abs(x)) + 0.1), "%s: linear predictor %d" % (what, j))
    ok(abs(a["llk"] - b["llk"]) <= tol * max(n, abs(a["llk"])), "%s: log-likelihood %r and %r" % (what, a["llk"], b["llk"]))
    if edf:
        ok(abs(a["edf"] - b["edf"]) <= vtol * max(1, a["edf"]), "%s: edf %r and %r" % (what, a["edf"], b["edf"]))
    if scale:
        ok(abs(a["scale"] - b["scale"]) <= vtol * a["scale"], "%s: scale %r and %r" % (what, a["scale"], b["scale"]))
        ok(abs(a["pen"] - b["pen"]) <= vtol * max(a["pen"], n * a["scale"]), "%s: penalty %r and %r" % (what, a["pen"], b["pen"]))
    if var:
        for j, (x, y) in enumerate(zip(a["var"], b["var"])):
            close(y, x, vtol, vtol * np.max(x), "%s: variance of linear predictor %d" % (what, j))


def rot(terms):
    """Terms with one penalty per null-space dimension after re-parameterising: the null-space basis depends on the order of the rows."""
    return any((t["t"] == "fs" and t["m"] > 1) or (t["t"] == "f" and t.get("null") and t.get("rp")) for t in terms)


# ------------------------------------------------------------------ GAMM: solver, cores, order
@st.composite
def gcase(draw):
    c = draw(mfit.tame(na=True))
    c["fam"] = draw(st.sampled_from(["gauss", "gauss", "gauss", "binom", "gamma", "pois", "invgauss", "gauss_log"]))
    c["off"] = draw(st.sampled_from([None, None, None, "num"]))
    c["fit"] = {"method": "QR", "n_cores": 1, "control_lambda": draw(st.sampled_from([2, 2, 1])), "extend_lambda": draw(st.sampled_from([False, False, True]))}
    c["frozen"] = draw(st.sampled_from([None, [-1, 3]]))
    c["tight"] = True
    c["route"] = draw(st.sampled_from(["chol", "cores", "rows", "terms", "chol+rows", "restart", "n5"]))
    return c


def conv(model, lim=199):
    if model.info.iter >= lim:
        raise Skip("not converged")


def gamm(c):
    if not mfit.capped(c, 90):
        raise Skip("too many columns")
    if c["frozen"] and "terms" in c["route"]:
        c = dict(c, route="rows")
    if "rows" in c["route"] and rot(c["terms"]):
        c = dict(c, route="chol")
    df = mfit.data(c)
    model, _ = mfit.mk_gamm(c, df)
    C11.fit(c, model, df)
    conv(model)
    o = mfit.Oracle(model, c, df)
    if o.cond > 1e8 or len(o.drop):
        raise Skip("penalised Hessian numerically singular")
    if np.max(np.abs(o.eta)) > 12 and mfit.LINKS[c["fam"]] != "id":
        raise Skip("separated or overflowing data")
    a = summary(model)
    r = c["route"]
    c2, df2, perm = c, df, None
    kw = {}
    if "chol" in r:
        kw["method"] = "Chol"
    if r == "cores":
        kw["n_cores"] = 3
    if "rows" in r:
        perm = np.random.default_rng(c["seed"] + 31).permutation(len(df))
        df2 = df.iloc[perm]
        if not c["index"]:
            df2 = df2.reset_index(drop=True)
        k = np.asarray(model.formulas[0].NOT_NA_flat).ravel().astype(bool)
        kk = np.where(k)[0]
        pos = {v: i for i, v in enumerate(kk)}
        perm = np.array([pos[v] for v in perm if k[v]])
    if r == "terms":
        c2 = dict(c, terms=c["terms"][::-1])
    if r == "restart":
        # a second fit of the same object starting at the first one's smoothing parameters and coefficients
        m2 = model
        C11.fit(c, m2, df, **({} if c["frozen"] else {"restart": True}))
    elif r == "n5":
        # a fit with the data in float32-exact integers scaled is another model: here the same call twice
        m2, _ = mfit.mk_gamm(c, mfit.data(c))
        C11.fit(c, m2, df)
    else:
        m2, _ = mfit.mk_gamm(c2, df2)
        C11.fit(c2, m2, df2, **kw)
    conv(m2)
    b = summary(m2, perm)
    exact = c["fam"] == "gauss" and c["frozen"]
    if c["frozen"]:
        tol = max(1e-7, 1e-13 * o.cond) if exact else 2e-4
    else:
        tol = 2e-3
    if r in ("n5",):
        tol = 1e-9
    if r == "restart" and not c["frozen"]:
        tol = 1e-2
    # the criterion can be flat: smoothing parameters at the boundary barely identify the fit
    if not c["frozen"] and r != "n5":
        g1, g2 = reml_gap(o, model), 0
        if g1:
            raise Skip("flat smoothing criterion")
    same(a, b, tol, r)
    return {"nt": len(a["lam"]) > 0, "tags": [r, c["fam"]] + (["frozen"] if c["frozen"] else [])}


def reml_gap(o, model):
    """Whether some smoothing parameter sits on a plateau (term all but removed or all but unpenalised)."""
    for q in model.overall_penalties:
        S = dense(q.S_J_emb)
        tv = q.lam * float(np.trace(o.V @ S))
        rk = float(np.linalg.matrix_rank(S))
        if tv > 0.97 * rk or tv < 0.02 * rk:
            return True
    return False


# ------------------------------------------------------------------ GAMMLSS / GSMM options
@st.composite
def lcase(draw, fams):
    c = draw(mls.mcase(fams))
    c["fit"] = {"method": "QR/Chol", "n_cores": 1, "control_lambda": draw(st.sampled_from([2, 2, 1])),
                "extend_lambda": False, "prefit_grad": True, "repara": False, "should_keep_drop": True, "check_cond": 1}
    c["frozen"] = draw(st.sampled_from([[-1, 2], [-1, 2], None]))
    c["route"] = draw(st.sampled_from(["repara", "noprefit", "chol", "lu", "direct", "rows", "cores", "all"]))
    return c


ROUTE = {"repara": {"repara": True}, "noprefit": {"prefit_grad": False}, "chol": {"method": "Chol"}, "lu": {"method": "LU/Chol"},
         "direct": {"method": "Direct/Chol"}, "cores": {"n_cores": 3}, "rows": {},
         "all": {"method": "Chol", "repara": True, "prefit_grad": False, "n_cores": 2, "check_cond": 0}}


def fit2(c, model, **kw):
    C13.fit(c, model, **kw)
    conv(model, 199)
    if model.info.dropped is not None and len(model.info.dropped):
        raise Skip("coefficients dropped")
    if model.info.eps > 0:
        raise Skip("perturbed Hessian")
    return model


def well(model, R):
    b = np.asarray(model.coef, float).ravel()
    if max(np.max(np.abs(e)) for e in R.etas(b)[0]) > 12:
        raise Skip("separated or overflowing data")
    p = R.tot
    A = mfit.tot_pen(model.overall_penalties, p) - dense(model.hessian)
    d = 1 / np.sqrt(np.maximum(np.diag(A), 1e-300))
    ev = np.linalg.eigvalsh(d[:, None] * A * d[None, :])
    if ev[0] < 1e-7 * ev[-1]:
        raise Skip("penalised Hessian numerically singular")
    g = R.grad(b) - mfit.tot_pen(model.overall_penalties, p) @ b
    gap = abs(float(g @ np.linalg.solve(A, g)))
    o = type("O", (), {})()
    o.V, o.gap = np.linalg.inv(A), gap
    return o


def plateau(o, model):
    return reml_gap(o, model)


def lss(c):
    if mls.ncol(c) > 60:
        raise Skip("too many columns")
    if c["route"] == "rows" and (c["fam"] == "cox" or any(rot(f) for f in c["forms"])):
        c = dict(c, route="repara")
    model, df = mls.mk(c)
    fit2(c, model)
    R = mls.Ref(c, model, df)
    o = well(model, R)
    perm, df2 = None, df
    if c["route"] == "rows":
        perm = np.random.default_rng(c["seed"] + 31).permutation(len(df))
        df2 = df.iloc[perm].reset_index(drop=True)
        k = np.asarray(model.formulas[0].NOT_NA_flat).ravel().astype(bool)
        pos = {v: i for i, v in enumerate(np.where(k)[0])}
        perm = np.array([pos[v] for v in perm if k[v]])
    m2, _ = mls.mk(c, df2)
    fit2(c, m2, **ROUTE[c["route"]])
    o2 = well(m2, mls.Ref(c, m2, df2))
    if not c["frozen"] and plateau(o, model):
        raise Skip("flat smoothing criterion")
    slack = 10 * np.sqrt(max(o.gap, o2.gap) / len(R.y))
    tol = (1e-4 if c["frozen"] else 5e-3) + slack
    same(summary(model), summary(m2, perm), tol, c["route"], vtol=5 * tol)
    return {"nt": len(model.overall_penalties) > 0, "tags": [c["route"], c["fam"]] + (["frozen"] if c["frozen"] else [])}


# ------------------------------------------------------------------ one model written in different classes
@st.composite
def kcase(draw):
    kind = draw(st.sampled_from(["gamm-gsmm", "gamm-gsmm", "lss-gsmm", "lss-gsmm", "gamm-lss"]))
    if kind == "lss-gsmm":
        c = draw(mls.mcase(["gau", "gam", "mul2"]))
    else:
        fams = ["x:gauss", "x:pois", "x:binom", "x:gamma", "x:invgauss"] if kind == "gamm-gsmm" else ["gau", "gam", "mul1"]
        c = draw(mls.mcase(fams))
        if kind == "gamm-lss":
            c["forms"] = c["forms"][:1] + [[{"t": "i"}]] * (len(c["forms"]) - 1)
    c["kind"] = kind
    c["fit"] = {"method": draw(st.sampled_from(["QR/Chol", "Chol"])), "n_cores": 1, "control_lambda": 2, "extend_lambda": False, "prefit_grad": True,
                "repara": draw(st.booleans()), "should_keep_drop": True, "check_cond": 1}
    c["frozen"] = [-1, 2]
    return c


def classes(c):
    from mssm.models import GAMM, GSMM
    from mssm.src.python.utils import GAMLSSGSMMFamily
    kind = c["kind"]
    num = c["fam"].startswith("x:")
    if mls.ncol(c) > (14 if num else 60):
        raise Skip("too many columns")
    if c["fam"] == "mul1":
        c = dict(c, forms=c["forms"][:1])
    if num:
        c = dict(c, fit=dict(c["fit"], max_outer=30, max_inner=60))
    model, df = mls.mk(c)
    fit2(c, model)
    if num:
        conv(model, 29)
    R = mls.Ref(c, model, df)
    o = well(model, R)
    a = summary(model)
    slack = 10 * np.sqrt(o.gap / len(R.y))
    if kind == "lss-gsmm":
        m2 = GSMM(mls.formulas(c, df), GAMLSSGSMMFamily(len(c["forms"]), mls.family(c["fam"], df)))
        fit2(c, m2)
        o2 = well(m2, mls.Ref(c, m2, df))
        slack = max(slack, 10 * np.sqrt(o2.gap / len(R.y)))
        same(a, summary(m2), 1e-4 + slack, kind, vtol=1e-3 + 5 * slack)
        return {"nt": len(model.overall_penalties) > 0, "tags": [kind, c["fam"]]}
    # GAMM: smoothing parameters are relative to the scale
    b = np.asarray(model.coef, float).ravel()
    fam = c["fam"].split(":")[-1]
    if kind == "gamm-gsmm":
        phi = float(np.exp(b[-1])) if R.extra else 1.0
        name = fam
    else:
        e1 = R.etas(b)[0]
        name = {"gau": "gauss", "gam": "gamma", "mul1": "binom"}[fam]
        phi = {"gau": (np.exp(e1[-1][0]) + 1e-4) ** 2, "gam": np.exp(e1[-1][0]) + 1e-4, "mul1": 1.0}[fam]
    cg = dict(c, terms=c["forms"][0], fam=name, off=None, tight=True, fit={"method": "QR", "n_cores": 1}, frozen=None)
    m2 = GAMM(fgen.mk_formula(cg, df), mfit.family(name))
    from mssm.src.python.formula import build_penalties
    from mssm.src.python.penalties import combine_shared_penalties
    m2.overall_penalties = combine_shared_penalties(build_penalties(m2.formulas[0]))
    lam1 = [q.lam for q in model.overall_penalties]
    ok(len(lam1) == len(m2.overall_penalties), "%s: number of penalties %d and %d" % (kind, len(lam1), len(m2.overall_penalties)))
    for q, l in zip(m2.overall_penalties, lam1):
        q.lam, q.frozen = l * phi, True
    C11.fit(cg, m2, df, restart=True)
    conv(m2)
    g = summary(m2)
    n = len(R.y)
    tol = 2e-4 + slack
    close(g["etas"][0], a["etas"][0], 0, tol * (np.max(np.abs(a["etas"][0])) + 0.1), "%s: linear predictor" % kind)
    # at the same scale the likelihoods are the same function
    ll = mfit.loglik(name, R.y, mfit.inv(name, g["etas"][0]), phi)
    ok(abs(ll - a["llk"]) <= (1e-5 + slack) * max(n, abs(ll)), "%s: log-likelihood %r and %r" % (kind, a["llk"], ll))
    # scale: maximum likelihood vs residual-based, both estimate the same
    s = float(m2.scale)
    if name == "gauss" and R.fam in ("gau", "gauss"):
        ml = s * (n - g["edf"]) / n
        ok(abs(ml - phi) <= (1e-3 + slack) * phi, "%s: scale %r (ML %r) and %r" % (kind, s, ml, phi))
    if kind == "gamm-lss" and name in ("binom", "gauss"):
        # canonical links: same Hessian up to the scale estimate (wrapped families have a numerical one, C13)
        close(pvar1(m2) * phi, a["var"][0], 2e-3 + 5 * slack, 1e-3 * np.max(a["var"][0]), "%s: variance of the linear predictor" % kind)
    return {"nt": len(lam1) > 0, "tags": [kind, name]}


def pvar1(m):
    from mssm.src.python.formula import build_model_matrix
    X = dense(build_model_matrix(m.formulas[0]))
    L = dense(m.lvi)
    return np.einsum("ij,ij->i", X @ L.T, X @ L.T)


SUBS = [
    Sub("gamm", gcase(), gamm, 120, 6000),
    Sub("lss", lcase(mls.LSS + ["mg2", "cox"]), lss, 80, 4000),
    Sub("classes", kcase(), classes, 80, 4000),
]
