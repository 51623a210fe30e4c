"""Generated multi-parameter models (GAMMLSS, general smooth models) with independent likelihood references."""
import numpy as np
from scipy.special import gammaln, digamma, polygamma
from hypothesis import strategies as st
from vp import fgen, mfit
from vp.core import Skip
from vp.util import SEED, dense

LSS = ["gau", "gau", "gam", "mul2", "mul3"]
GS = ["mg2", "mg1", "cox", "w:gau", "w:gam", "w:mul2", "x:gauss", "x:pois", "x:binom", "x:gamma", "x:invgauss"]


def n_forms(fam):
    fam = fam.split(":")[-1]
    return {"gau": 2, "gam": 2, "mul2": 2, "mul3": 3, "mg2": 2, "mg1": 1}.get(fam, 1)


@st.composite
def terms(draw, maxt, intercept=True, small=False):
    out = [{"t": "i"}] if intercept else []
    pool = [mfit.lin1(), mfit.sm1(), mfit.sm1(), fgen.RI]
    if not small:
        pool += [mfit.ten1(), fgen.fsmooth(), fgen.rslope()]
    used = set()
    for _ in range(draw(st.integers(0 if intercept else 1, maxt))):
        t = draw(draw(st.sampled_from(pool)))
        key = t["t"] + "/" + "_".join(sorted(t["v"]))
        if key in used or (t["t"] == "l" and any(u.startswith("l/") for u in used)) or (t["t"] == "fs" and any(u.startswith("fs") for u in used)):
            continue
        if t["t"] == "f" and not isinstance(t["nk"], list):
            t["nk"] = min(t["nk"], 7)
        used.add(key)
        out.append(t)
    if not intercept and not out:
        out = [{"t": "f", "v": ["x0"], "nk": 6, "con": "QR", "m": [2], "rp": 0, "null": False, "deg": 3}]
    if not intercept:
        # without intercept factors would span the constant
        out = [t for t in out if not (t["t"] == "l" and any(v in fgen.LEV for v in t["v"]))] or \
            [{"t": "f", "v": ["x0"], "nk": 6, "con": "QR", "m": [2], "rp": 0, "null": False, "deg": 3}]
    return out


@st.composite
def mcase(draw, fams, n=(80, 180), maxt=2):
    fam = draw(st.sampled_from(fams))
    k = n_forms(fam)
    forms = []
    for j in range(k):
        forms.append(draw(terms(maxt if j == 0 else max(1, maxt - 1), intercept=fam != "cox", small=j > 0)))
    c = {"n": draw(st.integers(*n)), "seed": draw(SEED), "nA": draw(st.integers(2, 3)), "nB": draw(st.integers(2, 3)), "series": 3,
         "index": draw(st.booleans()), "forms": forms, "fam": fam, "na": draw(st.sampled_from([0, 0, 0.08])), "na_cols": ["y"], "sid": False}
    if fam.startswith("mg") or fam == "cox":
        c["na"] = 0
    c["n"] = max(c["n"], 2 * sum(fgen.ncols(dict(c, terms=f)) for f in forms) + 60)
    return c


def ncol(c):
    return sum(fgen.ncols(dict(c, terms=f)) for f in c["forms"])


def data(c):
    df = fgen.frame(c)
    miss = df["y"].isna().values
    r = np.random.default_rng(c["seed"] + 5)
    n = len(df)
    fam = c["fam"].split(":")[-1]
    s1, s2 = mfit.signal(df, r, 0.5), mfit.signal(df, r, 0.3)
    if fam == "gau":
        y = 1 + 2 * s1 + np.exp(-0.2 + s2) * r.normal(size=n)
    elif fam == "gam":
        phi = np.exp(-1.2 + 0.7 * s2)
        y = np.maximum(r.gamma(1 / phi, np.exp(0.5 + s1) * phi), 1e-3)
    elif fam.startswith("mul"):
        k = int(fam[3:])
        W = np.exp(np.array([np.zeros(n)] + [mfit.signal(df, r, 0.5) for _ in range(k)])).T
        P = W / W.sum(axis=1, keepdims=True)
        y = (r.random(n)[:, None] > np.cumsum(P, axis=1)[:, :-1]).sum(axis=1).astype(float)
    elif fam.startswith("mg"):
        e = r.normal(size=(n, 2)) @ np.array([[0.7, 0.3], [0.0, 0.5]])
        y = 1 + s1 + e[:, 0]
        df["y2"] = -0.5 + s2 + e[:, 1]
    elif fam == "cox":
        t = np.ceil(10 * r.exponential(np.exp(-s1)))  # ties
        cen = np.ceil(10 * r.exponential(2.0, size=n))
        df["time"] = np.minimum(t, cen)
        y = (t <= cen).astype(int)
        df["y"] = y
        return df.sort_values("time", ascending=False, kind="stable").reset_index(drop=True)
    else:
        y = mfit.response(fam, df, r)
    df["y"] = np.where(miss, np.nan, y)
    return df


def family(fam, df):
    from mssm.src.python import exp_fam as E
    from mssm.src.python.utils import GAMLSSGSMMFamily
    w = fam.split(":")
    k = w[-1]
    if k == "gau":
        F = E.GAUMLSS([E.Identity(), E.LOGb(-0.0001)])
    elif k == "gam":
        F = E.GAMMALS([E.LOG(), E.LOGb(-0.0001)])
    elif k.startswith("mul"):
        F = E.MULNOMLSS(int(k[3:]))
    elif k.startswith("mg"):
        return E.MultiGauss(int(k[2:]), [E.Identity() for _ in range(int(k[2:]))])
    elif k == "cox":
        u, inv = np.unique(df["time"].values, return_inverse=True)
        return E.PropHaz(np.flip(u), np.abs(inv - max(inv)))
    else:
        F = mfit.family(k)
    if w[0] in ("w", "x"):
        return GAMLSSGSMMFamily(n_forms(fam), F)
    return F


def formulas(c, df):
    ys = ["y", "y2"] if c["fam"].startswith("mg") else ["y"] * 9
    return [fgen.mk_formula(dict(c, terms=f), df, yname=ys[j]) for j, f in enumerate(c["forms"])]


def mk(c, df=None):
    from mssm.models import GAMMLSS, GSMM
    df = data(c) if df is None else df
    F = formulas(c, df)
    cls = GSMM if c["fam"] in GS or ":" in c["fam"] else GAMMLSS
    return cls(F, family(c["fam"], df)), df


def freeze(c, model, rng_lam, seed=9):
    """Penalties with random fixed smoothing parameters, as a user would set them for a refit with restart=True."""
    from mssm.src.python.formula import build_penalties
    from mssm.src.python.penalties import combine_shared_penalties, embed_shared_penalties
    ind = [build_penalties(f) for f in model.formulas]
    ex = getattr(model.family, "extra_coef", None)
    sh = embed_shared_penalties(ind, model.formulas, ex)
    pens = combine_shared_penalties([p for q in sh for p in q])
    r = np.random.default_rng(c["seed"] + seed)
    for q in pens:
        q.lam = float(10 ** r.uniform(*rng_lam))
        q.frozen = True
    model.overall_penalties = pens
    return [q.lam for q in pens]


# ------------------------------------------------------------------ references
class Ref:
    """llk, gradient and the Hessian the family documents, as functions of the coefficients."""

    def __init__(self, c, model, df):
        self.fam = c["fam"].split(":")[-1]
        self.c = c
        X = []
        for F, f in zip(model.formulas, c["forms"]):
            from mssm.src.python.formula import build_model_matrix
            X.append(dense(build_model_matrix(F)))
        self.X = X
        keep = np.asarray(model.formulas[0].NOT_NA_flat).ravel().astype(bool)
        d = df[keep]
        self.y = d["y"].values.astype(float)
        self.y2 = d["y2"].values.astype(float) if "y2" in d else None
        self.t = d["time"].values if "time" in d else None
        self.ps = [x.shape[1] for x in X]
        self.p = sum(self.ps)
        k = self.fam
        self.extra = {"gauss": 1, "gamma": 1, "invgauss": 1, "mg2": 3, "mg1": 1, "scat": 2}.get(k, 0) if k not in ("gau", "gam") else 0
        self.tot = self.p + self.extra

    def split(self, b):
        b = np.asarray(b, float).ravel()
        out, at = [], 0
        for q in self.ps:
            out.append(b[at:at + q])
            at += q
        return out, b[at:]

    def etas(self, b):
        bs, ex = self.split(b)
        return [x @ q for x, q in zip(self.X, bs)], ex

    # per-observation pieces for GAMLSS families: log density, scores, (documented) second derivatives in eta
    def parts(self, etas):
        y, k = self.y, self.fam
        if k == "gau":
            mu, ex = etas[0], np.exp(etas[1])
            sd = ex + 1e-4
            z = (y - mu) / sd
            lp = -0.5 * np.log(2 * np.pi) - np.log(sd) - 0.5 * z ** 2
            d1s = -1 / sd + z ** 2 / sd
            return lp, [z / sd, d1s * ex], {(0, 0): -1 / sd ** 2, (1, 1): -2 / sd ** 2 * ex ** 2 + d1s * ex, (0, 1): 0 * y}
        if k == "gam":
            mu, ex = np.exp(etas[0]), np.exp(etas[1])
            phi = ex + 1e-4
            a = 1 / phi
            lp = a * np.log(a / mu) - gammaln(a) + (a - 1) * np.log(y) - a * y / mu
            dm = a * (y - mu) / mu ** 2
            dp = -a ** 2 * (np.log(a / mu) + 1 - digamma(a) + np.log(y) - y / mu)
            e2p = a ** 4 * (1 / a - polygamma(1, a))
            return lp, [dm * mu, dp * ex], {(0, 0): -a + dm * mu, (1, 1): e2p * ex ** 2 + dp * ex, (0, 1): 0 * y}
        if k.startswith("mul"):
            E = np.array([0 * y] + list(etas)).T
            m = E.max(axis=1, keepdims=True)
            P = np.exp(E - m)
            P /= P.sum(axis=1, keepdims=True)
            yi = y.astype(int)
            lp = np.log(P[np.arange(len(y)), yi])
            g = [(yi == j + 1) - P[:, j + 1] for j in range(len(etas))]
            H = {(i, j): -P[:, i + 1] * ((i == j) - P[:, j + 1]) for i in range(len(etas)) for j in range(i, len(etas))}
            return lp, g, H
        raise AssertionError(k)

    def llk(self, b):
        e, ex = self.etas(b)
        k = self.fam
        if k in ("gau", "gam") or k.startswith("mul"):
            return float(np.sum(self.parts(e)[0]))
        if k == "cox":
            from vp.props.C04 import cox_llk
            return cox_llk(self.t, self.y.astype(int), e[0].reshape(-1, 1), np.ones((1, 1)))
        if k.startswith("mg"):
            from vp.props.C04 import mg_llk
            m = int(k[2:])
            Y = np.stack([self.y, self.y2][:m], axis=1)
            return mg_llk({"link": "id", "share": False}, m, self.X, list(np.cumsum(self.ps)), Y, np.asarray(b, float).reshape(-1, 1))
        phi = np.exp(ex[0]) if self.extra == 1 else 1.0
        return mfit.loglik(k, self.y, mfit.inv(k, e[0]), phi, ex if k == "scat" else None)

    def grad(self, b):
        e, ex = self.etas(b)
        k = self.fam
        b = np.asarray(b, float).ravel()
        if k in ("gau", "gam") or k.startswith("mul"):
            return np.concatenate([x.T @ g for x, g in zip(self.X, self.parts(e)[1])])
        if k == "cox":
            return self.cox(e[0])[0]
        if k.startswith("mg"):
            m = int(k[2:])
            E = np.stack([self.y, self.y2][:m], axis=1) - np.stack(e, axis=1)
            R = np.zeros((m, m))
            R[np.triu_indices(m)] = ex
            R[np.diag_indices(m)] = np.exp(np.diag(R))
            G = E @ (R.T @ R)
            out = [x.T @ G[:, i] for i, x in enumerate(self.X)]
            M = -(E @ R.T).T @ E
            for i, j in zip(*np.triu_indices(m)):
                out.append([M[i, j] if i != j else M[i, i] * R[i, i] + len(E)])
            return np.concatenate(out)
        phi = np.exp(ex[0]) if self.extra == 1 else 1.0
        g, _ = mfit.score_w(k, self.y, e[0], ex if k == "scat" else None)
        out = [self.X[0].T @ g / phi]
        for j in range(self.extra):
            h = np.zeros(self.tot)
            h[self.p + j] = 1e-3
            out.append([(8 * (self.llk(b + h) - self.llk(b - h)) - (self.llk(b + 2 * h) - self.llk(b - 2 * h))) / 12e-3])
        return np.concatenate(out)

    def cox(self, eta):
        X, d, t = self.X[0], self.y, self.t
        w = np.exp(eta - eta.max())
        g, H = np.zeros(X.shape[1]), np.zeros((X.shape[1],) * 2)
        for u in np.unique(t[d > 0]):
            at = t >= u
            ev = (t == u) & (d > 0)
            ww = w[at] / w[at].sum()
            xm = ww @ X[at]
            g += X[ev].sum(axis=0) - ev.sum() * xm
            H -= ev.sum() * ((X[at] * ww[:, None]).T @ X[at] - np.outer(xm, xm))
        return g, H

    def hess(self, b):
        """(Hessian, accuracy of the reference, relative)"""
        e, ex = self.etas(b)
        k = self.fam
        if k in ("gau", "gam") or k.startswith("mul"):
            D = self.parts(e)[2]
            m = len(self.X)
            rows = []
            for i in range(m):
                rows.append([self.X[i].T @ (D[(min(i, j), max(i, j))][:, None] * self.X[j]) for j in range(m)])
            return np.block(rows), 1e-7
        if k == "cox":
            return self.cox(e[0])[1], 1e-7
        b = np.asarray(b, float).ravel()
        H = np.zeros((self.tot, self.tot))
        for j in range(self.tot):
            h = np.zeros(self.tot)
            h[j] = 1e-3
            H[:, j] = (8 * (self.grad(b + h) - self.grad(b - h)) - (self.grad(b + 2 * h) - self.grad(b - 2 * h))) / 12e-3
        return (H + H.T) / 2, 1e-5
