"""C25: models built from files equal models of the same data in memory."""
import os
import shutil
import tempfile
import warnings
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vp import fgen, mfit
from vp.core import Sub, Skip, Known
from vp.util import close, ok, dense, SEED, shape

PROPERTY = "C25"
RULE = ("Cases: generated normal additive models (linear, smooth, by-factor, shared, tensor, factor-smooth and random terms), data split into 1-4 files of any size (also one row, also "
        "without a single valid row) with distinct, equal or awkward names, separators and loading options, kept or re-read covariates, cached or rebuilt matrices, one or several processes, "
        "fixed or estimated smoothing parameters, two consecutive fits. Oracle: the same model of the concatenated frame. Non-trivial: more than one file.")
ASSUME = ["constraints other than QR, marginal re-parameterisations, impulse responses, generalized families, offsets and AR(1) residuals are documented as not available with files",
          "missing values: in the response only (missing covariates are a recorded finding)"]


def okterm(t):
    if t["t"] == "f":
        t["rp"] = 0
        t["con"] = "QR"
    return t


@st.composite
def case(draw):
    c = draw(mfit.tame(irf=False, n=(50, 110), sid=False))
    c["terms"] = [okterm(t) for t in c["terms"]]
    c["na_cols"] = ["y"]
    c["index"] = False
    c["fam"] = "gauss"
    k = draw(st.integers(1, 4))
    c["cuts"] = sorted(draw(st.lists(st.integers(1, c["n"] - 1), min_size=k - 1, max_size=k - 1, unique=True)))
    c["names"] = draw(st.sampled_from(["plain", "same", "dots", "noext"]))
    c["sep"] = draw(st.sampled_from([None, None, ";"]))
    c["keep_cov"] = draw(st.booleans())
    c["cache"] = draw(st.booleans())
    c["nc"] = draw(st.sampled_from([1, 1, 3]))
    c["n_cores"] = draw(st.sampled_from([1, 2, 5]))
    c["frozen"] = draw(st.sampled_from([[-1, 2]] * 5 + [None]))
    if c["frozen"] is None:  # every evaluation of the predictor starts processes: keep them few
        c["cuts"], c["n_cores"] = c["cuts"][:1], 1
    c["empty"] = draw(st.sampled_from([False] * 5 + [True]))
    c["code"] = draw(st.sampled_from([False, False, True]))
    return c


def paths(c, d, k):
    if c["names"] == "same":
        out = []
        for i in range(k):
            os.makedirs(os.path.join(d, "dir%d" % i))
            out.append(os.path.join(d, "dir%d" % i, "data.csv"))
        return out
    f = {"plain": "part_%d.csv", "dots": "data.csv.%d.csv", "noext": "data_%d"}[c["names"]]
    return [os.path.join(d, f % i) for i in range(k)]


def fitted(model, c, n_cores, **kw):
    o = dict(progress_bar=False, n_cores=n_cores, method="Chol", conv_tol=1e-10)
    o.update(kw)
    if c["frozen"]:
        from mssm.src.python.formula import build_penalties
        from mssm.src.python.penalties import combine_shared_penalties
        model.overall_penalties = combine_shared_penalties(build_penalties(model.formulas[0]))
        r = np.random.default_rng(c["seed"] + 9)
        for q in model.overall_penalties:
            q.lam = float(10 ** r.uniform(*c["frozen"]))
            q.frozen = True
        o["restart"] = True
    else:
        o["max_outer"] = 40
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model.fit(**o)
    return model


def compare(F, G):
    """Formulas from files (F) and frame (G)."""
    ok(F.get_var_types() == G.get_var_types(), "variable types differ: %r and %r" % (F.get_var_types(), G.get_var_types()))
    ok(F.get_var_map() == G.get_var_map(), "variable order differs")
    for nm in ("var_mins", "var_maxs"):
        a, b = getattr(F, nm), getattr(G, nm)
        ok(set(a) == set(b) and all((a[k] is None and b[k] is None) or a[k] == b[k] for k in b), "%s: %r from files, %r in memory" % (nm, a, b))
    fl, gl = F.get_factor_levels(), G.get_factor_levels()
    ok(set(fl) == set(gl) and all(list(fl[k]) == list(gl[k]) for k in gl), "factor levels: %r from files, %r in memory" % ({k: list(v) for k, v in fl.items()}, {k: list(v) for k, v in gl.items()}))
    ok(F.get_factor_codings() == G.get_factor_codings(), "factor codings: %r from files, %r in memory" % (F.get_factor_codings(), G.get_factor_codings()))
    ok(F.n_coef == G.n_coef and list(F.coef_names) == list(G.coef_names), "coefficients: %r from files, %r in memory" % (F.coef_names, G.coef_names))


def check(c):
    if not mfit.capped(c, 60):
        raise Skip("too many columns")
    df = mfit.data(c)
    d = tempfile.mkdtemp(prefix="c25_")
    old = os.getcwd()
    from mssm.src.python import gamm_solvers as S
    save = (S.SHOULD_CACHE, S.CACHE_DIR)
    try:
        os.chdir(d)
        S.SHOULD_CACHE, S.CACHE_DIR = c["cache"], os.path.join(d, "keep", ".db")
        os.makedirs(os.path.join(d, "keep"))
        open(os.path.join(d, "keep", "x"), "w").close()
        return run(c, df, d)
    finally:
        S.SHOULD_CACHE, S.CACHE_DIR = save
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def run(c, df, d):
    from mssm.models import GAMM
    from mssm.src.python.formula import Formula, lhs
    from mssm.src.python.exp_fam import Gaussian
    cuts = [0] + c["cuts"] + [c["n"]]
    parts = [df.iloc[a:b] for a, b in zip(cuts[:-1], cuts[1:])]
    k = len(parts)
    if c["empty"] and k > 1:
        j = int(np.argmin([len(p) for p in parts]))
        if len(parts[j]) > c["n"] // 3:
            raise Skip("smallest file is large")
        parts[j] = parts[j].assign(y=np.nan)
    P = paths(c, d, k)
    kw = {"header": 0, "index_col": False}
    if c["sep"]:
        kw["sep"] = c["sep"]
    for p, q in zip(P, parts):
        q.to_csv(p, index=False, sep=c["sep"] or ",")
    if c["sep"] is None and c["seed"] % 2 == 0:
        kw = {"header": 0, "index_col": False}
    full = pd.concat([pd.read_csv(p, **kw) for p in P], ignore_index=True)
    full = full.astype({q: object for q in ("fA", "fB", "g", "fN", "s", "fC")})
    if any(full.loc[full["y"].notna(), q].nunique() < full[q].nunique() for q in ("fA", "fB", "g", "fN")):
        pass  # levels without a single valid row are kept by both routes
    cb = {"fA": {v: i for i, v in enumerate(sorted(full["fA"].unique(), reverse=True))}} if c["code"] else None
    nest = bool(c["keep_cov"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        G = Formula(lhs("y"), fgen.mk_terms(c, full), data=full, codebook=cb, print_warn=False, find_nested=nest)
        F = Formula(lhs("y"), fgen.mk_terms(c, full), data=None, codebook=cb, print_warn=False, find_nested=nest, file_paths=P, keep_cov=c["keep_cov"],
                    file_loading_nc=c["nc"], file_loading_kwargs=kw)
    compare(F, G)
    mG, mF = GAMM(G, Gaussian()), GAMM(F, Gaussian())
    fitted(mG, c, 1)
    fitted(mF, c, c["n_cores"])
    ok(not os.path.exists(os.path.join(d, "keep", ".db")) and os.path.exists(os.path.join(d, "keep", "x")), "cache directory was not removed after fitting")
    tags = ["%d files" % k, c["names"]] + [q for q in ("keep_cov", "cache", "empty") if c[q]]
    H = -dense(mG.hessian) * mG.scale
    X = dense(mG.get_mmat())
    close(-dense(mF.hessian) * mF.scale, X.T @ X, 1e-8, 1e-8 * np.abs(H).max(), "crossproduct of the model matrix")
    p = X.shape[1]
    A = H + sum((q.lam * dense(q.S_J_emb) for q in mG.overall_penalties), np.zeros((p, p)))
    cond = np.linalg.cond(A / np.sqrt(np.outer(np.diag(A), np.diag(A)))) if np.all(np.diag(A) > 0) else np.inf
    lf, lg = np.array([q.lam for q in mF.overall_penalties]), np.array([q.lam for q in mG.overall_penalties])
    shape(lf, lg.shape, "smoothing parameters")
    nv = int(full["y"].notna().sum())
    e = np.asarray(mF.preds[0]).ravel()
    shape(e, (nv,), "linear predictor")
    shape(np.asarray(mF.res).ravel(), (nv,), "residuals")
    if cond > 1e9:
        return {"nt": False, "tags": tags + ["singular"]}
    est = not c["frozen"] and len(lg)
    if est and (mG.info.iter >= 38 or mF.info.iter >= 38):
        return {"nt": False, "tags": tags + ["not converged"]}
    tol = 1e-7 * max(1, cond * 1e-4)
    if est:
        # both iterations stop near the same optimum
        z = np.abs(np.log(lf) - np.log(lg))
        inner = (lg < 1e5) & (lf < 1e5)
        ok(np.all(z[inner] < 0.05), "smoothing parameters: %r from files, %r in memory" % (list(lf), list(lg)))
        tol = 5e-3
    y = full["y"].dropna().values
    s = np.std(y)
    close(e, np.asarray(mG.preds[0]).ravel(), 0, tol * s, "linear predictor")
    close(np.asarray(mF.res).ravel(), y - e, 0, (1e-3 if est else 1e-8) * (s + np.abs(y).max()), "residuals of the model from files")
    close(mF.scale, mG.scale, tol, 0, "scale")
    close(mF.edf, mG.edf, 0, max(tol, 1e-6) * p * (10 if est else 1), "effective degrees of freedom")
    close(np.asarray(mF.term_edf, float), np.asarray(mG.term_edf, float), 0, max(tol, 1e-6) * p * (10 if est else 1), "effective degrees of freedom per term")
    # covariance and prediction
    Vf, Vg = dense(mF.lvi), dense(mG.lvi)
    vf, vg = np.sqrt(np.sum((X @ Vf.T) ** 2, axis=1) * mF.scale), np.sqrt(np.sum((X @ Vg.T) ** 2, axis=1) * mG.scale)
    close(vf, vg, 0, max(tol, 1e-6) * vg.max() * (10 if est else 1), "standard error of the linear predictor")
    new = full.iloc[np.random.default_rng(c["seed"]).integers(0, len(full), 12)].reset_index(drop=True)
    pf, pg = mF.predict(None, new)[0], mG.predict(None, new)[0]
    close(np.asarray(pf).ravel(), np.asarray(pg).ravel(), 0, 2 * tol * s + 1e-7 * s, "prediction for new data")
    # once more: nothing of the first fit may be picked up
    if c["seed"] % 3 == 0:
        c2 = dict(c, terms=[t for t in c["terms"] if t["t"] in ("i", "l")] or [{"t": "i"}])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            F2 = Formula(lhs("y"), fgen.mk_terms(c2, full), data=None, codebook=cb, print_warn=False, file_paths=P, keep_cov=c["keep_cov"], file_loading_kwargs=kw)
            G2 = Formula(lhs("y"), fgen.mk_terms(c2, full), data=full, codebook=cb, print_warn=False, find_nested=False)
            m2, g2 = GAMM(F2, Gaussian()), GAMM(G2, Gaussian())
            m2.fit(progress_bar=False, n_cores=c["n_cores"])
            g2.fit(progress_bar=False, n_cores=1)
        X2 = dense(g2.get_mmat())
        close(-dense(m2.hessian) * m2.scale, X2.T @ X2, 1e-8, 1e-8 * np.abs(X2.T @ X2).max(), "crossproduct of the second formula")
    return {"nt": k > 1, "tags": tags}


SUBS = [Sub("files", case(), check, 150, 2500)]


def k_missing():
    """Rows with a missing covariate are dropped in memory but not when the data is read from files."""
    from mssm.models import GAMM
    from mssm.src.python.formula import Formula, lhs
    from mssm.src.python.terms import i, l
    from mssm.src.python.exp_fam import Gaussian
    r = np.random.default_rng(3)
    df = pd.DataFrame({"y": r.normal(size=30), "x0": r.normal(size=30)})
    df.loc[4, "x0"] = np.nan
    d = tempfile.mkdtemp(prefix="c25_")
    try:
        p = os.path.join(d, "a.csv")
        df.to_csv(p, index=False)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = []
            for kw in ({"data": df}, {"data": None, "file_paths": [p], "keep_cov": True}):
                m = GAMM(Formula(lhs("y"), [i(), l(["x0"])], print_warn=False, **kw), Gaussian())
                try:
                    m.fit(progress_bar=False, n_cores=1)
                    out.append(np.asarray(m.coef, float).ravel())
                except Exception:
                    out.append(np.full(2, np.nan))
        return not np.allclose(out[0], out[1], rtol=1e-6)
    finally:
        shutil.rmtree(d, ignore_errors=True)


KNOWN = [Known("files_missing_covariates", "Formula(file_paths=...): rows with missing covariates are not excluded when the encoded data of files is kept (keep_cov=True)", k_missing)]
