"""C06 Identifiability constraints and reparameterisation keep the function space."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from vp.core import Sub
from vp.util import close, close_norm, ok, shape, dense, rng, fail, SEED
from vp import fgen
from mssm.src.python.formula import build_penalties, build_model_matrix
from mssm.src.python.repara import reparam, reparam_model
from mssm.src.python.penalties import embed_shared_penalties, split_shared_penalties, combine_shared_penalties

PROPERTY = "C06"
RULE = ("A case is a generated data set (random, tied, symmetric covariates; missing rows) with one smooth term of any kind (constraint type, "
        "tensor type, reparameterisation, penalty order, by-variable), a formula with nested tensor smooths, or a set of formulas whose penalties are "
        "reparameterised at random smoothing parameters; non-trivial = at least three basis functions.")
ASSUME = ["Data have more rows than coefficients and covariates have more distinct values than basis functions.",
          "Nested dependencies are those between a tensor smooth and the terms that share a variable with it (the documented search, Wood 2017, 5.6.3).",
          "Span equality is judged by projection residuals of normalised columns (1e-6)."]


def resid(A, B):
    """Largest residual of the (normalised) columns of B after projection on span(A)."""
    A = A / np.maximum(np.linalg.norm(A, axis=0), 1e-300)
    U, s, _ = np.linalg.svd(A, full_matrices=False)
    U = U[:, s > 1e-10 * s[0]]
    nb = np.linalg.norm(B, axis=0)
    B = B[:, nb > 1e-12]
    if not B.size:
        return 0.0
    B = B / np.linalg.norm(B, axis=0)
    return float(np.max(np.linalg.norm(B - U @ (U.T @ B), axis=0)))


def same_span(A, B, what, tol=1e-6):
    a, b = resid(A, B), resid(B, A)
    ok(a <= tol, what + ": columns outside the expected span (%.2g)" % a)
    ok(b <= tol, what + ": expected functions missing from the span (%.2g)" % b)


@st.composite
def one(draw):
    k = draw(st.sampled_from(["f", "f", "t", "t", "fs"]))
    t = draw({"f": fgen.smooth1(), "t": fgen.tensor(), "fs": fgen.fsmooth()}[k])
    if k == "fs" and t.get("sub"):
        t["sub"] = None
        t["rf"] = "fB"
    c = {"n": 0, "seed": draw(SEED), "nA": draw(st.integers(2, 3)), "nB": 2, "series": 1, "index": draw(st.booleans()), "terms": [t],
         "na": draw(st.sampled_from([0, 0, 0.1])), "na_cols": ["y", t["v"][0]] if t["v"][0] != "x2" else ["y"], "book": None, "sid": False,
         "grid": draw(st.booleans()), "kx2": draw(st.integers(14, 40))}
    c["n"] = draw(st.integers(2, 5)) * fgen.ncols(c) * (2 if t.get("binary") else 1) + 60
    return c


def check_one(case):
    """One term: span, constraint and penalty value of every function against the raw B-spline basis."""
    df = fgen.frame(case)
    F = fgen.mk_formula(case, df)
    pens = build_penalties(F)
    X = dense(build_model_matrix(F))
    R = fgen.Ref(case, df, F.terms)
    t = case["terms"][0]
    d = df[R.keep].reset_index(drop=True)
    raw = R.smooth_raw(t, d)
    by = t["rf"] if t["t"] == "fs" else t.get("by")
    L = len(R.levels[by]) if by else 1
    p = X.shape[1] // L
    w = d[t["by_cont"]].values.astype(float)[:, None] if t.get("by_cont") else np.ones((len(d), 1))
    sel = [np.ones(len(d), bool)]
    if by:
        I = R.ind(d, by)
        sel = [I[:, j] > 0 for j in range(L)]
    if t.get("binary"):
        sel = [d[t["binary"][0]].values == t["binary"][1]]
    # rebuild the un-multiplied basis from the rows of the first level set where needed
    ident = t["t"] == "f" and t.get("ident", True) and not t.get("binary")
    full = raw[0]
    for b in raw[1:]:
        full = fgen.rowkron(full, b)
    base = np.zeros((len(d), p))
    for j in range(L):
        base[sel[j]] = X[sel[j], j * p:(j + 1) * p]
        ok(not np.any(X[~sel[j], j * p:(j + 1) * p]), "columns of level %d are not zero on the rows of other levels" % j)
    cover = np.any(sel, axis=0)
    base = base[cover] / w[cover]
    B = full[cover]
    sv = np.linalg.svd(base / np.maximum(np.linalg.norm(base, axis=0), 1e-300), compute_uv=False)
    svB = np.linalg.svd(B / np.maximum(np.linalg.norm(B, axis=0), 1e-300), compute_uv=False)
    rich = len(B) >= B.shape[1] and svB[-1] > (1e-3 if t["rp"] == 1 else 1e-6) * svB[0] and np.all(np.linalg.norm(B, axis=0) > 0)
    if t["t"] == "f" and len(t["v"]) > 1 and not t.get("te") and ident:
        # pure interaction: span(1, margins, ti) is the full tensor space
        if rich:  # (with too few data per cell the comparison of the two spans is decided by rounding)
            same_span(np.concatenate([raw[0][cover], *[b[cover] for b in raw[1:]], base] + ([fgen.rowkron(raw[a][cover], raw[b][cover])
                                      for a in range(3) for b in range(a)] if len(raw) == 3 else []), axis=1), B, "interaction and its margins")
        want = int(np.prod([b.shape[1] - 1 for b in raw]))
        ok(p == want, "%d columns, expected %d" % (p, want))
    elif ident:
        same_span(np.concatenate([np.ones((len(B), 1)), base], axis=1), B, "constrained basis plus constant")
        ok(p == B.shape[1] - 1, "%d columns, expected %d" % (p, B.shape[1] - 1))
    else:
        same_span(base, B, "unconstrained basis")
        ok(p == B.shape[1], "%d columns, expected %d" % (p, B.shape[1]))
    if rich:
        ok(sv[-1] > 1e-11 * sv[0], "constrained basis is rank deficient (%.2g)" % (sv[-1] / sv[0]))
    tags = ["rp%d" % t["rp"], t.get("con", "-"), t["t"] + ("te" if t.get("te") else "") + str(len(t["v"])), "grid" if case["grid"] else "random"]
    # sum-to-zero over the (complete) data
    if ident and t["con"] == "QR":
        if np.all(cover):
            sc = np.abs(base).sum(axis=0)
            if len(t["v"]) == 1 or t.get("te"):
                ok(np.all(np.abs(base.sum(axis=0)) <= 1e-8 * (sc + 1e-12)), "columns do not sum to zero: %r" % (base.sum(axis=0) / sc))
    # penalty value of functions
    if not rich:
        return {"nt": True, "tags": tags + ["poor data"]}
    r = np.random.default_rng(case["seed"] + 5)
    if pens and t["t"] in ("f", "fs") and len(t["v"]) == 1:
        ms = t["m"] if isinstance(t["m"], list) else [t["m"]]
        per = L if by and t["t"] == "f" and t.get("id") is None else 1
        for q, m in enumerate(ms):
            S = dense(pens[q * per].S_J_emb)[:p, :p]
            for _ in range(2):
                b = r.normal(size=p)
                a = np.linalg.lstsq(B, base @ b, rcond=None)[0]
                v = float(np.sum(np.diff(a, m) ** 2))
                got = float(b @ S @ b)
                close(got, v, 1e-5, 1e-7 * float(a @ a) * 4 ** m, "order-%d penalty of a function" % m)
    elif pens and len(t["v"]) > 1:
        m = t["m"][0]
        per = L if by and t.get("id") is None else 1
        ks = [b.shape[1] for b in raw]
        for j in range(len(ks)):
            S = dense(pens[j * per].S_J_emb)[:p, :p]
            ratio = []
            for _ in range(3):
                b = r.normal(size=p)
                a = np.linalg.lstsq(B, base @ b, rcond=None)[0].reshape(ks)
                if t["rp"]:
                    # natural parameterisation: the other margins' coefficients are function values
                    for vi in range(len(ks)):
                        if vi != j:
                            M = fgen_margin(F, R, t, vi, ident)
                            a = np.moveaxis(np.tensordot(M, np.moveaxis(a, vi, 0), axes=1), 0, vi)
                elif ident and not t.get("te"):
                    for vi in range(len(ks)):
                        if vi != j:
                            Zi = np.linalg.pinv(fgen.cmap(F.terms[0].Z[vi], ks[vi]))
                            a = np.moveaxis(np.tensordot(Zi, np.moveaxis(a, vi, 0), axes=1), 0, vi)
                v = float(np.sum(np.diff(a, m, axis=j) ** 2))
                ratio.append((float(b @ S @ b), v))
            got = np.array([x[0] for x in ratio])
            want = np.array([x[1] for x in ratio])
            if want.max() > 1e-6:
                sc = (got @ want) / (want @ want) if t.get("scale_te") else 1.0
                close(got, sc * want, 1e-4, 1e-6 * want.max() * abs(sc), "margin %d penalty of a function (scale %g)" % (j, sc))
    return {"nt": p > 2, "tags": tags}


def fgen_margin(F, R, t, vi, ident):
    """raw margin coefficients -> margin coefficients of the term (inverse of constraint and reparameterisation map)."""
    M, _ = R.maps(0)
    return np.linalg.pinv(M[vi], rcond=1e-13)


# ------------------------------------------------------------------ nested terms
@st.composite
def nested(draw):
    nk = draw(st.sampled_from([4, 5]))
    mode = draw(st.sampled_from(["none", "none", "by", "by", "cont", "by+cont", "binary"]))
    kw = {}
    if "by" in mode.split("+"):
        kw["by"] = "fB"
    if "cont" in mode:
        kw["by_cont"] = "w"
    if mode == "binary":
        kw["binary"] = ["fB", "u"]
    three = mode in ("none", "cont", "binary") and draw(st.integers(0, 4)) == 0  # a three-way tensor smooth on top
    vs = draw(st.permutations(fgen.NUM))
    terms = [{"t": "i"}] if draw(st.booleans()) else []
    if mode == "by":
        terms.append({"t": "l", "v": ["fB"]})
    nm = draw(st.integers(1, 2))
    if three:
        nm, nk = draw(st.integers(1, 3)), 4
    if mode == "binary":
        nm = 1  # binary smooths are not centred: two of different covariates share their constant, and they are not compared
    samek = draw(st.booleans())
    for v in vs[:nm]:
        d = {"t": "f", "v": [v], "nk": nk - 1 if samek else draw(st.integers(4, 8)), "con": "QR", "m": [2], "rp": 0, "null": False, **kw}
        if mode == "cont":
            d["ident"] = True
        terms.append(d)
    if three:
        terms.append({"t": "f", "v": list(vs), "te": draw(st.sampled_from([True, True, False])), "nk": [nk] * 3, "con": "QR", "m": [2],
                      "rp": 0, "null": False, "scale_te": True, **kw})
    if not three or draw(st.booleans()):
        terms.append({"t": "f", "v": list(vs[:2]), "te": draw(st.sampled_from([True, True, False])), "nk": [nk, nk], "con": draw(st.sampled_from(["QR", "DROP"])) if mode == "none" and terms[0]["t"] == "i" else "QR",
                  "m": [2], "rp": draw(st.sampled_from([0, 2])), "null": draw(st.booleans()), "scale_te": True, **kw})
    # (lower-order terms that share no variable with a tensor smooth are not compared with it, as in mgcv's gam.side)
    if nm == 1 and not three and draw(st.booleans()):
        terms.append({"t": "f", "v": [vs[0], vs[2]], "te": True, "nk": [nk, nk], "con": "QR", "m": [2], "rp": 0, "null": False, "scale_te": True, **kw})
    c = {"seed": draw(SEED), "nA": 2, "nB": draw(st.sampled_from([2, 2, 3])), "series": 1, "index": False, "terms": terms, "na": draw(st.sampled_from([0, 0.05])), "na_cols": ["y"],
         "book": draw(st.sampled_from([None, "rev"])), "sid": False, "grid": draw(st.booleans()), "kx2": 40}
    c["n"] = 4 * fgen.ncols(c) * (2 if mode == "binary" else 1) + 80
    return c


def check_nested(case):
    df = fgen.frame(case)
    F = fgen.mk_formula(case, df)
    build_penalties(F)
    X = dense(build_model_matrix(F))
    R = fgen.Ref(case, df, F.terms)
    d = df[R.keep].reset_index(drop=True)
    drops = [len(t.drop_coef) for t in F.terms if getattr(t, "drop_coef", None)]
    # everything the terms can represent without dropping
    for t in F.terms:
        if getattr(t, "drop_coef", None):
            t.drop_coef = None
    W, _, idx = R.matrix(d)
    lin = [c for ti in idx if case["terms"][ti]["t"] in ("i", "l") for c in idx[ti]]
    for ix in idx.values():
        ix = sorted(set(ix) | set(lin))
        nb = np.linalg.norm(W[:, ix], axis=0)
        if not np.all(nb > 0):
            return {"nt": False, "tags": ["too few data for a term"]}
        sb = np.linalg.svd(W[:, ix] / nb, compute_uv=False)
        if len(W) < len(ix) or sb[-1] < 1e-6 * sb[0]:
            return {"nt": False, "tags": ["too few data for a term"]}
    nrm = np.linalg.norm(X, axis=0)
    ok(np.all(nrm > 0), "a column of the model matrix is zero")
    s = np.linalg.svd(X / nrm, compute_uv=False)
    sw = np.linalg.svd(W / np.linalg.norm(W, axis=0), compute_uv=False)
    sr = np.linalg.svd(W, compute_uv=False)
    rk_lo, rk_hi = int((sw > 1e-5 * sw[0]).sum()), int((sw > 1e-11 * sw[0]).sum())
    rk_lo = min(rk_lo, int((sr > 1e-5 * sr[0]).sum()))
    if rk_lo == rk_hi:
        ok(X.shape[1] == rk_lo, "%d columns kept, the terms span %d dimensions" % (X.shape[1], rk_lo))
        ok(s[-1] > 1e-9 * s[0], "model matrix is rank deficient: smallest singular value ratio %.2g" % (s[-1] / s[0]))
        same_span(X, W, "terms after dropping nested coefficients", 1e-5)
    # also where single terms are ill-conditioned: overlap of the terms' spaces, each with an orthonormal basis
    Q = np.concatenate([np.linalg.qr(W[:, ix])[0] for ix in idx.values()], axis=1)
    sq = np.linalg.svd(Q, compute_uv=False)
    hi = int((sq > 1e-11 * sq[0]).sum())
    if hi == int((sq > 1e-3 * sq[0]).sum()):
        ok(X.shape[1] <= hi, "%d columns kept, the terms span %d dimensions only" % (X.shape[1], hi))
        lo = min(int((sw > 1e-4 * sw[0]).sum()), int((sr > 1e-4 * sr[0]).sum()))
        ok(X.shape[1] >= lo, "%d columns kept, the terms span at least %d dimensions" % (X.shape[1], lo))
    return {"nt": len(drops) > 0, "tags": ["dropped" if drops else "nothing to drop", "clear" if rk_lo == rk_hi else "unclear rank"]}


# ------------------------------------------------------------------ Demmler-Reinsch
DR = st.fixed_dictionaries({"n": st.integers(30, 120), "k": st.integers(4, 12), "m": st.integers(1, 2), "opt": st.sampled_from([1, 1, 2]),
                            "QR": st.booleans(), "identity": st.booleans(), "scale": st.booleans(), "ties": st.booleans(), "seed": SEED})


def check_dr(case):
    r = rng(case)
    x = r.uniform(0, 1, case["n"])
    x[0], x[1] = 0, 1
    if case["ties"]:
        x = np.concatenate([x, x[r.integers(0, len(x), 20)]])
    B = fgen.bspline(x, -0.01, 1.01, case["k"], 3)
    S = fgen.diffpen(case["k"], case["m"])
    Bu = B
    if case["opt"] == 2:
        Bu = B[np.unique(x, return_index=True)[1]]
    sv = np.linalg.svd(Bu, compute_uv=False)
    if sv[-1] < 1e-4 * sv[0]:
        return {"nt": False}
    C, Srp, Drp, IR, r1, r2, rank = reparam(sp.csc_array(B), sp.csc_array(S), x, QR=case["QR"], option=case["opt"], scale=case["scale"], identity=case["identity"])
    C, Srp, Drp = dense(C), dense(Srp), dense(Drp)
    close_norm(Srp, C.T @ S @ C, 1e-7, "reparameterised penalty")
    close_norm(Drp @ Drp.T, Srp, 1e-9, "root of the reparameterised penalty")
    ok(rank == case["k"] - case["m"], "rank %s" % rank)
    G = (Bu @ C).T @ (Bu @ C)
    ok(np.max(np.abs(G - np.diag(np.diag(G)))) <= 1e-7 * np.max(np.abs(G)), "reparameterised basis is not orthogonal")
    ok(np.max(np.abs(Srp - np.diag(np.diag(Srp)))) == 0, "reparameterised penalty is not diagonal")
    same_span(B @ C, B, "reparameterised basis")
    if case["scale"]:
        Z = Bu @ C
        close(np.sqrt(np.mean(Z[:, :rank] ** 2)), 1.0, 1e-8, 0, "scale of the penalised part")
        close(np.sqrt(np.mean(Z[:, rank:] ** 2)), 1.0, 1e-8, 0, "scale of the unpenalised part")
    elif not case["identity"]:
        close_norm(G, np.eye(case["k"]), 1e-7, "orthonormality")
    if case["identity"] and not case["scale"]:
        close_norm(Srp, np.diag([1.0] * rank + [0.0] * (case["k"] - rank)), 1e-9, "identity penalty")
    return {"nt": True, "tags": ["opt%d" % case["opt"], "identity" if case["identity"] else "-"]}


# ------------------------------------------------------------------ stable reparameterisation of the whole model
@st.composite
def multi(draw):
    return {"forms": [draw(fgen.formula(irf=False, maxt=2, n=(60, 90), na=False)) for _ in range(draw(st.integers(1, 3)))],
            "extra": draw(st.sampled_from([None, 0, 2])), "spread": draw(st.sampled_from([1, 3, 6])), "shared": draw(st.booleans()), "seed": draw(SEED)}


def check_model(case):
    r = rng(case)
    pens, Xs, Fs = [], [], []
    for c in case["forms"]:
        for t in c["terms"]:
            if t["t"] == "f" and t.get("null") and len(t["v"]) > 1:
                t["null"] = False
            if t["t"] == "f" and t.get("null") and len(t["v"]) == 1 and t["m"] == [1]:
                t["null"] = False
        df = fgen.frame(c)
        F = fgen.mk_formula(c, df)
        pens.append(build_penalties(F))
        Xs.append(build_model_matrix(F))
        Fs.append(F)
    flat = [p for ps in embed_shared_penalties(pens, Fs, case["extra"]) for p in ps]
    if not flat:
        return {"nt": False}
    n = sum(F.n_coef for F in Fs) + (case["extra"] or 0)
    for p in flat:
        p.lam = float(10 ** r.uniform(-case["spread"], case["spread"]))
        p.id = None
    if case["shared"] and len(flat) > 1:
        j = int(r.integers(1, len(flat)))
        single = [p for p in flat if sum(q.start_index == p.start_index for q in flat) == 1]
        if len(single) > 1:
            single[0].id = single[-1].id = 7
            single[-1].lam = single[0].lam
    lams = [p.lam for p in flat]
    tot = sum(l * dense(p.S_J_emb) for l, p in zip(lams, flat))
    mats = [dense(p.S_J_emb).copy() for p in flat]
    merged = combine_shared_penalties(flat)
    keep = [dense(p.S_J_emb).copy() for p in merged]
    coef = r.normal(size=(n, 1))
    dc = [F.n_coef for F in Fs]
    du = [F.unpenalized_coef for F in Fs]
    split = list(np.cumsum(dc)[:-1]) if not case["extra"] else list(np.cumsum(dc))
    coef_rp, Xs_rp, Sj, S_rp, S_norm, S_root, S_inv, Q, Qs = reparam_model(dc, du, coef, split, Xs, merged, form_inverse=True, form_root=True, form_balanced=True, n_c=1)
    for p, k in zip(merged, keep):
        ok(np.array_equal(dense(p.S_J_emb), k), "reparameterisation changed the penalty it was given")
    Q = dense(Q)
    close_norm(Q.T @ Q, np.eye(n), 1e-8, "reparameterisation is orthogonal")
    close_norm(Q.T @ tot @ Q, dense(S_rp), 1e-6, "total penalty after reparameterisation")
    for X, Z, b, c in zip(Xs, Xs_rp, np.split(coef, split), np.split(coef_rp, split)):
        sc = max(1.0, np.abs(dense(X)).max())
        close_norm(dense(Z) @ c[:, :1], dense(X) @ b, 1e-7, "linear predictor after reparameterisation", floor=sc)
    close_norm(Q @ coef_rp, coef, 1e-8, "coefficients")
    # single penalties (the low-rank truncation may drop parts of relative size 1e-7 or less)
    ok(len(Sj) == len(merged), "number of penalties")
    acc = sum(p.lam * dense(p.S_J_emb) for p in Sj)
    close_norm(acc, Q.T @ tot @ Q, 1e-5, "weighted sum of the reparameterised penalties")
    for p in Sj:
        D = dense(p.D_J_emb)
        cand = [q for q in merged if q.start_index == p.start_index and q.term == p.term and q.type == p.type and np.shape(q.S_J) == np.shape(q.S_J)]
        fit = [np.max(np.abs(D @ D.T - Q.T @ dense(q.S_J_emb) @ Q)) <= 1e-6 * max(1e-3, np.abs(dense(q.S_J_emb)).max()) for q in cand]
        ok(any(fit), "root of a reparameterised penalty does not belong to any penalty of its term")
    Rt = dense(S_root)
    close_norm(Rt @ Rt.T, dense(S_rp), 1e-6, "root of the total penalty")
    # log determinant: eigenvalues of the reparameterised total agree with those of the original
    e1 = np.linalg.eigvalsh((tot + tot.T) / 2)
    e2 = np.linalg.eigvalsh((dense(S_rp) + dense(S_rp).T) / 2)
    close(e2, e1, 1e-6, 1e-8 * e1[-1], "eigenvalues of the total penalty")
    return {"nt": True, "tags": ["%d formulas" % len(Fs), "spread%d" % case["spread"], "shared" if len(merged) < len(flat) else "-"]}


SUBS = [
    Sub("term", one(), check_one, 1500, 16000, weight=3),
    Sub("nested", nested(), check_nested, 1000, 5000, weight=5),
    Sub("demmler", DR, check_dr, 600, 4000, weight=0.5),
    Sub("model", multi(), check_model, 700, 9000, weight=5),
]
