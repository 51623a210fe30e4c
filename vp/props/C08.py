"""C08 A formula and a data frame give the documented model matrix."""
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub
from vp.util import close, ok, shape, dense, SEED
from vp import fgen
from mssm.src.python.terms import l, li
from mssm.src.python.formula import build_penalties, build_model_matrix, build_sparse_matrix_from_formula

PROPERTY = "C08"
RULE = ("A case is a generated data frame (numeric, integer and factor columns, series, missing values, shuffled index) and a formula of up "
        "to five generated terms of all kinds; non-trivial = at least two terms or two columns.")
ASSUME = ["Smooth covariates have at least a few distinct values; factor levels of prediction data occur in the training data.",
          "Constraint and reparameterisation maps are read from the terms and validated by C06."]


def build(case):
    df = fgen.frame(case)
    F = fgen.mk_formula(case, df)
    build_penalties(F)
    return df, F, fgen.Ref(case, df, F.terms)


def tags(case):
    out = []
    for t in case["terms"]:
        k = t["t"]
        out.append(k + ("+by" if t.get("by") else "") + ("+te" if t.get("te") else "") + ("+ti" if k == "f" and len(t["v"]) > 1 and not t.get("te") else ""))
    if case["na"]:
        out.append("na")
    if case.get("book"):
        out.append("codebook")
    return out


def check_matrix(case):
    df, F, R = build(case)
    before = df.copy(deep=True)
    X = build_model_matrix(F)
    W, names, idx = R.matrix(df)
    keep = R.keep
    ok(np.array_equal(F.NOT_NA_flat, keep), "rows kept: %d, expected %d complete rows" % (F.NOT_NA_flat.sum(), keep.sum()))
    W = np.nan_to_num(W[keep], nan=np.inf)
    shape(X, W.shape, "model matrix")
    sc = 1 + np.abs(W).max(axis=0, initial=0)
    close(dense(X) / sc, W / sc, 1e-7, 1e-7, "model matrix")
    ok(F.n_coef == W.shape[1], "n_coef %s, matrix has %d columns" % (F.n_coef, W.shape[1]))
    ok(len(F.coef_names) == W.shape[1], "%d coefficient names for %d columns" % (len(F.coef_names), W.shape[1]))
    ok(list(F.coef_names) == names, "coefficient names: %s" % [(k, a, b) for k, (a, b) in enumerate(zip(F.coef_names, names)) if a != b][:4])
    for ti in idx:
        ok(int(F.coef_per_term[ti]) == len(idx[ti]), "term %d: %s coefficients reported, has %d" % (ti, F.coef_per_term[ti], len(idx[ti])))
        ok(np.array_equal(np.asarray(F.coef_idx_per_term[ti], int), idx[ti]), "term %d: coefficient indices %s, expected %s"
           % (ti, F.coef_idx_per_term[ti], idx[ti]))
    unpen = sum(len(idx[ti]) for ti in idx if case["terms"][ti]["t"] in ("i", "l") or case["terms"][ti].get("pen", True) is False)
    ok(F.unpenalized_coef == unpen, "unpenalized_coef %s, expected %d" % (F.unpenalized_coef, unpen))
    close(F.y_flat[F.NOT_NA_flat].ravel(), df["y"].values[keep], 0, 0, "response")
    ok(df.equals(before), "building the model matrix changed the data frame")
    # selecting terms
    r = np.random.default_rng(case["seed"])
    use = sorted(int(a) for a in r.choice(len(case["terms"]), size=int(r.integers(1, len(case["terms"]) + 1)), replace=False))
    Xu = dense(build_model_matrix(F, use_only=use))
    Wu = np.zeros_like(W)
    for ti in use:
        Wu[:, idx[ti]] = dense(X)[:, idx[ti]]
    close(Xu, Wu, 0, 0, "use_only=%s" % use)
    return {"nt": W.shape[1] > 1, "tags": tags(case)}


def check_new(case):
    """Rows of new data are encoded with the levels, codes and ranges of the training data."""
    df, F, R = build(case)
    new = fgen.frame(case, seed=case["seed"] + 11, n=case["nnew"], na=0, fresh=True)
    for c in fgen.NUM:
        lo, hi = R.rng[c]
        new[c] = new[c].clip(lo, hi) if c != "x2" else new[c].clip(int(lo), int(hi)).astype(np.int64)
    new.index = np.arange(case["nnew"]) * 3 + 5
    # only levels of the training data
    for c in ["fA", "fB", "fC", "g", "fN"]:
        lv = R.levels[c]
        new[c] = [v if v in lv else lv[0] for v in new[c]]
    keepc = new.copy(deep=True)
    new2 = new.drop(columns=["y"])
    y, cov_flat, na, ys, cov, NAs, sid = F.encode_data(new2, prediction=True)
    ok(y is None and na is None, "prediction encoding returned a response")
    irf = [k for k, t in enumerate(case["terms"]) if t["t"] == "irf"]
    on = None
    if irf:
        on = fgen.onsets(case, new)
        for k in irf:
            F.terms[k].event_onset = on
    X = build_sparse_matrix_from_formula(F.terms, F.has_intercept, F.get_linear_term_idx(), F.get_ir_smooth_term_idx(),
                                         F.get_smooth_term_idx(), F.get_random_term_idx(), F.get_var_types(), F.get_var_map(),
                                         F.get_var_mins(), F.get_var_maxs(), F.get_factor_levels(), cov_flat, cov)
    W, _, _ = R.matrix(new, onset=on)
    sc = 1 + np.abs(W).max(axis=0, initial=0)
    close(dense(X) / sc, W / sc, 1e-7, 1e-7, "model matrix of new data")
    ok(new.equals(keepc), "encoding changed the new data")
    return {"nt": W.shape[1] > 1, "tags": tags(case)}


@st.composite
def withnew(draw):
    c = draw(fgen.formula())
    c["nnew"] = draw(st.integers(1, 30))
    return c


def check_rows(case):
    """Row-wise: the matrix of a row subset/permutation (same ranges and levels) is the row subset of the matrix."""
    df, F, R = build(case)
    r = np.random.default_rng(case["seed"] + 3)
    _, cov_flat, _, _, _, _, _ = F.encode_data(df, prediction=True)
    cov_flat = cov_flat[R.keep]
    args = (F.terms, F.has_intercept, F.get_linear_term_idx(), [], F.get_smooth_term_idx(), F.get_random_term_idx(), F.get_var_types(),
            F.get_var_map(), F.get_var_mins(), F.get_var_maxs(), F.get_factor_levels())
    A = dense(build_sparse_matrix_from_formula(*args, cov_flat, None))
    p = r.permutation(len(cov_flat))[: int(r.integers(1, len(cov_flat) + 1))]
    B = dense(build_sparse_matrix_from_formula(*args, cov_flat[p], None))
    close(B, A[p], 1e-12, 1e-12, "rows of a subset")
    return {"nt": A.shape[1] > 1, "tags": tags(case)}


@st.composite
def lis(draw):
    v = draw(st.lists(st.sampled_from(["x0", "x1", "x2", "w", "fA", "fB", "g"]), min_size=1, max_size=6, unique=True))
    return {"v": v, "fmt": draw(st.sampled_from(["list", "list", "tuple"]))}


def check_li(case):
    """li(v) is one l() term for every non-empty subset of v: main effects first, then pairs, and so on, each in the order of v."""
    v = case["v"]
    T = li(list(v) if case["fmt"] == "list" else tuple(v))
    k = len(v)
    want = sorted(([q for q in range(k) if m >> q & 1] for m in range(1, 2 ** k)), key=lambda s: (len(s), s))
    ok(all(isinstance(t, l) for t in T), "li returned %s" % [type(t).__name__ for t in T])
    ok([list(t.variables) for t in T] == [[v[q] for q in s] for s in want], "li(%s): %s" % (v, [t.variables for t in T]))
    return {"nt": k > 1, "tags": ["k%d" % k]}


SUBS = [
    Sub("matrix", fgen.formula(maxt=4), check_matrix, 1500, 18000, weight=3),
    Sub("newdata", withnew(), check_new, 800, 9000, weight=3),
    Sub("li", lis(), check_li, 150, 600, weight=1),
    Sub("rows", fgen.formula(irf=False), check_rows, 300, 2000, weight=2),
]
