"""C09 Sparse linear algebra layer."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from vp.core import Sub
from vp.util import close, close_norm, ok, shape, dense, rng, fail, SEED
from vp import fgen
from mssm.src.python import matrix_solvers as ms
from mssm.src.python.formula import build_penalties
from mssm.src.python.penalties import combine_shared_penalties, split_shared_penalties
from mssm.src.python.gamm_solvers import calculate_edf, calculate_term_edf, identify_drop, update_coef
from mssm.src.python.exp_fam import Gaussian
import eigen_solvers

PROPERTY = "C09"
RULE = ("A case is a generated sparse matrix (pattern, size, rank, scaling), right-hand side and core count, or the crossproduct and penalties of a "
        "generated formula; non-trivial = at least 3 columns with off-diagonal entries, or a deficient/indefinite matrix.")
ASSUME = ["Matrices are either well conditioned (<1e8) or deficient by construction; the numerical border between the two is not tested."]

PAT = ["diag", "band", "block", "arrow", "random", "dense"]


def spd(r, n, pat, logscale):
    """SPD matrix with the given pattern; moderate condition number, then a diagonal rescaling."""
    if pat == "diag":
        A = np.diag(r.uniform(0.5, 2, n))
    elif pat == "band":
        b = int(r.integers(1, 4))
        B = np.tril(np.triu(r.normal(size=(n, n)), -b)) + 2 * b * np.eye(n)
        A = B @ B.T
    elif pat == "block":
        A = np.zeros((n, n))
        i = 0
        while i < n:
            k = min(int(r.integers(1, 5)), n - i)
            B = r.normal(size=(k, k)) + 2 * np.eye(k)
            A[i:i + k, i:i + k] = B @ B.T + 0.1 * np.eye(k)
            i += k
    elif pat == "arrow":
        A = np.diag(r.uniform(0.5, 2, n))
        A[0, 1:] = A[1:, 0] = r.normal(size=n - 1) * 0.3
        A[0, 0] = 1 + np.sum(A[0, 1:] ** 2) * 4
    elif pat == "random":
        B = r.normal(size=(n, n)) * (r.uniform(size=(n, n)) < 0.2)
        A = B @ B.T + 0.3 * np.eye(n)
    else:
        B = r.normal(size=(n, n))
        A = B @ B.T / n + 0.1 * np.eye(n)
    d = 10 ** r.uniform(-logscale, logscale, n)
    A = A * d[:, None] * d[None, :]
    return (A + A.T) / 2


def csc(A):
    return sp.csc_array(A)


def lower(L, what):
    ok(np.all(np.triu(L, 1) == 0), what + ": not lower triangular")


def permmat(Pr):
    n = len(Pr)
    ok(sorted(int(x) for x in Pr) == list(range(n)), "not a permutation: %r" % (list(Pr),))
    P = np.zeros((n, n))
    P[np.asarray(Pr, int), np.arange(n)] = 1
    close(dense(ms.compute_eigen_perm(Pr)), P, 0, 0, "permutation matrix")
    return P


def rel(got, want, tol, what):
    """Compare with row/column scaling taken out (matrices may be badly scaled)."""
    d = np.sqrt(np.abs(np.diag(want))) if want.shape[0] == want.shape[1] else None
    if d is not None and np.all(d > 0):
        close_norm(np.asarray(got) / np.outer(d, d), want / np.outer(d, d), tol, what)
    else:
        close_norm(got, want, tol, what)


# ------------------------------------------------------------------ Cholesky
@st.composite
def chol(draw):
    return {"n": draw(st.one_of(st.integers(1, 14), st.integers(1, 14), st.sampled_from([25, 40, 60]))), "pat": draw(st.sampled_from(PAT)), "scale": draw(st.sampled_from([0, 0, 1, 3])),
            "bad": draw(st.sampled_from([None, None, None, "neg", "zero"])), "seed": draw(SEED)}


def check_chol(case):
    r = rng(case)
    n = case["n"]
    A = spd(r, n, case["pat"], case["scale"])
    if case["bad"]:
        # a clearly negative (or zero) direction
        k = int(r.integers(0, n))
        A[k, :] = 0
        A[:, k] = 0
        A[k, k] = -1.0 if case["bad"] == "neg" else 0.0
    S = csc(A)
    L, code = ms.cpp_chol(S)
    Lp, Pr, codeP = ms.cpp_cholP(S)
    LI, PrI, codeI = ms.cpp_solve_LXX(S)
    if case["bad"]:
        ok(code != 0 and codeP != 0 and codeI != 0, "Cholesky of a matrix that is not positive definite reports success (%s %s %s)" % (code, codeP, codeI))
        return {"nt": True, "tags": ["bad " + case["bad"]]}
    ok(code == 0 and codeP == 0 and codeI == 0, "Cholesky of a positive definite matrix fails")
    L, Lp = dense(L), dense(Lp)
    lower(L, "chol")
    lower(Lp, "cholP")
    rel(L @ L.T, A, 1e-11, "L L'")
    P = permmat(Pr)
    PAP = P @ A @ P.T
    rel(Lp @ Lp.T, PAP, 1e-11, "permuted L L'")
    PL = P.T @ Lp
    rel(PL @ PL.T, A, 1e-11, "un-permuted root")
    Ai = np.linalg.inv(A)
    Linv = ms.compute_Linv(csc(Lp), 1)
    close_norm(dense(Linv) @ Lp, np.eye(n), 1e-9, "inverse of the factor")
    V = dense(ms.apply_eigen_perm(Pr, Linv))
    rel(V.T @ V, Ai, 1e-8, "inverse from the un-permuted inverse root")
    VI = dense(ms.apply_eigen_perm(PrI, csc(dense(LI))))
    rel(VI.T @ VI, Ai, 1e-8, "inverse from solve_LXX")
    b = A @ r.normal(size=n)
    LP, PrC, coef, c = ms.cpp_solve_coefXX(b, S)
    ok(c == 0, "solve_coefXX fails")
    d = np.sqrt(np.diag(A))
    close_norm(coef * d, np.linalg.solve(A / np.outer(d, d), b / d), 1e-8, "solution from solve_coefXX")
    PL = permmat(PrC).T @ dense(LP)
    rel(PL @ PL.T, A, 1e-11, "factor from solve_coefXX")
    inv, rank, c = ms.cpp_solve_qr(S)
    ok(c == 0, "solve_pqr fails")
    if case["scale"] == 0:
        ok(rank == n, "rank %d of a regular %d x %d matrix" % (rank, n, n))
        rel(dense(inv), Ai, 1e-7, "inverse from solve_pqr")
        K, mx, mn, kc = ms.est_condition(csc(L), csc(np.linalg.inv(L)), verbose=False)
        if n > 2:
            sv = np.linalg.svd(L, compute_uv=False)
            close(K, sv[0] / sv[-1], 1e-4, 0, "condition number")
            close([mx, mn], [sv[0], sv[-1]], 1e-4, 0, "extreme singular values")
            ok(kc == 0, "condition code")
    # triangular solves
    C = r.normal(size=(n, int(r.integers(1, 4)))) * (r.uniform(size=(n, 1)) < 0.7)
    Lt = np.tril(r.normal(size=(n, n)) * (r.uniform(size=(n, n)) < 0.5) * 0.5, -1) + np.diag(r.choice([-1, 1], n) * r.uniform(0.5, 2, n))
    x = dense(ms.cpp_solve_tr(csc(Lt), csc(C)))
    close_norm(Lt @ x, C, 1e-9, "lower triangular solve", floor=1)
    x = dense(ms.cpp_backsolve_tr(csc(Lt.T), csc(C)))
    close_norm(Lt.T @ x, C, 1e-9, "upper triangular solve", floor=1)
    dt, ro, co = ms.translate_sparse(S)
    M = np.zeros((n, n))
    M[ro, co] = dt
    close(M, A, 0, 0, "translate_sparse")
    return {"nt": n > 2 and case["pat"] != "diag", "tags": [case["pat"]]}


# ------------------------------------------------------------------ QR
@st.composite
def qr(draw):
    n = draw(st.integers(1, 10))
    return {"n": n, "m": n + draw(st.integers(0, 12)), "rank": draw(st.integers(1, n)), "full": draw(st.booleans()),
            "dens": draw(st.sampled_from([0.3, 0.6, 1.0])), "k": draw(st.sampled_from([-2, 0, 0, 2])), "seed": draw(SEED)}


def rect(r, m, n, rank, dens, dup=False):
    """m x n matrix of exact rank: independent sparse columns plus combinations of them, shuffled."""
    for _ in range(200):
        B = r.normal(size=(m, rank)) * (r.uniform(size=(m, rank)) < dens)
        for j in range(rank):
            B[j % m, j] += 2
        sv = np.linalg.svd(B, compute_uv=False)
        if sv[-1] > 0.1 * sv[0]:
            break
    else:
        B = np.eye(m)[:, :rank] + 0.1 * r.normal(size=(m, rank))
    A = np.concatenate([B, B @ r.integers(-2, 3, (rank, n - rank)).astype(float)], axis=1) if n > rank else B
    return A[:, r.permutation(n)]


def check_qr(case):
    r = rng(case)
    n, m = case["n"], case["m"]
    rk = n if case["full"] else case["rank"]
    A = rect(r, m, n, rk, case["dens"]) * 10.0 ** case["k"]
    S = csc(A)
    nrm = np.linalg.norm(A)
    Q, R, Pr, code = ms.cpp_qr(S)
    ok(code == 0, "pqr fails")
    Q, R = dense(Q), dense(R)
    P = permmat(Pr)
    close_norm(Q.T @ Q, np.eye(Q.shape[1]), 1e-9, "Q orthonormal")
    k = min(Q.shape[1], R.shape[0])
    if rk == n:
        close_norm(Q[:, :k] @ R[:k], A @ P, 1e-9, "Q R")
        ok(np.all(np.abs(np.tril(R, -1)) <= 1e-9 * nrm), "R not upper triangular")
    R, Pr, rank, code = ms.cpp_qrr(S)
    ok(code == 0, "pqrr fails")
    if case["k"] == 0:
        ok(rank == rk, "pqrr rank %d, matrix has %d" % (rank, rk))
        R = dense(R)
        shape(R, (rank, rank), "R")
        AP = (A @ permmat(Pr))[:, :rank]
        close_norm(R.T @ R, AP.T @ AP, 1e-9, "R'R on the pivoted columns")
    piv, rank = ms.cpp_dqrr(np.asfortranarray(A))
    ok(rank == rk, "dense rank %d, matrix has %d" % (rank, rk))
    ok(sorted(int(x) for x in piv) == list(range(n)), "dense pivot")
    ok(np.linalg.matrix_rank(A[:, np.asarray(piv[:rank], int)], tol=1e-9 * nrm) == rk, "first pivoted columns do not span the matrix")
    return {"nt": n > 2, "tags": ["full" if rk == n else "deficient"]}


# ------------------------------------------------------------------ penalised least squares
@st.composite
def coef(draw):
    n = draw(st.one_of(st.integers(2, 10), st.integers(2, 10), st.sampled_from([20, 35])))
    return {"n": n, "m": n + draw(st.integers(1, 30)), "rank": draw(st.integers(1, n)), "full": n > 10 or draw(st.booleans()), "ps": draw(st.booleans()),
            "prank": draw(st.integers(0, n)), "dens": draw(st.sampled_from([0.3, 0.6, 1.0])), "lam": draw(st.sampled_from([0.01, 1, 100])), "seed": draw(SEED)}


def check_coef(case):
    r = rng(case)
    n, m = case["n"], case["m"]
    rk = n if case["full"] else case["rank"]
    X = rect(r, m, n, rk, case["dens"])
    D = np.zeros((n, n))
    if case["prank"]:
        D[:, :case["prank"]] = r.normal(size=(n, case["prank"])) * (r.uniform(size=(n, case["prank"])) < case["dens"]) * np.sqrt(case["lam"])
    S = D @ D.T
    y = r.normal(size=m)
    H = X.T @ X + S
    e = np.linalg.eigvalsh(H)
    good = e[0] > 1e-6 * e[-1]
    tot = int((e > 1e-6 * e[-1]).sum())
    amb = np.any((e > 1e-13 * e[-1]) & (e < 1e-6 * e[-1]))
    Xs, Ss = csc(X), csc(S)
    if good:
        want = np.linalg.solve(H, X.T @ y)
        Hi = np.linalg.inv(H)
        for nm, f in (("solve_am", ms.cpp_solve_am), ("solve_coef", ms.cpp_solve_coef)):
            F, Pr, b, code = f(y, Xs, Ss)
            ok(code == 0, nm + " fails")
            close_norm(b, want, 1e-7, nm + " coefficients")
            if nm == "solve_am":
                V = dense(F) @ permmat(Pr)
                close_norm(V.T @ V, Hi, 1e-7, nm + " inverse root")
            else:
                L = permmat(Pr).T @ dense(F)
                close_norm(L @ L.T, H, 1e-10, nm + " root")
        F, Pr, code = ms.cpp_solve_L(Xs, Ss)
        ok(code == 0, "solve_L fails")
        V = dense(F) @ permmat(Pr)
        close_norm(V.T @ V, Hi, 1e-7, "solve_L inverse root")
        for root in (None, csc(D)):
            eta, mu, b, Pr, P, LP, keep, drop = update_coef(y.reshape(-1, 1) if False else y, Xs, Xs, Gaussian(), Ss, root, 1, None, 0.5)
            close_norm(np.ravel(b), want, 1e-7, "coefficient update (%s)" % ("QR" if root is not None else "Cholesky"))
            close_norm(np.ravel(eta), X @ want + 0.5, 1e-7, "linear predictor of the update")
            L = dense(P).T @ dense(LP)
            close_norm(L @ L.T, H, 1e-9, "root returned by the update")
    if not amb and not good:
        # deficient: the QR route drops exactly the unidentifiable columns and still minimises the criterion
        eta, mu, b, Pr, P, LP, keep, drop = update_coef(y, Xs, Xs, Gaussian(), Ss, csc(D), 1, None, 0)
        b = np.ravel(b)
        ok(len(keep) == tot and len(keep) + len(drop) == n, "kept %d coefficients of a problem with rank %d" % (len(keep), tot))
        ok(np.all(b[drop] == 0), "dropped coefficients are not zero")
        g = X.T @ (y - X @ b) - S @ b
        ok(np.max(np.abs(g)) <= 1e-6 * np.sqrt(e[-1]) * np.linalg.norm(y), "not a minimiser: gradient %g" % np.max(np.abs(g)))
        Hk = H[np.ix_(keep, keep)]
        L = dense(P).T @ dense(LP)
        close_norm(L @ L.T, Hk, 1e-8, "root for the kept coefficients")
    return {"nt": n > 2, "tags": ["regular" if good else "ambiguous" if amb else "deficient", "pen" if case["prank"] else "nopen"]}


# ------------------------------------------------------------------ dependencies
@st.composite
def deps(draw):
    n1, n2 = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    return {"n1": n1, "n2": n2, "m": n1 + n2 + draw(st.integers(2, 20)), "ndep": draw(st.integers(0, n2)), "inner": draw(st.booleans()), "seed": draw(SEED)}


def check_deps(case):
    r = rng(case)
    m, n1, n2, nd = case["m"], case["n1"], case["n2"], case["ndep"]
    X1 = rect(r, m, n1, n1, 1.0)
    B = rect(r, m, n1 + n2, n1 + n2, 1.0)[:, :n2]
    X2 = B.copy()
    dep = r.permutation(n2)[:nd]
    free = [j for j in range(n2) if j not in dep]
    for j in dep:
        X2[:, j] = X1 @ r.normal(size=n1)
        if case["inner"] and free:
            X2[:, j] += X2[:, free] @ r.normal(size=len(free))
    piv, rank = eigen_solvers.id_dependencies(np.asfortranarray(X1), np.asfortranarray(X2), 1e-9)
    want = np.linalg.matrix_rank(np.concatenate([X1, X2], axis=1), tol=1e-8 * np.linalg.norm(X1)) - n1
    ok(sorted(int(x) for x in piv) == list(range(n2)), "pivot")
    ok(rank == want, "%d columns reported independent, %d are" % (rank, want))
    k = np.concatenate([X1, X2[:, np.asarray(piv[:rank], int)]], axis=1)
    ok(np.linalg.matrix_rank(k, tol=1e-8 * np.linalg.norm(X1)) == n1 + rank, "the columns reported independent are not")
    return {"nt": nd > 0, "tags": ["%d dependent" % min(nd, 3)]}


# ------------------------------------------------------------------ dropping unidentifiable coefficients
@st.composite
def drops(draw):
    n = draw(st.integers(4, 9))
    return {"n": n, "rank": draw(st.integers(2, n)), "prank": draw(st.integers(0, 3)), "method": draw(st.sampled_from(["QR", "QR", "LU", "Direct"])), "seed": draw(SEED)}


def check_drops(case):
    r = rng(case)
    n = case["n"]
    X = rect(r, n + 20, n, case["rank"], 1.0)
    H = X.T @ X
    D = np.zeros((n, n))
    if case["prank"]:
        D[:, :case["prank"]] = r.normal(size=(n, case["prank"]))
    S = D @ D.T
    Sn = S / max(np.linalg.norm(S), 1e-300) if case["prank"] else S
    T = H / np.linalg.norm(H) + Sn
    d = np.diag(T).copy()
    d[d < 1e-20] = 1
    d = 1 / np.sqrt(d)
    e = np.linalg.eigvalsh(T * np.outer(d, d))
    if np.any((e > 1e-13) & (e < 1e-4)):
        return {"nt": False, "tags": ["ambiguous"]}
    want = int((e > 1e-4).sum())
    keep, drop = identify_drop(csc(-H), csc(Sn), case["method"], 1)
    keep, drop = np.asarray(keep, int), np.asarray(drop, int)
    ok(sorted(list(keep) + list(drop)) == list(range(n)), "kept and dropped do not partition the coefficients")
    if case["method"] == "QR" or want == n:
        ok(len(keep) == want, "%s keeps %d coefficients, rank is %d" % (case["method"], len(keep), want))
        Tk = (T * np.outer(d, d))[np.ix_(keep, keep)]
        ok(np.linalg.matrix_rank(Tk, tol=1e-9) == len(keep), "kept coefficients are not identifiable")
    # LU and Direct are documented as approximate: they may leave dependencies, but not drop beyond the kernel
    ok(len(keep) >= want, "%s keeps %d coefficients, rank is %d" % (case["method"], len(keep), want))
    return {"nt": want < n, "tags": [case["method"]]}


# ------------------------------------------------------------------ traces
@st.composite
def traces(draw):
    c = draw(fgen.formula(maxt=3))
    for t in c["terms"]:
        if t["t"] in ("ri", "rs") or (t["t"] == "f" and not t.get("by") and not t.get("null") and len(t["v"]) == 1 and len(t["m"]) == 1):
            t["id"] = draw(st.sampled_from([None, 20, 20]))
    c["lseed"] = draw(SEED)
    c["ndrop"] = draw(st.sampled_from([0, 0, 1, 3]))
    return c


def check_traces(case):
    df = fgen.frame(case)
    F = fgen.mk_formula(case, df)
    pens = combine_shared_penalties(build_penalties(F))
    if not pens:
        return {"nt": False}
    r = np.random.default_rng(case["lseed"])
    n = pens[0].S_J_emb.shape[0]
    B = r.normal(size=(n + 5, n)) * (r.uniform(size=(n + 5, n)) < 0.4)
    H = B.T @ B + np.eye(n)
    S = np.zeros((n, n))
    for p in pens:
        p.lam = float(10 ** r.uniform(-2, 2))
        W = dense(p.S_J_emb)
        S += p.lam * W / max(1, np.abs(W).max())
    H = H + S
    H = (H + H.T) / 2
    drop = np.sort(r.choice(n, size=min(case["ndrop"], n - 1), replace=False)) if case["ndrop"] else None
    keep = np.arange(n) if drop is None else np.array([i for i in range(n) if i not in drop])
    Hk = H[np.ix_(keep, keep)]
    V = np.linalg.inv(Hk)
    LP, Pr, code = ms.cpp_cholP(csc(Hk))
    P = ms.compute_eigen_perm(Pr)
    single = split_shared_penalties(pens)
    want, split_ids = [], []
    for k, p in enumerate(single):
        W = dense(p.S_J_emb)[np.ix_(keep, keep)]
        want.append(float(np.sum(V * W)))
        got = ms.compute_B(LP, P, p, 1, drop)
        close(got, want[-1], 1e-7, 1e-9, "trace for penalty %d (%s, start %s, rep %s)" % (k, p.type, p.start_index, p.rep_sj))
    lams = np.array([p.lam for p in single])
    routes = [("factor", dict(LP=LP, Pr=Pr, InvCholXXS=None))]
    if drop is None:
        Linv = ms.apply_eigen_perm(Pr, ms.compute_Linv(LP, 1))
        routes.append(("inverse", dict(LP=None, Pr=None, InvCholXXS=Linv)))
    for nm, kw in routes:
        edf, away, Bs = calculate_edf(kw["LP"], kw["Pr"], kw["InvCholXXS"], pens, None, n, 1, drop, None)
        close(away, lams * np.array(want), 1e-7, 1e-9, "parameters penalised away (%s)" % nm)
        close(edf, n - np.sum(lams * np.array(want)), 1e-7, 1e-8, "total edf (%s)" % nm)
        # per smoothing parameter
        left = list(range(len(Bs)))
        ok(len(Bs) == len(pens), "%d traces for %d smoothing parameters" % (len(Bs), len(pens)))
        for m, b in zip(pens, Bs):
            W = dense(m.S_J_emb)[np.ix_(keep, keep)]
            close(b, float(np.sum(V * W)), 1e-7, 1e-9, "trace per smoothing parameter (%s)" % nm)
    # per term
    if drop is None:
        te = calculate_term_edf(pens, list(lams * np.array(want)))
        blocks = {}
        for p, w, lam in zip(single, want, lams):
            k = p.S_J.shape[1] * p.rep_sj
            blocks.setdefault(int(p.start_index), [k, 0.0])[1] += lam * w
        ok(len(te) == len(blocks), "edf for %d blocks, expected %d" % (len(te), len(blocks)))
        close(te, [blocks[k][0] - blocks[k][1] for k in sorted(blocks)], 1e-7, 1e-8, "edf per block of penalised coefficients")
        return {"nt": True, "tags": ["%d penalties" % min(len(single), 6), "shared" if len(pens) < len(single) else "-"]}
    return {"nt": True, "tags": ["dropped"]}


# ------------------------------------------------------------------ several cores
@st.composite
def cores(draw):
    return {"n": draw(st.sampled_from([8100, 6003, 4000, 4100, 12001])), "n_c": draw(st.sampled_from([4, 3, 2, 6])), "bw": draw(st.integers(2, 6)), "const": draw(st.booleans()), "seed": draw(SEED)}


def check_cores(case):
    from mssm.src.python.custom_types import LambdaTerm, PenType
    r = rng(case)
    n, k = case["n"], case["bw"]
    blocks = []
    i = 0
    while i < n:
        b = min(k, n - i)
        M = np.tril(r.normal(size=(b, b)), -1) + np.diag(r.uniform(0.5, 2, b))
        if case["const"]:  # a balanced design: every part contributes the same
            M = np.diag(np.full(b, 2.0))
        blocks.append(M)
        i += b
    L = sp.block_diag(blocks, format="csc")
    L = sp.csc_array(L)
    L.eliminate_zeros()
    L.sort_indices()
    one = ms.compute_Linv(L, 1)
    many = ms.compute_Linv(L, case["n_c"])
    shape(many, (n, n), "inverse by blocks")
    ok(abs(one - sp.csc_array(many)).max() == 0, "the inverse depends on the number of cores")
    ok(abs(L @ one - sp.identity(n)).max() < 1e-8, "inverse")
    D = sp.csc_array(sp.diags(np.ones(n) if case["const"] else r.uniform(0.5, 1.5, n)))
    t = LambdaTerm(start_index=0, type=PenType.IDENTITY)
    t.D_J_emb, t.S_J_emb, t.S_J, t.rep_sj = D, sp.csc_array(D @ D), sp.csc_array(D @ D), 1
    P = ms.compute_eigen_perm(r.permutation(n))
    a, b = ms.compute_B(L, P, t, 1, None), ms.compute_B(L, P, t, case["n_c"], None)
    want = ((one @ (P @ D)) ** 2 if False else (one @ (P @ D)).power(2)).sum()
    close(a, want, 1e-9, 0, "trace on one core")
    close(b, want, 1e-9, 0, "trace on %d cores" % case["n_c"])
    return {"nt": True, "tags": ["%d cores" % case["n_c"]]}


# ------------------------------------------------------------------ clustered (approximate) traces of factor smooths
@st.composite
def clusters(draw):
    lv = draw(st.integers(1, 60))
    return {"lv": lv, "k": draw(st.integers(2, 5)), "defect": draw(st.integers(0, 1)), "start": draw(st.integers(0, 3)), "tail": draw(st.integers(0, 2)),
            "nclu": draw(st.sampled_from(["all", "all", "some"])), "n_c": 1 if draw(st.integers(0, 25)) else 2, "seed": draw(SEED)}


def check_clusters(case):
    """compute_B with clusters: every cluster counts with the trace of its representative, weighted (lower) or once per member (upper);
    with one cluster per level and weight 1 both are the exact trace."""
    from mssm.src.python.custom_types import LambdaTerm, PenType
    r = rng(case)
    lv, k, a = case["lv"], case["k"], case["start"]
    rank = k - case["defect"]
    n = a + lv * k + case["tail"]
    B = r.normal(size=(n + 5, n)) * (r.uniform(size=(n + 5, n)) < 0.2)
    H = csc(B.T @ B + np.eye(n))
    D0 = np.zeros((k, k))
    D0[:, :rank] = r.normal(size=(k, rank))
    D = np.zeros((n, n))
    for q in range(lv):
        D[a + q * k:a + (q + 1) * k, a + q * k:a + (q + 1) * k] = D0
    t = LambdaTerm(start_index=a, type=PenType.DIFFERENCE)
    t.S_J, t.D_J_emb, t.S_J_emb, t.rep_sj, t.rank = csc(D0 @ D0.T), csc(D), csc(D @ D.T), lv, rank * lv
    lab = np.arange(lv) if case["nclu"] == "all" else r.integers(0, max(1, lv // 2), lv)
    grp = [np.flatnonzero(lab == g) for g in np.unique(lab)]
    t.clust_series = [int(g[r.integers(len(g))]) for g in grp]
    t.clust_weights = [np.ones(len(g)) if case["nclu"] == "all" else r.uniform(0.1, 1, len(g)) for g in grp]
    LP, Pr, code = ms.cpp_cholP(H)
    V = np.linalg.inv(dense(H))
    S0 = D0 @ D0.T
    tr = [float(np.sum(V[a + q * k:a + (q + 1) * k, a + q * k:a + (q + 1) * k] * S0)) for q in range(lv)]
    lw, up = ms.compute_B(LP, ms.compute_eigen_perm(Pr), t, case["n_c"], None)
    close(lw, sum(sum(w) * tr[s] for w, s in zip(t.clust_weights, t.clust_series)), 1e-8, 1e-12, "lower approximation of the trace (%d cores)" % case["n_c"])
    close(up, sum(len(w) * tr[s] for w, s in zip(t.clust_weights, t.clust_series)), 1e-8, 1e-12, "upper approximation of the trace (%d cores)" % case["n_c"])
    return {"nt": lv > 1, "tags": ["exact" if case["nclu"] == "all" else "clustered", "%d cores" % case["n_c"], "pool" if len(grp) >= 20 * case["n_c"] else "serial"]}


SUBS = [
    Sub("chol", chol(), check_chol, 1500, 20000, weight=1),
    Sub("qr", qr(), check_qr, 1000, 20000, weight=0.6),
    Sub("coef", coef(), check_coef, 1000, 20000, weight=1),
    Sub("dependencies", deps(), check_deps, 500, 8000, weight=0.4),
    Sub("drop", drops(), check_drops, 500, 6000, weight=2),
    Sub("trace", traces(), check_traces, 900, 8000, weight=4),
    Sub("cores", cores(), check_cores, 10, 40, weight=200),
    Sub("clusters", clusters(), check_clusters, 150, 800, weight=20),
]
