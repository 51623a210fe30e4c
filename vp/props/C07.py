"""C07 Penalty matrices are the defined quadratic forms."""
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub
from vp.util import close, close_norm, ok, shape, dense, rng, fail, SEED
from vp import fgen
from mssm.src.python.formula import build_penalties
from mssm.src.python.penalties import (DifferencePenalty, IdentityPenalty, TP_pen, combine_shared_penalties, split_shared_penalties,
                                       embed_shared_penalties)
from mssm.src.python.custom_types import Constraint, ConstType, PenType
from mssm.src.python.gamm_solvers import compute_S_emb_pinv_det, compute_lgdetD_bsb
import scipy.sparse as sp

PROPERTY = "C07"
RULE = ("A case is a penalty constructor call (order, size, constraint), a tensor margin, or a generated formula (or two to three formulas with extra "
        "coefficients) with all its penalties, shared smoothing parameters and smoothing parameter values; non-trivial = at least one penalty with "
        "more than one coefficient.")
ASSUME = ["Constraint and reparameterisation maps are read from the terms and validated by C06.",
          "Ranks are compared where the eigenvalue gap at the numerical zero is unambiguous."]


def drank(S):
    """Numerical rank, or None where the gap is not clear."""
    e = np.linalg.eigvalsh((S + S.T) / 2)
    m = max(e.max(), 0)
    if m == 0:
        return 0
    a, b = int((e > 1e-7 * m).sum()), int((e > 1e-12 * m).sum())
    return a if a == b else None


def mat(d, r, c, n, m=None):
    out = np.zeros((n, m or n))
    np.add.at(out, (np.asarray(r, int), np.asarray(c, int)), np.asarray(d, float))
    return out


# ------------------------------------------------------------------ constructors
@st.composite
def ctor(draw):
    kind = draw(st.sampled_from(["diff", "diff", "diff", "id", "dist"]))
    n = draw(st.integers(3, 25))
    return {"kind": kind, "n": n, "m": draw(st.integers(0, min(4, n - 1))), "con": draw(st.sampled_from(["none", "QR", "DROP", "DIFF"])),
            "z": draw(st.integers(0, n - 1)), "fn": draw(st.sampled_from(["lin", "sq", "one"])), "seed": draw(SEED)}


def mkcon(case, n, r):
    if case["con"] == "QR":
        a = r.uniform(0.1, 1, (n, 1))
        Q = np.linalg.qr(np.concatenate([a, r.normal(size=(n, n - 1))], axis=1))[0]
        return Constraint(Q[:, 1:], ConstType.QR)
    if case["con"] == "DROP":
        return Constraint(case["z"] % n, ConstType.DROP)
    if case["con"] == "DIFF":
        return Constraint(case["z"] % n, ConstType.DIFF)
    return None


def check_ctor(case):
    r = rng(case)
    n = case["n"]
    con = mkcon(case, n, r)
    k = n - (con is not None)
    if case["kind"] == "diff":
        if case["con"] == "DIFF" and case["m"] == 0:
            return {"nt": False}
        T = fgen.cmap(con, n) if con is not None else np.eye(n)
        W = T.T @ fgen.diffpen(n, case["m"]) @ T
        out = DifferencePenalty().constructor(n, con, m=case["m"])
        # quadratic form on functions: squared m-th differences of the unconstrained coefficients
        b = r.normal(size=k)
        q = np.sum(np.diff(T @ b, case["m"]) ** 2)
    else:
        f = {"lin": lambda i: float(i), "sq": lambda i: float(i * i), "one": lambda i: 1.0}[case["fn"]]
        if case["kind"] == "id":
            out = IdentityPenalty(PenType.IDENTITY).constructor(n, con)
            W = np.eye(k)
        else:
            out = IdentityPenalty(PenType.DISTANCE).constructor(n, con, f=f)
            W = np.diag([f(i + 1) for i in range(k)])
        b = r.normal(size=k)
        q = b @ W @ b
    pd_, pr, pc, cd, cr, cc, rank = out
    S = mat(pd_, pr, pc, k)
    nc = max(k, (max(cc) + 1) if len(cc) else 1)
    D = mat(cd, cr, cc, k, nc)
    close_norm(S, W, 1e-10, "penalty")
    close_norm(D @ D.T, W, 1e-9, "root of the penalty")
    ok(nc <= k, "root has %d columns for %d coefficients" % (nc, k))
    close(b @ S @ b, q, 1e-9, 1e-10, "quadratic form")
    want = drank(W)
    ok(want is None or want == rank, "rank %s, matrix has rank %s" % (rank, want))
    return {"nt": k > 1, "tags": [case["kind"] + "+" + case["con"]]}


@st.composite
def tp(draw):
    d = draw(st.integers(2, 3))
    return {"ks": [draw(st.integers(3, 5)) for _ in range(d)], "j": draw(st.integers(0, d - 1)), "m": draw(st.integers(1, 2)),
            "con": draw(st.sampled_from(["none", "QR", "DROP", "DIFF"])), "scale": draw(st.booleans()), "z": draw(st.integers(0, 26)), "seed": draw(SEED)}


def check_tp(case):
    r = rng(case)
    ks, j = case["ks"], case["j"]
    S = fgen.diffpen(ks[j], case["m"])
    D = np.diff(np.eye(ks[j]), case["m"])
    D = np.concatenate([D, np.zeros((ks[j], ks[j] - D.shape[1]))], axis=1)
    p = int(np.prod(ks))
    con = mkcon(case, p, r)
    pd_, pr, pc, cd, cr, cc = TP_pen(sp.csc_array(S), sp.csc_array(D), j, list(ks), con, case["scale"])
    W = np.eye(1)
    for q in range(len(ks)):
        W = np.kron(W, (S / np.linalg.eigvalsh(S)[-1] if case["scale"] else S) if q == j else np.eye(ks[q]))
    if con is not None:
        T = fgen.cmap(con, p)
        W = T.T @ W @ T
    k = W.shape[0]
    close_norm(mat(pd_, pr, pc, k), W, 1e-10, "tensor penalty")
    nc = max(k, max(cc) + 1)
    R = mat(cd, cr, cc, k, nc)
    close_norm(R @ R.T, W, 1e-9, "root of the tensor penalty")
    return {"nt": True, "tags": [case["con"], "d%d" % len(ks)]}


# ------------------------------------------------------------------ formulas
def nulls(S):
    e, U = np.linalg.eigh((S + S.T) / 2)
    U = U[:, e <= 1e-7]
    return U @ U.T, U.shape[1], e


def expected(case, R, F, idx):
    """[(term, embedded S, id)] in penalty order; None where a null space is numerically ambiguous."""
    n = sum(len(v) for v in idx.values())
    out = []

    def emb(blocks, at):
        W = np.zeros((n, n))
        for b in blocks:
            W[at:at + b.shape[0], at:at + b.shape[0]] = b
            at += b.shape[0]
        return W

    for ti in R.order():
        t, term = case["terms"][ti], F.terms[ti]
        k = t["t"]
        if k in ("i", "l") or t.get("pen", True) is False or len(idx[ti]) == 0:
            continue
        at = int(idx[ti][0])
        if k == "ri":
            out.append((ti, emb([np.eye(len(idx[ti]))], at), t.get("id")))
            continue
        if k == "rs":
            if t["by"] is None:
                out.append((ti, emb([np.eye(len(idx[ti]))], at), t.get("id")))
            else:
                L = len(R.levels[t["by"]])
                p = len(idx[ti]) // L
                for q in range(L):
                    out.append((ti, emb([np.eye(p)], at + q * p), None if t.get("id") is None else t["id"] + q))
            continue
        if k == "irf":
            ks = t["nk"] if isinstance(t["nk"], list) else [t["nk"]]
            pens = []
            for q in range(len(ks)):
                K = np.eye(1)
                for w in range(len(ks)):
                    K = np.kron(K, fgen.diffpen(ks[w], t["m"]) if w == q else np.eye(ks[w]))
                pens.append(K)
        else:
            pens = R.term_pens(ti)
        p = pens[0].shape[0]
        by = t["rf"] if k == "fs" else t.get("by")
        if by is None:
            L = 1
        else:
            d = getattr(term, "drop_coef", None)
            L = (len(idx[ti]) + (len(d) if d is not None else 0)) // p
        tid = 99 if k == "fs" else t.get("id")
        drop = set(int(z) for z in (getattr(term, "drop_coef", None) or [])) if k != "irf" else set()
        keep = [[c for c in range(p) if l * p + c not in drop] for l in range(L)]
        start = [at + sum(len(x) for x in keep[:l]) for l in range(L)]
        for pj, P in enumerate(pens):
            blocks = [P[np.ix_(kk, kk)] for kk in keep]
            if by is not None and tid is None:
                for l in range(L):
                    out.append((ti, emb([blocks[l]], start[l]), None))
            else:
                out.append((ti, emb(blocks, at), None if by is not None or tid is None else tid + pj))
        if k == "fs" or t.get("null"):
            tot = sum(pens)
            if t["rp"] == 1:
                rk = drank(tot)
                if rk is None:
                    return None
                U = []
                for q in range(rk, p):
                    e = np.zeros((p, p))
                    e[q, q] = 1
                    U.append([e] * L)
            else:
                U = [[]]
                for kk in keep:
                    N, dim, ev = nulls(tot[np.ix_(kk, kk)])
                    if np.any((ev > 1e-10) & (ev < 1e-4)) or ev[-1] > 1e6:
                        return None
                    U[0].append(N)
            for blocks in U:
                if by is not None and tid is None:
                    for l in range(L):
                        out.append((ti, emb([blocks[l]], start[l]), None))
                else:
                    out.append((ti, emb(blocks, at), None))
    return out


@st.composite
def pform(draw):
    c = draw(fgen.formula(maxt=3))
    ids = [None, None, 20, 21]
    for t in c["terms"]:
        if t["t"] == "f" and not t.get("by") and not t.get("null"):
            # a smoothing parameter cannot be shared by terms with one and with several penalties (documented error)
            t["id"] = draw(st.sampled_from(ids if len(t["v"]) == 1 and len(t["m"]) == 1 else [None, None, 30, 40]))
        if t["t"] in ("ri", "rs"):
            t["id"] = draw(st.sampled_from(ids))
    if draw(st.integers(0, 5)) == 0:
        fs_ = [t for t in c["terms"] if t["t"] in ("f", "fs")]
        if fs_ and fs_[0]["t"] == "f" and not any(t["t"] == "irf" and t["pen"] for t in c["terms"]) and len(fs_[0]["v"]) == 1:
            fs_[0]["pen"] = False
            fs_[0]["null"] = False
            fs_[0]["rp"] = 0
            fs_[0]["id"] = None
    c["lseed"] = draw(SEED)
    return c


def onepen(pen, W, what):
    S = dense(pen.S_J_emb)
    shape(S, W.shape, what)
    close_norm(S, W, 1e-7, what + ": embedded penalty", floor=1e-3)
    D = dense(pen.D_J_emb)
    close_norm(D @ D.T, W, 1e-6, what + ": embedded root", floor=1e-3)
    B = np.kron(np.eye(pen.rep_sj), dense(pen.S_J))
    E = np.zeros_like(W)
    a = int(pen.start_index)
    E[a:a + len(B), a:a + len(B)] = B
    close_norm(E, W, 1e-7, what + ": S_J, rep_sj and start_index", floor=1e-3)
    rk = drank(W)
    ok(rk is None or rk == pen.rank, what + ": rank %s, matrix has %s" % (pen.rank, rk))
    e = np.linalg.eigvalsh((S + S.T) / 2)
    ok(e[0] >= -1e-8 * max(1, e[-1]), what + ": not positive semi-definite (%g)" % e[0])


def check_form(case):
    df = fgen.frame(case)
    F = fgen.mk_formula(case, df)
    pens = build_penalties(F)
    R = fgen.Ref(case, df, F.terms)
    _, _, idx = R.matrix(df)
    want = expected(case, R, F, idx)
    if want is None:
        return {"nt": False, "tags": ["ambiguous null space"]}
    ok(len(pens) == len(want), "%d penalties, expected %d" % (len(pens), len(want)))
    for k, (p, (ti, W, tid)) in enumerate(zip(pens, want)):
        what = "penalty %d (term %d)" % (k, ti)
        ok(p.term == ti, what + ": belongs to term %s" % p.term)
        onepen(p, W, what)
        ok(p.id == tid, what + ": shared id %s, expected %s" % (p.id, tid))
    if not pens:
        return {"nt": False}
    # shared smoothing parameters
    r = np.random.default_rng(case["lseed"])
    n = want[0][1].shape[0]
    merged = combine_shared_penalties(pens)
    keys = []
    for k, (ti, W, tid) in enumerate(want):
        key = ("id", tid) if tid is not None else ("pen", k)
        if key not in keys:
            keys.append(key)
    ok(len(merged) == len(keys), "%d smoothing parameters, expected %d" % (len(merged), len(keys)))
    groups = {}
    for k, (ti, W, tid) in enumerate(want):
        groups.setdefault(("id", tid) if tid is not None else ("pen", k), []).append((ti, W))
    left = dict(groups)
    tot = np.zeros((n, n))
    for m in merged:
        m.lam = float(10 ** r.uniform(-2, 3))
        S = dense(m.S_J_emb)
        hit = None
        for key, g in left.items():
            W = sum(x[1] for x in g)
            terms = [x[0] for x in g]
            mt = list(m.term) if isinstance(m.term, list) else [m.term]
            if sorted(mt) == sorted(terms) and np.max(np.abs(S - W)) <= 1e-7 * max(1e-3, np.abs(W).max()):
                hit = key
                break
        ok(hit is not None, "a combined penalty of terms %s is no sum of penalties sharing an id" % (m.term,))
        g = left.pop(hit)
        W = sum(x[1] for x in g)
        rk = drank(W)
        ok(rk is None or len(g) > 1 or m.rank == rk, "rank of combined penalty %s, expected %s" % (m.rank, rk))
        ok(len(g) == 1 or m.rank == sum(drank(x[1]) or 0 for x in g) or any(drank(x[1]) is None for x in g), "rank of combined penalty")
        D = dense(m.D_J_emb)
        close_norm(D @ D.T, W, 1e-6, "root of combined penalty", floor=1e-3)
        tot += m.lam * W
    sp_ = split_shared_penalties(merged)
    ok(len(sp_) == len(want), "splitting gives %d penalties, expected %d" % (len(sp_), len(want)))
    close_norm(sum(s.lam * dense(s.S_J_emb) for s in sp_), tot, 1e-7, "sum of the split penalties")
    close_norm(sum(m.lam * dense(m.S_J_emb) for m in merged), tot, 1e-7, "sum of the combined penalties")
    totals(n, merged, tot)
    return {"nt": True, "tags": [case["terms"][x[0]]["t"] for x in want] + (["shared"] if len(merged) < len(want) else [])}


def totals(n, merged, tot):
    """The assembled total penalty, its root and its (pseudo-)determinant derivatives."""
    S, pinv, root, use = compute_S_emb_pinv_det(n, merged, "svd", True)
    close_norm(S, tot, 1e-7, "total penalty")
    Rt = dense(root)
    close_norm(Rt @ Rt.T, tot, 1e-6, "root of the total penalty")
    ok(len(use) == len(merged), "rank decisions")
    e, U = np.linalg.eigh((tot + tot.T) / 2)
    if np.any((e > 1e-11 * e[-1]) & (e < 1e-5)) or e[-1] / max(e[e > 1e-5].min(), 1e-300) > 1e9:
        return
    k = e > 1e-5
    P = (U[:, k] / e[k]) @ U[:, k].T
    for m, u in zip(merged, use):
        W = dense(m.S_J_emb)
        if not np.any(W):
            continue
        d = np.trace(P @ W)
        got, _ = compute_lgdetD_bsb(m.rank if u else None, m.lam, pinv, m.S_J_emb, np.zeros((n, 1)))
        close(got, d, 1e-5, 1e-7, "derivative of the log pseudo-determinant (rank used: %s)" % u)


@st.composite
def multi(draw):
    return {"forms": [draw(fgen.formula(irf=False, maxt=2, n=(70, 90))) for _ in range(draw(st.integers(2, 3)))],
            "extra": draw(st.sampled_from([None, 0, 1, 4])), "seed": draw(SEED)}


def check_multi(case):
    r = rng(case)
    pens, wants, Fs = [], [], []
    for c in case["forms"]:
        df = fgen.frame(c)
        F = fgen.mk_formula(c, df)
        p = build_penalties(F)
        R = fgen.Ref(c, df, F.terms)
        w = expected(c, R, F, R.matrix(df)[2])
        if w is None or len(w) != len(p):
            return {"nt": False}
        pens.append(p)
        wants.append(w)
        Fs.append(F)
    n = sum(F.n_coef for F in Fs) + (case["extra"] or 0)
    out = embed_shared_penalties(pens, Fs, case["extra"])
    at = 0
    flat = []
    tot = np.zeros((n, n))
    for k, (F, ws) in enumerate(zip(Fs, wants)):
        for p, (ti, W, tid) in zip(out[k], ws):
            E = np.zeros((n, n))
            E[at:at + F.n_coef, at:at + F.n_coef] = W
            onepen(p, E, "formula %d penalty of term %d" % (k, ti))
            ok(p.dist_param == k, "formula index %s, expected %d" % (p.dist_param, k))
            p.lam = float(10 ** r.uniform(-2, 3))
            p.id = None
            tot += p.lam * E
            flat.append(p)
        at += F.n_coef
    if flat:
        totals(n, flat, tot)
    return {"nt": len(flat) > 0, "tags": ["%d formulas" % len(Fs), "extra %s" % case["extra"]]}


SUBS = [
    Sub("ctor", ctor(), check_ctor, 1200, 8000, weight=0.3),
    Sub("tensor", tp(), check_tp, 250, 3000, weight=0.6),
    Sub("formula", pform(), check_form, 1800, 20000, weight=4),
    Sub("multi", multi(), check_multi, 600, 8000, weight=6),
]
