"""C20: compact quasi-Newton forms, their structured versions, and Cholesky derivatives."""
import numpy as np
import scipy as scp
from hypothesis import strategies as st
from vp.core import Sub, Skip, Violation
from vp.util import close_norm, dense, ok, SEED

PROPERTY = "C20"
RULE = ("Cases: 1-5 pairs of update vectors in 2-9 dimensions from positive definite, indefinite or no underlying matrix, scaled identities as start; structured forms with "
        "any subset of columns known exactly, dampened or not, positive/semi-definite/indefinite exact blocks, random semi-definite penalties; random positive definite "
        "matrices and directions for the factor derivatives. Oracle: rank-one updates applied one by one on dense matrices, spectral clipping, dense block formulas and "
        "inverses, central differences of scipy Cholesky factors. Non-trivial: at least two update pairs (or a matrix of order two).")
ASSUME = ["update pairs with tiny denominators (below 1e-2 of the norms) are excluded, as in any SR1 implementation"]

FLAG = st.booleans()


def pairs(c, p, m, r):
    kind = c["mat"]
    if kind == "none":
        M = None
    else:
        Q = np.linalg.qr(r.normal(size=(p, p)))[0]
        ev = np.exp(r.uniform(-1.5, 1.5, p))
        if kind == "indef":
            ev *= np.where(r.uniform(size=p) < 0.4, -1, 1)
        M = Q @ np.diag(ev) @ Q.T
    s = r.normal(size=(m, p)) * np.exp(r.uniform(-1, 1, (m, 1)))
    y = (s @ M) if M is not None else r.normal(size=(m, p))
    y = y + c["noise"] * r.normal(size=(m, p))
    if np.any(np.abs(np.einsum("ij,ij->i", s, y)) < 1e-3 * np.linalg.norm(s, axis=1) * np.linalg.norm(y, axis=1)):
        raise Skip("orthogonal pair")
    return s, y


def sr1(s, y, H, inverse=False):
    """SR1 updates one after another; inverse=True is the dual formula."""
    H = H.copy()
    for a, b in zip(s, y):
        if inverse:
            a, b = b, a
        d = b - H @ a
        den = d @ a
        if abs(den) < 1e-2 * np.linalg.norm(d) * np.linalg.norm(a):
            raise Skip("tiny denominator")
        H = H + np.outer(d, d) / den
    return H


def omega_ref(s, y, method):
    if method == "NoWr":
        w = y[-1] @ y[-1] / (y[-1] @ s[-1])
    else:
        o = np.array([a @ b / (a @ a) for a, b in zip(s, y)])
        if method == "mean":
            w = o.mean()
        else:
            w = o.min()
    return w if w >= 0 else 1.0


@st.composite
def g_sr1(draw):
    p = draw(st.integers(2, 9))
    return {"p": p, "m": draw(st.integers(1, min(p, 5))), "mat": draw(st.sampled_from(["pd", "indef", "none"])),
            "noise": draw(st.sampled_from([0.0, 0.05, 0.5])), "omega": draw(st.sampled_from([0.1, 1.0, 3.7, 25.0])),
            "seed": draw(SEED)}


def psd_expect(Href, omega, m, make_pd):
    """(expected, tolerance) after clipping; the added positive amount is at most 1e-6 of the largest eigenvalue"""
    ev, U = np.linalg.eigh((Href + Href.T) / 2)
    sc = max(np.abs(ev).max(), omega)
    if np.any(np.abs(ev) < 1e-6 * sc):
        raise Skip("eigenvalue at zero")
    return (U * np.maximum(ev, 0)) @ U.T, bool(np.any(ev < 0)), sc


def c_sr1(c):
    from mssm.src.python.compact_rep import computeHSR1, computeVSR1, compute_omega
    r = np.random.default_rng(c["seed"])
    p, m, om = c["p"], c["m"], c["omega"]
    s, y = pairs(c, p, m, r)
    rho = 1 / np.einsum("ij,ij->i", s, y)
    I = scp.sparse.identity(p, format="csc") * om
    tags = [c["mat"]]
    n = 0
    for name, f, inv in (("H", computeHSR1, False), ("V", computeVSR1, True)):
        try:
            ref = sr1(s, y, om * np.eye(p), inv)
        except Skip:
            continue
        n += 1
        S, Y = s.T, y.T
        if inv:
            S, Y = Y, S
        # middle matrix conditioning drives the error of the closed form
        SY = S.T @ Y
        Mid = np.tril(SY) + np.tril(SY, -1).T - om * S.T @ S
        cond = np.linalg.cond(Mid)
        if cond > 1e7:
            continue
        tol = 1e-12 * cond * 10 + 1e-10
        sc = np.abs(ref).max()
        H = dense(f(s, y, rho, I, om))
        close_norm(H, ref, tol, "%s: compact form vs updates applied one by one" % name, floor=om)
        close_norm(H, H.T, 1e-8, name + ": symmetric", floor=om)
        a, b = (y[-1], s[-1]) if inv else (s[-1], y[-1])
        close_norm(H @ a, b, max(tol, 1e-9) * 10, name + ": secant equation of the last pair", floor=sc * np.linalg.norm(a))
        t1, t2, t3 = f(s, y, rho, I, om, explicit=False)
        close_norm(om * np.eye(p) + dense(t1) @ dense(t2) @ dense(t3), ref, tol, name + ": implicit form", floor=om)
        try:
            exp, neg, sc = psd_expect(ref, om, m, False)
        except Skip:
            continue
        G = dense(f(s, y, rho, I, om, make_psd=True))
        close_norm(G, exp, tol * 10 + 1e-9, name + ": closest semi-definite form", floor=sc)
        t1, t2, t3 = f(s, y, rho, I, om, make_psd=True, explicit=False)
        close_norm(om * np.eye(p) + dense(t1) @ dense(t2) @ dense(t3), exp, tol * 10 + 1e-9, name + ": implicit semi-definite form", floor=sc)
        if neg:
            tags.append(name + " clipped")
        if not inv:
            G = dense(f(s, y, rho, I, om, make_psd=True, make_pd=True))
            close_norm(G, exp, tol * 10 + 1e-6, name + ": definite form stays close to the semi-definite one", floor=sc)
            ev = np.linalg.eigvalsh((G + G.T) / 2)
            if tol < 1e-9:
                ok(ev[0] > 1e-10 * ev[-1], "H: make_pd leaves an eigenvalue of %g (largest %g)" % (ev[0], ev[-1]))
    for method in ("NoWr", "mean", "min"):
        o = np.array([a @ b / (a @ a) for a, b in zip(s, y)])
        if method == "min" and np.any(o <= 0):
            continue
        got, want = compute_omega(y, s, method), omega_ref(s, y, method)
        ok(abs(got - want) <= 1e-10 * abs(want), "compute_omega(%s): %r, expected %r" % (method, got, want))
    return {"nt": n > 0 and m > 1, "tags": tags}


@st.composite
def g_struct(draw):
    p = draw(st.integers(3, 9))
    nf = draw(st.integers(1, p - 1))
    perm = draw(st.permutations(list(range(p))))
    na = p - nf
    return {"p": p, "fcols": sorted(perm[:nf]), "m": draw(st.integers(1, min(na, 4))), "mat": draw(st.sampled_from(["pd", "indef", "none"])),
            "noise": draw(st.sampled_from([0.0, 0.1, 0.5])), "damp": draw(st.sampled_from([1.0, 1.0, 0.5, 0.1, 0.0])),
            "dB": draw(st.sampled_from([1.0, 1.0, 0.3, 2.0])), "blk": draw(st.sampled_from(["pd", "pd", "indef", "sing"])),
            "psd": draw(FLAG), "pd": draw(FLAG), "sample": draw(FLAG), "pre": draw(FLAG), "opts": draw(FLAG), "seed": draw(SEED)}


def penalty(r, p, rank=None):
    rank = r.integers(0, p + 1) if rank is None else rank
    A = r.normal(size=(p, rank)) if rank else np.zeros((p, 0))
    A = A * np.exp(r.uniform(-1, 1))
    return A @ A.T, A


def lterm(Sj, start, length, rep):
    from mssm.src.python.custom_types import LambdaTerm
    lt = LambdaTerm()
    lt.start_index = start
    lt.rep_sj = rep
    b = length // rep
    lt.S_J = scp.sparse.csc_array(Sj[start:start + b, start:start + b])
    lt.S_J_emb = scp.sparse.csc_array(Sj)
    return lt


def check_V(V0, ts, Vref, tol, r, what):
    from mssm.src.python.gamm_solvers import computetrVS3
    t = [None if x is None else dense(x) for x in ts]
    V = dense(V0).copy()
    for i in (0, 3, 6):
        if t[i + 1] is not None:
            V = V - t[i] @ t[i + 1] @ t[i + 2]
    close_norm(V, Vref, tol, what)
    # trace of V S_j over a block penalty, repeated or not
    p = len(Vref)
    a = int(r.integers(0, p))
    L = int(r.integers(1, p - a + 1))
    rep = 2 if L % 2 == 0 and r.uniform() < 0.5 else 1
    b = L // rep
    A = r.normal(size=(b, b))
    S = np.zeros((p, p))
    for k in range(rep):
        S[a + k * b:a + (k + 1) * b, a + k * b:a + (k + 1) * b] = A @ A.T
    got = float(computetrVS3(*ts, lterm(S, a, L, rep), V0))
    want = float(np.trace(Vref @ S))
    ok(abs(got - want) <= tol * 10 * (np.abs(Vref).max() * np.abs(S).sum()), "%s: tr(V S_j) = %r, expected %r" % (what, got, want))


def c_struct(c):
    from mssm.src.python.gamm_solvers import makepdd_fd2llk, init_qEFS_storage, getExplicitnH, getCholnH, getImplicitV
    from mssm.src.python.compact_rep import computeSH, computeSVPS
    r = np.random.default_rng(c["seed"])
    p, m = c["p"], c["m"]
    f = np.array(c["fcols"])
    nf = len(f)
    acols = np.array([j for j in range(p) if j not in f])
    na = len(acols)
    # exact part: rows and columns f
    Q = np.linalg.qr(r.normal(size=(nf, nf)))[0]
    ev = np.exp(r.uniform(-1.5, 1.5, nf))
    if c["blk"] == "indef":
        ev[r.uniform(size=nf) < 0.5] *= -1
    elif c["blk"] == "sing":
        ev[0] = 0
    BB = Q @ np.diag(ev) @ Q.T
    BB = (BB + BB.T) / 2
    Bb = r.normal(size=(nf, na)) * 0.7
    nH0 = np.zeros((p, p))
    nH0[np.ix_(f, f)] = BB
    nH0[np.ix_(f, acols)] = Bb
    nH0[np.ix_(acols, f)] = Bb.T
    if c["blk"] == "sing" and not (c["psd"] and c["pd"]):
        raise Skip("exact zero eigenvalue decided by rounding")
    got, oBB, oI, oBb = makepdd_fd2llk(scp.sparse.csc_array(nH0), f, acols, c["damp"], c["psd"], c["pd"])
    e = ev.copy()
    if c["psd"] and c["pd"]:
        th = np.sqrt(np.finfo(float).eps) * np.abs(ev).max()
        e = np.where(e <= th, th, e)
        ie = 1 / e
    else:
        if c["psd"]:
            e = np.where(e <= 0, 0, e)
        ie = np.array([1 / v if v != 0 else 0.0 for v in e])
    rBB, rI = (Q * e) @ Q.T, (Q * ie) @ Q.T
    rBb = c["damp"] * Bb
    if c["psd"] and not c["pd"]:
        rBb = (Q * (e > 0)) @ Q.T @ rBb
    sI = np.abs(rI).max() if np.any(rI) else 1.0
    big = sI > 1e6
    close_norm(oBB, rBB, 1e-9, "exact block", floor=1)
    if not big:
        close_norm(oI, rI, 1e-9, "inverse of the exact block", floor=1)
    close_norm(oBb, rBb, 1e-9, "mixed block", floor=1)
    full = np.zeros((p, p))
    full[np.ix_(f, f)] = rBB
    full[np.ix_(f, acols)] = rBb
    full[np.ix_(acols, f)] = rBb.T
    close_norm(got, full, 1e-9, "matrix with exact and mixed blocks", floor=1)
    tags = [c["blk"], "damp=%g" % c["damp"]]
    if big:
        return {"nt": False, "tags": tags + ["near-singular exact block"]}

    # quasi-Newton part
    s, y = np.zeros((m, p)), np.zeros((m, p))
    sa, ya = pairs(c, na, m, r)
    s[:, acols], y[:, acols] = sa, ya
    s[:, f] = r.normal(size=(m, nf))
    y[:, f] = r.normal(size=(m, nf))
    om = c["dB"] * omega_ref(sa, ya, "mean" if c["sample"] else "NoWr")
    SY = sa @ ya.T
    cond = np.linalg.cond(np.tril(SY) + np.tril(SY, -1).T - om * sa @ sa.T)
    if cond > 1e6 or om < 1e-3 or om > 1e4:
        raise Skip("ill-conditioned pairs")
    D0 = sr1(sa, ya, om * np.eye(na))
    D, neg, sc = psd_expect(D0, om, m, False)
    if neg:
        tags.append("clipped")
    tol = 1e-11 * cond + 1e-9

    def block(Dm):
        H = full.copy()
        H[np.ix_(acols, acols)] = Dm + rBb.T @ rI @ rBb
        return H

    nHfd = scp.sparse.csc_array(full)
    fd = c["damp"] <= 0
    a = (y, s, nHfd, oI, f, acols, c["sample"], fd, c["dB"])
    hs = max(np.abs(block(D0)).max(), om)
    close_norm(computeSH(*a, make_psd=False), block(D0), tol, "structured form, no clipping", floor=hs)
    close_norm(computeSH(*a, make_psd=True), block(D), tol * 10, "structured semi-definite form", floor=hs)
    close_norm(computeSH(*a, make_psd=True, make_pd=True), block(D), tol * 10 + 1e-6, "structured definite form", floor=hs)
    imp = computeSH(*a, make_psd=True, explicit=False)
    d = [None if x is None else dense(x) for x in imp]
    G = d[0] + d[1] @ d[2] @ d[3] + d[6] @ d[7] @ d[8]
    if d[4] is not None:
        G = G + d[4] @ d[5]
    close_norm(G, block(D), tol * 10, "sum of the implicit structured updates", floor=hs)

    # inverse of the penalised matrix, only where every intermediate of the identity exists
    posblk = np.all(e > 0)
    if posblk:
        S, root = penalty(r, p)
        T = block(D) + S
        evT = np.linalg.eigvalsh(T)
        chain = [full_diag(rBB, om, f, acols, p) + S]
        chain.append(chain[0] + embed(rBb.T @ rI @ rBb, acols, p))
        chain.append(chain[1] + mixed(rBb, f, acols, p))
        if evT[0] > 1e-4 * evT[-1] and max(np.linalg.cond(x) for x in chain) < 1e5:
            Vref = np.linalg.inv(T)
            Semb = scp.sparse.csc_array(S)
            t2 = max(tol * 100, 1e-7)
            V = computeSVPS(*imp, Semb, fd, True, c["pre"], 1)
            close_norm(V, Vref, t2, "inverse of the penalised structured form")
            V0, *ts = computeSVPS(*imp, Semb, fd, False, c["pre"], 1)
            check_V(V0, ts, Vref, t2, r, "implicit inverse of the penalised structured form")
            tags.append("inverse")
            opts = {"dampen_HBb": c["damp"], "dampen_HBB": c["dB"], "pre_cond": c["pre"], "PD_HBB": c["pd"]}
            lo = storage(c, p, f, opts, s, y, nHfd, oI)
            V0, *ts = getImplicitV(lo, p, Semb, 1)
            check_V(V0, ts, Vref, t2, r, "getImplicitV (structured)")
            close_norm(getExplicitnH(lo, p, True, False), block(D), tol * 10, "getExplicitnH (structured)", floor=hs)
            close_norm(getExplicitnH(lo, p, False, False), block(D0), tol * 10, "getExplicitnH without clipping (structured)", floor=hs)
            Lp, P = getCholnH(lo, p, scp.sparse.csc_array(root if root.shape[1] else np.zeros((p, 1))), make_pd=False)
            check_chol(Lp, P, T, max(tol * 100, 1e-7))
            if c["opts"] and c["dB"] == 1 and c["damp"] == 1:
                # absent options mean the documented defaults
                lo2 = storage(c, p, f, {}, s, y, nHfd, oI)
                close_norm(getExplicitnH(lo2, p, True, False), block(D), tol * 10, "getExplicitnH with default options", floor=hs)
    return {"nt": m > 1, "tags": tags}


def full_diag(BB, om, f, acols, p):
    H = np.zeros((p, p))
    H[np.ix_(f, f)] = BB
    H[np.ix_(acols, acols)] = om * np.eye(len(acols))
    return H


def embed(M, acols, p):
    H = np.zeros((p, p))
    H[np.ix_(acols, acols)] = M
    return H


def mixed(Bb, f, acols, p):
    H = np.zeros((p, p))
    H[np.ix_(f, acols)] = Bb
    H[np.ix_(acols, f)] = Bb.T
    return H


def storage(c, p, f, opts, s, y, nHfd=None, I=None):
    from mssm.src.python.gamm_solvers import init_qEFS_storage
    lo = init_qEFS_storage(np.zeros((p, 1)), {}, c["sample"], 0, {}, f, opts)
    lo.sk, lo.yk = s, y
    lo.rho = 1 / np.einsum("ij,ij->i", s, y)
    lo.n_corrs = len(s)
    lo.nHfd, lo.IonHBB = nHfd, I
    return lo


def check_chol(Lp, P, T, tol):
    L = dense(Lp)
    close_norm(L, np.tril(L), 1e-12, "factor is lower triangular", floor=1)
    R = dense(P) @ L
    close_norm(R @ R.T, T, tol, "P L L' P' of getCholnH vs the penalised approximation")


@st.composite
def g_store(draw):
    p = draw(st.integers(2, 9))
    return {"p": p, "m": draw(st.integers(0, min(p, 4))), "mat": draw(st.sampled_from(["pd", "indef", "none"])),
            "noise": draw(st.sampled_from([0.0, 0.05, 0.5])), "sample": draw(FLAG), "seed": draw(SEED)}


def c_store(c):
    from mssm.src.python.gamm_solvers import getExplicitnH, getCholnH, getImplicitV
    r = np.random.default_rng(c["seed"])
    p, m = c["p"], c["m"]
    S, root = penalty(r, p)
    Semb = scp.sparse.csc_array(S)
    if m == 0:
        lo = storage(c, p, None, {}, np.zeros((0, p)), np.zeros((0, p)))
        V0, *ts = getImplicitV(lo, p, Semb, 1)
        check_V(V0, ts, np.linalg.inv(np.eye(p) + S), 1e-8, r, "getImplicitV without updates")
        return {"nt": False, "tags": ["no updates"]}
    s, y = pairs(c, p, m, r)
    om = omega_ref(s, y, "mean" if c["sample"] else "NoWr")
    SY = s @ y.T
    cond = np.linalg.cond(np.tril(SY) + np.tril(SY, -1).T - om * s @ s.T)
    if cond > 1e6 or om < 1e-3 or om > 1e4:
        raise Skip("ill-conditioned pairs")
    H0 = sr1(s, y, om * np.eye(p))
    H, neg, sc = psd_expect(H0, om, m, False)
    tol = 1e-11 * cond + 1e-9
    lo = storage(c, p, None, {}, s, y)
    close_norm(getExplicitnH(lo, p, False, False), H0, tol, "getExplicitnH", floor=om)
    close_norm(getExplicitnH(lo, p, True, False), H, tol * 10, "getExplicitnH, semi-definite", floor=om)
    close_norm(getExplicitnH(lo, p, True, True), H, tol * 10 + 1e-6, "getExplicitnH, definite", floor=om)
    T = H + S
    ev = np.linalg.eigvalsh(T)
    if ev[0] > 1e-4 * ev[-1] and np.linalg.cond(om * np.eye(p) + S) < 1e5:
        t2 = max(tol * 100, 1e-7)
        V0, *ts = getImplicitV(lo, p, Semb, 1)
        check_V(V0, ts, np.linalg.inv(T), t2, r, "getImplicitV")
        Lp, P = getCholnH(lo, p, scp.sparse.csc_array(root if root.shape[1] else np.zeros((p, 1))), make_pd=False)
        check_chol(Lp, P, T, t2)
    return {"nt": m > 1, "tags": ["clipped" if neg else "definite"]}


@st.composite
def g_chol(draw):
    return {"p": draw(st.integers(1, 8)), "q": draw(st.integers(1, 3)), "a": draw(st.sampled_from([-0.4, 0.0, 0.7, 3.0])),
            "sym": draw(FLAG), "order": draw(st.sampled_from(["F", "C"])), "seed": draw(SEED)}


def c_chol(c):
    import dChol
    r = np.random.default_rng(c["seed"])
    p = c["p"]
    B = r.normal(size=(p, p))
    H = B @ B.T + p * 0.3 * np.eye(p)
    A = r.normal(size=(p, p))
    A = (A + A.T) / 2 if c["sym"] else A @ A.T
    a = c["a"] if c["a"] >= 0 and not c["sym"] else 0.0
    up = lambda t: scp.linalg.cholesky(H + t * A, lower=False)
    R = up(a)
    h = 1e-4
    f = lambda g: (8 * (g(a + h) - g(a - h)) - (g(a + 2 * h) - g(a - 2 * h))) / (12 * h)
    try:
        dref = f(up)
        iref = f(lambda t: np.linalg.inv(up(t)))
    except np.linalg.LinAlgError:
        raise Skip("not definite nearby")
    o = lambda x: np.array(x, order=c["order"])
    sc = np.abs(A).max() * np.linalg.cond(R)
    dR = dense(dChol.dChol(o(R), o(A)))
    close_norm(dR, dref, 1e-7, "dChol vs differences of the factor", floor=sc + 1e-4 * np.abs(R).max())
    dI = dense(dChol.invdChol(o(R), o(np.linalg.inv(R)), o(A)))
    close_norm(dI, iref, 1e-6, "invdChol vs differences of the inverse factor", floor=sc * np.abs(np.linalg.inv(R)).max() ** 2 + 1e-4 * np.abs(np.linalg.inv(R)).max())
    # low-rank up- and down-dates in place
    for sg in (1.0, 0.3, -0.05):
        U = r.normal(size=(p, c["q"]))
        T = B @ B.T + p * np.eye(p)
        W = T + sg * U @ U.T
        if np.linalg.eigvalsh(W)[0] < 0.05 * np.linalg.eigvalsh(T)[0]:
            continue
        L = np.array(np.linalg.cholesky(T), order="F")
        dChol.uChol(L, np.array(U, order="F"), sg)
        L = np.tril(L)
        close_norm(L @ L.T, W, 1e-9, "uChol sigma=%g" % sg, floor=1)
    # second uncertainty term
    k = c["q"]
    V = r.normal(size=(k, k))
    V = V @ V.T
    dRs = [np.array(np.triu(r.normal(size=(p, p))), order="F") for _ in range(k)]
    got = dChol.computeV2(np.array(V, order="F"), dRs, p)
    want = sum(V[i, j] * dRs[i] @ dRs[j].T for i in range(k) for j in range(k))
    close_norm(got, want, 1e-10, "computeV2", floor=1)
    return {"nt": p > 1, "tags": [c["order"]]}


SUBS = [
    Sub("sr1", g_sr1(), c_sr1, 3000, 40000),
    Sub("structured", g_struct(), c_struct, 4000, 40000),
    Sub("storage", g_store(), c_store, 2500, 30000),
    Sub("chol", g_chol(), c_chol, 1500, 20000),
]
