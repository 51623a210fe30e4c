"""C17: HSMM decoding: Viterbi path is a maximiser, posterior state samples follow the exact posterior."""
import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st
from vp import hgen
from vp.core import Sub, Skip, Known, Violation
from vp.util import close, ok, shape, SEED
from vp.props.C16 import tags, scase, sub as sub_series

PROPERTY = "C17"
RULE = ("Cases: the hidden semi-Markov models of C16 (2-5 states, all emission types, HMP with and without AR, all start/end options), series of 1-11 samples. "
        "Oracle: exhaustive enumeration of (state sequence, excess duration of the last segment) with their joint probability: Viterbi must attain the maximum, "
        "posterior samples must be admissible and match the exact posterior (pooled chi-square, p > 1e-9, 4000 draws). Long series: maximum by an independent "
        "segment-wise max-recursion. Non-trivial: at least two admissible explanations.")
ASSUME = ["emission densities of long series above 1e-260", "durations are 1..D-1 samples", "ties between explanations within 1e-8 on the log scale are accepted"]
N = 4000


def joint(h):
    """Per series: list of ((sequence, excess), joint log-probability)."""
    out = []
    for m in h.model():
        em = {}
        r = {}
        for s, lp, ed in h.paths(m, excess=True):
            k = tuple(int(v) for v in s)
            if k not in em:
                em[k] = h.emis(m, s)
            r[(k, ed)] = lp + em[k]
        out.append(r)
    return out


def vit(c):
    h = hgen.H(c)
    J = joint(h)
    if any(not j for j in J):
        raise Skip("impossible data")
    V = h.fam.decode_viterbi(*h.args)
    ok(len(V) == len(J), "one result per series: %d for %d" % (len(V), len(J)))
    for k, (v, j) in enumerate(zip(V, J)):
        ed, s = int(v[0]), np.asarray(v[1])
        shape(s, (h.lens[k],), "decoded states of series %d" % k)
        key = (tuple(int(x) for x in s), ed)
        ok(key in j, "series %d: decoded explanation %s has probability zero" % (k, key))
        best = max(j, key=j.get)
        if j[key] < j[best] - 1e-8 * (1 + abs(j[best])):
            raise Violation("series %d: decoded %s has joint log-probability %r, %s has %r" % (k, key, j[key], best, j[best]))
    return {"nt": max(len(j) for j in J) > 1, "tags": tags(c)}


@st.composite
def pcase(draw):
    c = draw(hgen.hcase(maxlen=5))
    c["ps"] = draw(st.integers(0, 2 ** 31 - 1))
    return c


def post(c):
    h = hgen.H(c)
    J = joint(h)
    if any(not j for j in J):
        raise Skip("impossible data")
    S = h.fam.sample_posterior_states(*h.args, N, seed=c["ps"])
    ok(len(S) == len(J), "one result per series")
    for k, (v, j) in enumerate(zip(S, J)):
        ed, s = np.asarray(v[0]), np.asarray(v[1])
        shape(ed, (N,), "excess durations")
        shape(s, (h.lens[k], N), "sampled states")
        keys = list(j)
        lp = np.array([j[q] for q in keys])
        p = np.exp(lp - lp.max())
        p /= p.sum()
        ix = {q: i for i, q in enumerate(keys)}
        cnt = np.zeros(len(keys))
        U, n = np.unique(np.vstack([s, ed]), axis=1, return_counts=True)
        for u, q in zip(U.T, n):
            key = (tuple(int(x) for x in u[:-1]), int(u[-1]))
            ok(key in ix, "series %d: sampled explanation %s has probability zero" % (k, key))
            cnt[ix[key]] += q
        gof(cnt, p, "posterior of (states, excess) of series %d" % k)
        A = np.array([q[0] for q in keys])
        for t in range(h.lens[k]):
            w = np.array([p[A[:, t] == i].sum() for i in range(c["n_S"])])
            gof(np.array([(s[t] == i).sum() for i in range(c["n_S"])]), w, "marginal state probabilities at sample %d of series %d" % (t, k))
    S2 = h.fam.sample_posterior_states(*h.args, 20, seed=c["ps"])
    S3 = h.fam.sample_posterior_states(*h.args, 20, seed=c["ps"])
    for a, b in zip(S2, S3):
        close(a[0], b[0], 0, 0, "excess durations, same seed")
        close(a[1], b[1], 0, 0, "state samples, same seed")
    return {"nt": max(len(j) for j in J) > 1, "tags": tags(c)}


def gof(cnt, p, what):
    n = cnt.sum()
    bad = (p < 1e-12) & (cnt > 0)
    ok(not bad.any(), what + ": a value of probability < 1e-12 was drawn")
    o = np.argsort(-p)
    cnt, p = np.asarray(cnt, float)[o], p[o]
    # pool the tail so that every cell expects at least 8
    cells, a, b = [], 0.0, 0.0
    for x, q in zip(cnt, p):
        a += x
        b += q
        if b * n >= 8:
            cells.append((a, b))
            a = b = 0.0
    if cells and b > 0:
        cells[-1] = (cells[-1][0] + a, cells[-1][1] + b)
    if len(cells) < 2:
        return
    O, E = np.array([x for x, _ in cells]), np.array([q for _, q in cells]) * n
    x2 = ((O - E) ** 2 / E).sum()
    pv = ss.chi2.sf(x2, len(cells) - 1)
    if pv < 1e-9:
        i = int(np.argmax((O - E) ** 2 / E))
        raise Violation("%s: chi-square %.1f on %d df (p = %.2g); worst cell drawn %d of %d, expected %.1f" % (what, x2, len(cells) - 1, pv, O[i], n, E[i]))


@st.composite
def lcase(draw):
    c = draw(hgen.hcase(kinds=("std", "std", "mg", "hmp")))
    c["lens"] = [draw(st.integers(8, 120)) for _ in range(draw(st.integers(1, 2)))]
    c["D"] = draw(st.integers(4, 25))
    if c["kind"] == "hmp":
        c["eil"] = False
        c["ewl"] = False
        c["n_S"] = 3
        c["D"] = max(c["lens"]) + 2
        c["dfam"] = "gam"      # Gaussian durations of 50+ samples underflow in the (linear-scale) sampler
    return c


def best_score(h, m):
    c = h.c
    n, n_S, D = m["n"], c["n_S"], c["D"]
    seg = h.segscore(m)
    with np.errstate(divide="ignore"):
        lT, lds = np.log(m["T"]), np.log(m["ds"])
        A = np.full((n, n_S), -np.inf)
        A[0] = np.log(m["pi"])
    fin = -np.inf
    for t in range(n):
        for j in range(n_S):
            if A[t, j] == -np.inf:
                continue
            dj = j if (t == 0 or c["swf"]) else j + n_S
            for L in range(1, min(D - 1, n - t) + 1):
                if t + L < n:
                    v = A[t, j] + lds[L - 1, dj, t] + seg(j, t, t + L)
                    for i in range(n_S):
                        if i != j:
                            A[t + L, i] = max(A[t + L, i], v + lT[j, i, t + L - 1])
                elif not c["eil"] or j == n_S - 1:
                    q = lds[L - 1, dj, t] if c["ewl"] else lds[L - 1:, dj, t].max()
                    fin = max(fin, A[t, j] + q + seg(j, t, n))
    return fin


def marginals(h, m):
    """Exact posterior marginals: P(state at t | data) of shape (n, n_S), and P(last state, excess | data)."""
    c = h.c
    n, n_S, D = m["n"], c["n_S"], c["D"]
    seg = h.segscore(m)
    with np.errstate(divide="ignore"):
        lT, lds, lpi = np.log(m["T"]), np.log(m["ds"]), np.log(m["pi"])
    la = np.logaddexp
    A = np.full((n, n_S), -np.inf)      # a segment in j begins at t, data before t explained
    A[0] = lpi
    Bk = np.full((n, n_S), -np.inf)     # data from t on, given a segment in j begins at t
    last = np.full((n_S, D - 1), -np.inf)

    def segs(t, j):
        dj = j if (t == 0 or c["swf"]) else j + n_S
        for L in range(1, min(D - 1, n - t) + 1):
            yield L, dj, seg(j, t, t + L)
    fin = lambda j: not c["eil"] or j == n_S - 1
    for t in range(n):
        for j in range(n_S):
            if A[t, j] == -np.inf:
                continue
            for L, dj, e in segs(t, j):
                if t + L < n:
                    A[t + L] = la(A[t + L], np.where(np.arange(n_S) == j, -np.inf, A[t, j] + lds[L - 1, dj, t] + e + lT[j, :, t + L - 1]))
                elif fin(j):
                    k = 1 if c["ewl"] else D - L
                    last[j, :k] = la(last[j, :k], A[t, j] + lds[L - 1:L - 1 + k, dj, t] + e)
    z = la.reduce(last.ravel())
    P = np.zeros((n, n_S))
    for t in range(n - 1, -1, -1):
        for j in range(n_S):
            for L, dj, e in segs(t, j):
                if t + L < n:
                    v = e + lds[L - 1, dj, t] + la.reduce(np.where(np.arange(n_S) == j, -np.inf, lT[j, :, t + L - 1] + Bk[t + L]))
                elif fin(j):
                    v = e + la.reduce(lds[L - 1:L if c["ewl"] else D - 1, dj, t])
                else:
                    continue
                Bk[t, j] = la(Bk[t, j], v)
                P[t:t + L, j] += np.exp(A[t, j] + v - z)
    return P, np.exp(last - z)


def path_score(h, m, s, ed):
    c = h.c
    n, n_S, D = m["n"], c["n_S"], c["D"]
    seg = h.segscore(m)
    with np.errstate(divide="ignore"):
        v = np.log(m["pi"][s[0]])
        t = 0
        while t < n:
            u = t
            while u < n and s[u] == s[t]:
                u += 1
            L = u - t + (ed if u == n else 0)
            if L > D - 1:
                return -np.inf
            dj = s[t] if (t == 0 or c["swf"]) else s[t] + n_S
            v += np.log(m["ds"][L - 1, dj, t]) + seg(s[t], t, u)
            if u < n:
                v += np.log(m["T"][s[t], s[u], u - 1])
            t = u
    if (c["ewl"] and ed != 0) or (c["eil"] and s[-1] != n_S - 1):
        return -np.inf
    return v


def long(c):
    h = hgen.H(c)
    ms = h.model()
    B = [best_score(h, m) for m in ms]
    if not np.all(np.isfinite(B)):
        raise Skip("impossible data")
    if h.extreme():
        raise Skip("emission density underflows")
    V = h.fam.decode_viterbi(*h.args)
    for k, m in enumerate(ms):
        s, ed = [int(x) for x in V[k][1]], int(V[k][0])
        p = path_score(h, m, s, ed)
        ok(p >= B[k] - 1e-7 * (1 + abs(B[k])), "series %d of %d samples: decoded path has joint log-probability %r, the maximum is %r" % (k, m["n"], p, B[k]))
    S = h.fam.sample_posterior_states(*h.args, 1500, seed=c["seed"] % 1000)
    for k, m in enumerate(ms):
        P, last = marginals(h, m)
        ok(np.allclose(P.sum(axis=1), 1, atol=1e-6), "harness: marginal probabilities do not sum to one")
        s, ed = np.asarray(S[k][1]), np.asarray(S[k][0])
        for t in np.unique(np.linspace(0, m["n"] - 1, 12).astype(int)):
            gof(np.array([(s[t] == j).sum() for j in range(c["n_S"])]), P[t], "marginal state probabilities at sample %d of %d of series %d" % (t, m["n"], k))
        gof(np.array([((s[-1] == j) & (ed == d)).sum() for j in range(c["n_S"]) for d in range(c["D"] - 1)]), last.ravel(), "last state and its excess duration, series %d" % k)
        for i in range(30):
            p = path_score(h, m, [int(x) for x in S[k][1][:, i]], int(S[k][0][i]))
            ok(np.isfinite(p), "series %d: sample %d of the posterior has probability zero" % (k, i))
    return {"nt": True, "tags": tags(c)}


def series(c):
    """Series are decoded independently of each other; the number of cores does not matter."""
    h = hgen.H(c)
    if not np.isfinite(h.fam.llk(*h.args)):
        raise Skip("impossible data")
    V = h.fam.decode_viterbi(*h.args)
    S = h.fam.sample_posterior_states(*h.args, 50, seed=3)
    for k in range(len(h.lens)):
        f, ys, Xs = sub_series(h, [k])
        a = f.decode_viterbi(h.coef, h.split, ys, Xs)[0]
        ms = h.model()[k]
        x, y = [path_score(h, ms, [int(q) for q in z[1]], int(z[0])) for z in (a, V[k])]
        close(x, y, 1e-9, 1e-9, "score of series %d decoded alone and together" % k)
    if c["seed"] % 6 == 0:
        P = h.fam.decode_viterbi(*h.args, n_cores=2)
        for a, b in zip(P, V):
            ok(a[0] == b[0], "excess duration on two cores")
            close(a[1], b[1], 0, 0, "decoded states on two cores")
        P = h.fam.sample_posterior_states(*h.args, 50, seed=3, n_cores=2)
        for a, b in zip(P, S):
            close(a[0], b[0], 0, 0, "sampled excess durations on two cores")
            close(a[1], b[1], 0, 0, "sampled states on two cores")
    return {"nt": len(h.lens) > 1, "tags": tags(c)}


SUBS = [
    Sub("viterbi", hgen.hcase(), vit, 3000, 80000),
    Sub("posterior", pcase(), post, 900, 30000),
    Sub("long", lcase(), long, 160, 6000),
    Sub("series", scase(), series, 300, 10000),
]
