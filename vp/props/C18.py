"""C18: HSMM building blocks (observation, duration, transition, initial probabilities), residuals and simulation."""
import copy
import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st
from vp import hgen
from vp.core import Sub, Skip, Known, Violation
from vp.util import close, ok, shape, SEED
from vp.props.C16 import tags, sub as sub_series
from vp.props.C17 import gof

PROPERTY = "C18"
RULE = ("Cases: the hidden semi-Markov models of C16. Oracles: densities, duration, transition and initial probabilities from coefficients with plain formulas "
        "(they have to be probabilities: non-negative, summing to one); forward residuals = exact conditional distribution function and predictive residuals = exact "
        "conditional mean, by enumeration of all state-sequence prefixes; duration residuals from the decoded / sampled segmentations; simulated state sequences and "
        "emissions against the exact law (chi-square / Kolmogorov-Smirnov, p > 1e-9). Non-trivial: more than one sample.")
ASSUME = ["durations are 1..D-1 samples",
          "forward and predictive residuals are compared where they are a proper conditional distribution (not with ends_with_last, and not at the last sample with ends_in_last: recorded finding)",
          "simulated durations may exceed the drawn duration by one sample (recorded finding); everything else about the simulated law is exact"]


def arrs(h, m, k):
    """Reference observation log-densities of an HMP series, per (sample, index, state): (n, ew, n_S)."""
    c = h.c
    n, ew, n_S, M, rho = m["n"], c["ew"], c["n_S"], c["M"], c["rho"]
    Y, w = m["Y"], h.template
    out = np.full((n, ew, n_S), -np.inf)

    def dens(z):
        if c["hfam"] == "Gaussian":
            return (-0.5 * np.log(2 * np.pi * c["scale"]) - z ** 2 / (2 * c["scale"])).sum(axis=1)
        return (-np.log(c["scale"]) - z ** 2 / c["scale"]).sum(axis=1)

    def white(now, prev):
        z = now.copy()
        if rho is not None and n > 1:
            z[1:] = (now[1:] - rho * prev[:-1]) / np.sqrt(1 - rho ** 2)
        return z
    for j in range(n_S):
        if j % 2:
            for q in range(ew):
                prev = Y if q == 0 else Y - w[q - 1] * m["mu"][:, :, j]
                out[:, q, j] = dens(white(Y - w[q] * m["mu"][:, :, j], prev))
        else:
            out[:, 0, j] = dens(white(Y, Y))
            prev = Y if j == 0 else Y - w[-1] * m["mu"][:, :, j - 1]
            out[:, 1, j] = dens(white(Y, prev))
    return out


def probs(c):
    h = hgen.H(c)
    L = h.fam.compute_od_probs(*h.args, log=True)
    P = h.fam.compute_od_probs(*h.args, log=False)
    TP = h.fam.compute_Tpi(*h.args)
    ok(len(L) == len(P) == len(TP) == len(h.lens), "one result per series")
    D, n_S = c["D"], c["n_S"]
    for k, m in enumerate(h.model()):
        n = m["n"]
        bl, dl = [np.asarray(x) for x in L[k]]
        bp, dp = [np.asarray(x) for x in P[k]]
        if c["kind"] == "hmp":
            want = arrs(h, m, k)
            # bump densities beyond the first index are not defined at the first sample (a bump cannot start before it)
            want[0, 1:] = bl[0, 1:]
            if c["rho"] is not None:
                want[0, 0, 1::2] = bl[0, 0, 1::2]      # no series starts in a bump
                want[0, 1, ::2] = bl[0, 1, ::2]
        else:
            want = m["lb"]
        close(bl, want, 1e-9, 1e-9, "observation log-densities of series %d" % k)
        close(bp, np.exp(bl), 1e-9, 1e-300, "observation densities of series %d" % k)
        ds = m["ds"] if c["tv"] else m["ds"][:, :, 0]
        shape(dp, ds.shape, "duration probabilities")
        close(dp, ds, 1e-9, 1e-14, "duration probabilities of series %d" % k)
        big = ds > 1e-200
        close(dl[big], np.log(ds[big]), 1e-9, 1e-9, "log duration probabilities of series %d" % k)
        ok(np.all(dp >= 0), "a duration probability is negative")
        close(dp.sum(axis=0), np.ones(dp.shape[1:]), 0, 1e-9, "sum of the duration probabilities")
        T, pi = np.asarray(TP[k][0]), np.asarray(TP[k][1])
        wT = m["T"] if c["tv"] else m["T"][:, :, 0]
        close((T[:, :, :n] if c["tv"] else T), wT, 1e-9, 1e-12, "transition probabilities of series %d" % k)
        close(pi.ravel(), m["pi"], 1e-9, 1e-12, "initial state probabilities of series %d" % k)
        if h.modelT:
            close(T.sum(axis=1), np.ones((n_S, n) if c["tv"] else n_S), 0, 1e-9, "row sums of the transition matrix")
            ok(all(np.all(T[j, j] == 0) for j in range(n_S)), "self-transition")
    return {"nt": max(h.lens) > 1, "tags": tags(c)}


def prefix(h, m, t):
    """Admissible state sequences of samples 0..t (no condition on the end) with log-weight given the samples before t."""
    h2 = copy.copy(h)
    h2.c = dict(h.c, ewl=False, eil=False)
    mm = {"n": t + 1, "ds": m["ds"], "T": m["T"], "pi": m["pi"]}
    for q in ("mu", "Y"):
        if q in m:
            mm[q] = m[q][:t + 1]
    out = []
    for s, lp in h2.paths(mm):
        z = None
        if h.c["kind"] != "hmp":
            e = m["lb"][np.arange(t), s[:t]].sum()
        else:
            z = h2.hmp_z(mm, s)
            v = z[:t]
            e = float(np.sum(-v ** 2 / (2 * h.c["scale"]) if h.c["hfam"] == "Gaussian" else -v ** 2 / h.c["scale"]))
        out.append((s, lp + e, z))
    return out


def resid(c):
    h = hgen.H(c)
    if not np.isfinite(h.fam.llk(*h.args)):
        raise Skip("impossible data")
    kw = {}
    U = np.asarray(h.fam.get_resid(*h.args, resid_type="forward", transform_to_normal=False))
    Z = np.asarray(h.fam.get_resid(*h.args, resid_type="forward", transform_to_normal=True))
    R = np.asarray(h.fam.get_resid(*h.args, resid_type="predictive"))
    N, M = sum(h.lens), c["M"]
    for a, w in ((U, "forward"), (Z, "normal forward"), (R, "predictive")):
        shape(a, (N, M), w + " residuals")
    mid = (U > 1e-12) & (U < 1 - 1e-9)
    close(Z[mid], ss.norm.ppf(U[mid]), 1e-8, 1e-9, "normal transform of forward residuals")
    nt = 0
    for k, m in enumerate(h.model()):
        n = m["n"]
        e = np.full((n, M), np.nan)
        keep = None
        for t in range(n):
            pre = prefix(h, m, t)
            if not pre:
                break
            w = np.array([q[1] for q in pre])
            sc = w.max()
            tot = np.log(np.exp(w - sc).sum()) + sc
            if t == 0:
                ref = 0.0 if np.isclose(m["pi"].sum(), 1) else None
            # mass must not have been lost (e.g. a state that cannot be left any more)
            if ref is None or abs(tot - ref) > 1e-11 * (1 + abs(tot)):
                break
            w = np.exp(w - tot)
            for q in range(M):
                if c["kind"] == "hmp":
                    z = np.array([x[2][t, q] for x in pre])
                    F = ss.norm.cdf(z / np.sqrt(c["scale"]))
                    y = m["Y"][t, q] if (t == 0 or c["rho"] is None) else (m["Y"][t, q] - c["rho"] * m["Y"][t - 1, q]) / np.sqrt(1 - c["rho"] ** 2)
                    mu = y - z
                else:
                    F = np.array([m["cdf"][t, q, x[0][t]] for x in pre])
                    mu = np.array([m["mean"][t, q, x[0][t]] for x in pre])
                    y = h.Y[h.sid[k] + t, q]
                if t == n - 1 and c["eil"]:
                    continue
                if c["kind"] != "hmp" or c["hfam"] == "Gaussian":
                    close(U[h.sid[k] + t, q], float(w @ F), 1e-7, 1e-8, "forward residual, series %d sample %d signal %d" % (k, t, q))
                e[t, q] = y - float(w @ mu)
            nt += t > 0
            # probability of the prefix including sample t
            full = []
            for s, lw, z in pre:
                if c["kind"] != "hmp":
                    full.append(lw + m["lb"][t, s[t]])
                else:
                    full.append(lw + float(np.sum(-z[t] ** 2 / (2 * c["scale"]) if c["hfam"] == "Gaussian" else -z[t] ** 2 / c["scale"])))
            full = np.array(full)
            ref = np.log(np.exp(full - full.max()).sum()) + full.max()
        for t in range(n):
            if np.isnan(e[:t + 1]).any():
                break
            w = e[0] if t == 0 else e[:t + 1].sum(axis=0) / np.sqrt((e[:t + 1] ** 2).sum(axis=0))
            close(R[h.sid[k] + t], w, 1e-6, 1e-7, "predictive residual, series %d sample %d" % (k, t))
    return {"nt": nt > 0, "tags": tags(c)}


@st.composite
def rcase(draw):
    c = draw(hgen.hcase(cont=True, maxlen=6))
    c["ewl"] = False
    return c


def dres(h, fam, m, j, first, d, t):
    """Residual of a duration under its model at the start of the segment (family residual is checked in C03)."""
    c = h.c
    dj = j if (first or c["swf"]) else j + c["n_S"]
    if h.df[dj] is None:
        return None
    mu = [np.array([[v[t]]]) for v in m["mud"][dj]]
    return float(np.asarray(fam.llkargs[2][dj].get_resid(np.array([[d]]), *mu)).ravel()[0])


def durres(c):
    h = hgen.H(c)
    if not np.isfinite(h.fam.llk(*h.args)):
        raise Skip("impossible data")
    V = h.fam.decode_viterbi(*h.args)
    ns = 6
    S = h.fam.sample_posterior_states(*h.args, ns, seed=c["seed"] % 999)
    R = np.asarray(h.fam.get_resid(*h.args, resid_type="viterbi_dur"))
    P = np.asarray(h.fam.get_resid(*h.args, resid_type="posterior_dur", n_samples=ns, seed=c["seed"] % 999))
    shape(R, (len(h.lens), c["n_S"]), "duration residuals")
    shape(P, (len(h.lens), c["n_S"], ns), "posterior duration residuals")

    def want(m, s):
        acc = [[] for _ in range(c["n_S"])]
        t = 0
        while t < len(s):
            u = t
            while u < len(s) and s[u] == s[t]:
                u += 1
            acc[s[t]].append(dres(h, h.fam, m, int(s[t]), t == 0, u - t, t))
            t = u
        return np.array([np.nan if (not a or a[0] is None) else np.mean(a) for a in acc])
    for k, m in enumerate(h.model()):
        close(R[k], want(m, np.asarray(V[k][1]).astype(int)), 1e-7, 1e-8, "residuals of decoded durations, series %d" % k)
        for i in range(ns):
            close(P[k, :, i], want(m, np.asarray(S[k][1])[:, i].astype(int)), 1e-7, 1e-8, "residuals of sampled durations, series %d" % k)
    return {"nt": max(h.lens) > 1, "tags": tags(c)}


@st.composite
def simcase(draw):
    c = draw(hgen.hcase(maxlen=4, fams=("gau", "gam", "mul")))
    c["ps"] = draw(st.integers(0, 10 ** 6))
    if c["kind"] == "hmp":
        c["rho"] = None
    return c


def law(h, m, shift):
    """Exact law of simulated state sequences; each state lasts the drawn duration plus shift."""
    c = h.c
    n, n_S, D = m["n"], c["n_S"], c["D"]
    out = {}

    def rec(t, j, p, seq, first):
        if t >= n:
            k = tuple(seq[:n])
            out[k] = out.get(k, 0.0) + p
            return
        if c["kind"] == "hmp" and j == n_S - 1:
            k = tuple(seq + [j] * (n - t))
            out[k] = out.get(k, 0.0) + p
            return
        dj = j if (first or c["swf"]) else j + n_S
        for L in range(1, D):
            q = m["ds"][L - 1, dj, t]
            if q <= 0:
                continue
            u = t + L + shift
            if u >= n:
                k = tuple(seq + [j] * (n - t))
                out[k] = out.get(k, 0.0) + p * q
            else:
                for i in range(n_S):
                    r = m["T"][j, i, u - 1]
                    if r > 0:
                        rec(u, i, p * q * r, seq + [j] * (L + shift), False)
    for j in range(n_S):
        if m["pi"][j] > 0:
            rec(0, j, m["pi"][j], [], True)
    return out


NS = 1500


def simulate(c):
    h = hgen.H(c)
    P = h.fam.predict(*h.args, seed=c["ps"], n_samples=NS)
    P2 = h.fam.predict(*h.args, seed=c["ps"], n_samples=NS) if c["seed"] % 5 == 0 else None
    ok(len(P) == len(h.lens), "one result per series")
    E = h.etas(h.coef)
    mode = [True, True]
    why = [None, None]
    for k, m in enumerate(h.model()):
        n, M = m["n"], c["M"]
        em, s = np.asarray(P[k][0]), np.asarray(P[k][1])
        shape(em, (n, M, NS), "simulated emissions")
        shape(s, (n, NS), "simulated states")
        s = s.astype(int)
        if P2 is not None:
            close(P2[k][0], em, 0, 0, "simulated emissions, same seed")
            close(P2[k][1], s, 0, 0, "simulated states, same seed")
        for shift in (0, 1):
            if not mode[shift]:
                continue
            lw = law(h, m, shift)
            keys = list(lw)
            ix = {q: i for i, q in enumerate(keys)}
            cnt = np.zeros(len(keys))
            try:
                U, q = np.unique(s, axis=1, return_counts=True)
                for u, x in zip(U.T, q):
                    key = tuple(int(v) for v in u)
                    ok(key in ix, "series %d: simulated sequence %s has probability zero" % (k, key))
                    cnt[ix[key]] += x
                gof(cnt, np.array([lw[q] for q in keys]), "law of simulated state sequences of series %d" % k)
            except Violation as e:
                mode[shift] = False
                why[shift] = str(e)
        if not any(mode):
            raise Violation("%s\n(with durations one longer: %s)" % (why[0], why[1]))
        emissions(h, c, m, k, em, s, E)
    return {"nt": max(h.lens) > 1, "tags": tags(c) + ["law:" + str([i for i in (0, 1) if mode[i]])]}


def ks(u, what):
    u = np.asarray(u).ravel()
    if len(u) < 200:
        return
    p = ss.kstest(u, "uniform").pvalue
    if p < 1e-9:
        raise Violation("%s: %d simulated values do not follow their distribution (Kolmogorov-Smirnov p = %.2g)" % (what, len(u), p))


def emissions(h, c, m, k, em, s, E):
    n, M, n_S = m["n"], c["M"], c["n_S"]
    rows = slice(h.sid[k], h.sid[k] + n)
    for j in range(n_S):
        sel = s == j
        if c["kind"] == "std":
            for q in range(M):
                mu = []
                for p in range(2):
                    e = E[("e", j, q, p)][rows].copy()
                    if p in c["shared"]:
                        e += E[("sh", p, 0 if c["sm"] else q)][rows]
                    mu.append(hgen.inv(h.ef[j][q], p, e))
                t, i = np.nonzero(sel)
                if len(t) == 0:
                    continue
                v = em[t, q, i]
                what = "emissions of state %d signal %d in series %d" % (j, q, k)
                if h.ef[j][q] == "mul":
                    W = np.stack([np.ones(n)] + mu)
                    W = (W / W.sum(axis=0))[:, t]
                    ok(np.isin(v, [0, 1, 2]).all(), what + ": not a category")
                    for g in range(3):
                        z = ((v == g).sum() - W[g].sum()) / np.sqrt((W[g] * (1 - W[g])).sum())
                        ok(abs(z) < 6.5, what + ": category %d occurs %d times, expected %.1f" % (g, (v == g).sum(), W[g].sum()))
                else:
                    ks(hgen.cdf_ref(h.ef[j][q], v, [mu[0][t], mu[1][t]]), what)
        elif c["kind"] == "mg":
            t, i = np.nonzero(sel)
            z = (em[t, :, i] - m["mean"][t, :, j]) @ m["R"][j].T
            for q in range(M):
                ks(ss.norm.cdf(z[:, q]), "rotated emissions of state %d signal %d in series %d" % (j, q, k))
            if len(t) > 200:
                C = np.corrcoef(z.T)
                lim = 6.5 / np.sqrt(len(t))
                ok(np.all(np.abs(C - np.eye(M)) < lim + 1e-9), "rotated emissions of state %d in series %d are correlated: %s" % (j, k, C))
        else:
            # bump onset of every sample
            on = np.zeros((n, s.shape[1]), int)
            for t in range(1, n):
                on[t] = np.where(s[t] == s[t - 1], on[t - 1] + 1, 0)
            t, i = np.nonzero(sel)
            errs = []
            for off in ((0, 1) if j % 2 else (0,)):
                try:
                    for q in range(M):
                        mu = np.zeros(len(t))
                        if j % 2:
                            ph = on[t, i] - off
                            inside = (ph < c["ew"])
                            mu = np.where(inside, h.template[np.where(inside, ph, 0)], 0.0) * m["mu"][t, q, j]
                        z = em[t, q, i] - mu
                        if c["hfam"] == "Gaussian":
                            u = ss.norm.cdf(z / np.sqrt(c["scale"]))
                        else:
                            u = 1 - np.exp(-z ** 2 / c["scale"])
                            npos = (z > 0).sum()
                            ok(len(z) == 0 or abs(npos - len(z) / 2) < 6.5 * np.sqrt(len(z)) / 2 + 1,
                               "HMP noise of state %d in series %d is not symmetric: %d of %d positive" % (j, k, npos, len(z)))
                        ks(u, "HMP emissions of state %d signal %d in series %d" % (j, q, k))
                    errs = []
                    break
                except Violation as e:
                    errs.append(e)
            if errs:
                raise errs[0]


# ---- recorded findings: the exact inputs ----
KP = {"kind": "std", "seed": 7, "M": 1, "tv": False, "n_S": 2, "D": 3, "lens": [6], "swf": True, "T": "fixed", "shared": [], "fams": ["gau"], "mixed": False,
      "ewl": False, "eil": False, "sm": False, "dfam": "gam", "share_X": False, "none_y": False, "zeroT": False}


def k_predict():
    h = hgen.H(dict(KP))
    s = np.asarray(h.fam.predict(*h.args, seed=1, n_samples=400)[0][1]).astype(int)
    # durations are at most D - 1 = 2, but runs of 3 occur
    return any((s[t] == s[t + 1]).all() for t in ()) or bool(((s[:-2] == s[1:-1]) & (s[1:-1] == s[2:])).any())


def k_forward():
    c = dict(KP, ewl=True, lens=[4], seed=11)
    h = hgen.H(c)
    h.ys[0][3] = 1e3          # far beyond all states: the conditional distribution function has to be one
    for q in range(1, len(h.ys)):
        if h.ys[q] is not None and len(h.ys[q]) == 4:
            h.ys[q] = h.ys[0].copy()
    U = np.asarray(h.fam.get_resid(*h.args, resid_type="forward", transform_to_normal=False))
    return abs(U[3, 0] - 1) > 1e-3


KNOWN = [Known("predict_durations", "HSMMFamily.predict: simulated states last one sample longer than the drawn duration (runs longer than the maximum duration D-1 occur)", k_predict),
         Known("forward_ends_with_last", "HSMMFamily.get_resid: forward residuals are not a conditional distribution function when ends_with_last=True (do not reach 1 for arbitrarily large observations)", k_forward)]

SUBS = [
    Sub("probs", hgen.hcase(), probs, 800, 30000),
    Sub("resid", rcase(), resid, 500, 16000),
    Sub("durres", hgen.hcase(), durres, 300, 8000),
    Sub("simulate", simcase(), simulate, 100, 2400),
]
