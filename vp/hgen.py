"""Generated hidden (semi-)Markov models with an independent reference: everything is computed from coefficients with
plain numpy formulas, and the latent process is handled by explicit enumeration of segmentations."""
import numpy as np
import scipy.sparse as sp
import scipy.stats as ss
from scipy.special import gammaln, gammainc, log_ndtr
from hypothesis import strategies as st
from vp.core import Skip
from vp.util import SEED

B = 1e-4


@st.composite
def hcase(draw, kinds=("std", "std", "std", "mg", "hmp", "hmp"), maxlen=6, cont=False, fams=("gau", "gam", "mul")):
    kind = draw(st.sampled_from(kinds))
    c = {"kind": kind, "seed": draw(SEED)}
    c["M"] = draw(st.integers(1, 2)) if kind != "mg" else draw(st.integers(2, 3))
    c["tv"] = draw(st.booleans())
    nser = draw(st.integers(1, 3))
    if kind == "hmp":
        c["n_S"] = draw(st.sampled_from([3, 3, 3, 5]))
        c["ew"] = draw(st.integers(2, 3))
        c["D"] = draw(st.integers(c["ew"] + 1, 6))
        lo = 1 if draw(st.booleans()) else (c["n_S"] + 1) // 2 + c["ew"] * (c["n_S"] // 2)
        c["lens"] = [draw(st.integers(lo, max(lo + 2, maxlen + 2))) for _ in range(nser)]
        c["swf"] = True
        c["hfam"] = draw(st.sampled_from(["Gaussian", "Exponential"]))
        c["rho"] = draw(st.sampled_from([None, None, 0.4, -0.5]))
        c["scale"] = draw(st.sampled_from([1.0, 0.5, 2.3]))
        c["T"] = draw(st.sampled_from(["fixed", "list"]))
        c["shared"] = draw(st.sampled_from([[], [], [0]]))
    else:
        c["n_S"] = draw(st.integers(2, 4)) if kind == "std" else draw(st.integers(2, 3))
        c["D"] = draw(st.one_of(st.integers(2, 7), st.integers(2, 7), st.sampled_from([10, 14])))
        m = maxlen if c["n_S"] < 4 else min(maxlen, 5)
        c["lens"] = [draw(st.integers(1, m)) for _ in range(nser)]
        c["swf"] = draw(st.booleans())
        c["T"] = draw(st.sampled_from(["model", "model", "fixed", "list"]))
        c["shared"] = draw(st.sampled_from([[], [], [0], [0, 1], [1]])) if kind == "std" else draw(st.sampled_from([[], [0]]))
        f = [x for x in fams if not (cont and x == "mul")]
        # families may differ between signals, but a signal has the same support in all states
        c["fams"] = [draw(st.sampled_from(f)) for _ in range(c["M"])]
        c["mixed"] = draw(st.booleans())
    c["ewl"] = draw(st.booleans())
    c["eil"] = draw(st.booleans())
    c["sm"] = draw(st.booleans())
    c["dfam"] = draw(st.sampled_from(["gam", "gam", "gau"]))
    c["share_X"] = draw(st.booleans())
    c["none_y"] = draw(st.booleans())
    c["zeroT"] = draw(st.booleans())
    c["dm"] = draw(st.sampled_from([1, 1, 2, 4]))
    return c


def lp_ref(fam, y, mus):
    if fam == "gau":
        return -0.5 * np.log(2 * np.pi) - np.log(mus[1]) - 0.5 * ((y - mus[0]) / mus[1]) ** 2
    if fam == "gam":
        a = 1 / mus[1]
        return a * np.log(a / mus[0]) - gammaln(a) + (a - 1) * np.log(y) - a * y / mus[0]
    W = np.stack([np.ones_like(mus[0])] + list(mus))
    return np.log(W[y.astype(int), np.arange(len(y))] / W.sum(axis=0))


def cdf_ref(fam, y, mus):
    if fam == "gau":
        return np.exp(log_ndtr((y - mus[0]) / mus[1]))
    if fam == "gam":
        return gammainc(1 / mus[1], y / (mus[0] * mus[1]))
    raise NotImplementedError


def inv(fam, par, eta):
    if fam == "gau":
        return eta if par == 0 else np.exp(eta) + B
    if fam == "gam":
        return np.exp(eta) if par == 0 else np.exp(eta) + B
    return np.exp(eta)


class H:
    """ys, Xs, coef, split: arguments of the family's methods; fam: the family."""

    def __init__(self, c):
        from mssm.src.python.exp_fam import GAUMLSS, GAMMALS, MULNOMLSS, MultiGauss, Identity, LOG, LOGb
        from mssm.src.python.hsmm import HSMMFamily
        self.c = c
        r = self.r = np.random.default_rng(c["seed"])
        n_S, M, D = c["n_S"], c["M"], c["D"]
        lens = self.lens = c["lens"]
        N = sum(lens)
        self.sid = np.concatenate([[0], np.cumsum(lens)[:-1]]).astype(int)
        nser = len(lens)
        tv = c["tv"]
        kind = c["kind"]
        hmp = kind == "hmp"
        self.n_ds = n_S * (1 if c["swf"] else 2)

        def mk(f):
            if f == "gau":
                return GAUMLSS([Identity(), LOGb(-B)])
            if f == "gam":
                return GAMMALS([LOG(), LOGb(-B)])
            return MULNOMLSS(2)

        # emission family names per state and signal (all have two parameters)
        if kind == "std":
            self.ef = [[(c["fams"][m] if not (c["mixed"] and c["fams"][m] == "gam" and j % 2) else "gau") for m in range(M)] for j in range(n_S)]
            obs = [[mk(f) for f in row] for row in self.ef]
        elif kind == "mg":
            obs = [[MultiGauss(M, [Identity() for _ in range(M)])] for _ in range(n_S)]
        else:
            obs = [[None] * M for _ in range(n_S)]
        self.df = [None if (hmp and j % 2) else c["dfam"] for j in range(self.n_ds)]
        dfs = [None if f is None else mk(f) for f in self.df]
        self.obs = obs
        # responses
        Y = np.zeros((N, M))
        for m in range(M):
            f = c["fams"][m] if kind == "std" else "gau"
            Y[:, m] = {"gau": lambda: r.normal(size=N) * 1.5, "gam": lambda: r.gamma(2, 0.8, size=N) + 0.01,
                       "mul": lambda: r.integers(0, 3, size=N).astype(float)}[f]()
        if hmp and c["shared"] and not c.get("free_y"):
            Y[:] = Y[:, [0]]      # recorded finding: with shared formulas only the first signal's data is used
        self.Y = Y
        # formulas
        roles = []
        for p in c["shared"]:
            for m in range(1 if c["sm"] else M):
                roles.append(("sh", p, m))
        for j in range(n_S):
            for m in range(M):
                if kind == "std":
                    roles += [("e", j, m, 0), ("e", j, m, 1)]
                elif kind == "mg":
                    roles.append(("e", j, m, 0))
                elif j % 2:
                    roles.append(("e", j, m, 0))
        for j in range(self.n_ds):
            if self.df[j] is not None:
                roles += [("d", j, 0), ("d", j, 1)]
        self.modelT = c["T"] == "model"
        if self.modelT:
            if n_S > 2:
                roles += [("T", j, k) for j in range(n_S) for k in range(n_S - 2)]
            roles += [("pi", k) for k in range(n_S - 1)]
        self.roles = roles
        Xs, idx, coefs = [], [], []
        first = {}
        for k, ro in enumerate(roles):
            lat = ro[0] in ("d", "T", "pi")
            n = nser if (lat and not tv) else N
            key = "lat" if lat else ("sh" if ro[0] == "sh" else "obs")
            if c["share_X"] and key in first and r.random() < 0.6:
                Xs.append(None)
                idx.append(first[key])
                p = Xs[first[key]].shape[1]
            else:
                p = int(r.integers(1, 3))
                X = np.concatenate([np.ones((n, 1)), r.normal(size=(n, p - 1))], axis=1)
                Xs.append(sp.csc_array(X))
                first.setdefault(key, k)
                idx.append(k)
            co = r.normal(size=p) * 0.4
            if ro[0] == "d":
                dm = max(1, min(c.get("dm", 1), D / 4))
                co[0] += (np.log((1.5 + r.random() * 2) * dm) if self.df[ro[1]] == "gam" else 2.0 * dm) if ro[2] == 0 else -0.3
            if ro[0] == "e" and kind == "std" and ro[3] == 1:
                co[0] += 0.1
            coefs.append(co)
        self.Xd = [np.asarray((Xs[idx[k]]).toarray()) for k in range(len(roles))]
        self.Xs = Xs
        if kind == "mg":
            self.nth = M * (M + 1) // 2
            for j in range(n_S):
                coefs.append(r.normal(size=self.nth) * 0.4)
            cs = coefs[:len(roles)] + [np.concatenate(coefs[len(roles):])]
        else:
            cs = coefs
        self.coef = np.concatenate(cs).reshape(-1, 1)
        self.split = [int(v) for v in np.cumsum([len(v) for v in cs])[:-1]]
        ys = []
        seen = set()
        for k, ro in enumerate(roles):
            if ro[0] == "sh":
                y = Y[:, [0 if c["sm"] else ro[2]]]
            elif ro[0] == "e":
                y = Y[:, [ro[2]]]
            else:
                y = np.ones((nser if not tv else N, 1))
            if c["none_y"] and k > 0 and ro[0] == "e" and ro[2] == 0:
                y = None      # repeated response of the first formula
            ys.append(y)
        self.ys = ys
        # fixed transition matrices
        self.Tfix = self.pifix = None
        if not self.modelT:
            self.Tl, self.pil = [], []
            for s in range(nser if c["T"] == "list" else 1):
                n = lens[s] if c["T"] == "list" else max(lens)
                if hmp:
                    T = np.repeat(np.diag(np.ones(n_S - 1), 1)[:, :, None], n, axis=2)
                    p = np.eye(n_S)[0]
                else:
                    T = r.dirichlet(np.ones(n_S - 1), size=(n_S, n)).transpose(0, 2, 1)
                    F = np.zeros((n_S, n_S, n))
                    for j in range(n_S):
                        F[j, [i for i in range(n_S) if i != j]] = T[j]
                    if c["zeroT"] and n_S > 2:
                        F[0, n_S - 1] = 0
                        F[0] /= F[0].sum(axis=0)
                    T = F
                    p = r.dirichlet(np.ones(n_S))
                    if c["zeroT"]:
                        p[n_S - 1] = 0
                        p /= p.sum()
                self.Tl.append(np.asfortranarray(T if tv else T[:, :, 0]))
                self.pil.append(p)
            if c["T"] == "list":
                self.Tfix, self.pifix = self.Tl, self.pil
            else:
                self.Tfix, self.pifix = self.Tl[0], self.pil[0]
        self.template = None
        self.Lrhoi = None
        if hmp:
            self.template = np.array([0.4, 1.0, 0.7][:c["ew"]]) if c["ew"] == 3 else np.array([0.6, 1.1])
            if c["rho"] is not None:
                d0 = np.full(N, 1 / np.sqrt(1 - c["rho"] ** 2))
                d1 = np.full(max(N - 1, 0), -c["rho"] / np.sqrt(1 - c["rho"] ** 2))
                d0[self.sid] = 1
                if nser > 1:
                    d1[self.sid[1:] - 1] = 0
                self.Lrhoi = sp.diags_array([d0, d1] if N > 1 else [d0], offsets=[0, 1] if N > 1 else [0], format="csc")
        links = []
        for ro in roles:
            if ro[0] == "sh":
                continue
            if ro[0] == "e":
                links.append(Identity() if kind in ("hmp", "mg") else obs[ro[1]][ro[2]].links[ro[3]])
            elif ro[0] == "d":
                links.append(dfs[ro[1]].links[ro[2]])
            else:
                links.append(LOG())
        kw = {}
        if hmp:
            kw = {"scale": c["scale"], "event_template": self.template, "hmp_fam": c["hfam"], "Lrhoi": self.Lrhoi}
        self.tid = self.sid if tv else np.arange(nser)
        self.build_idx = idx if any(x is None for x in Xs) or c["seed"] % 2 else None
        self.fam = HSMMFamily(len(links), links, n_S, obs_fams=obs, d_fams=dfs, sid=self.sid, tid=None if tv else self.tid, D=D, M=M,
                              starts_with_first=c["swf"], ends_with_last=c["ewl"], ends_in_last=c["eil"], n_cores=1,
                              build_mat_idx=self.build_idx, shared_pars=list(c["shared"]), shared_m=c["sm"], T=self.Tfix, pi=self.pifix,
                              tvdtpi=tv, **kw)
        self.args = (self.coef, self.split, self.ys, self.Xs)

    # ---- reference ----
    def etas(self, coef):
        cs = np.split(np.asarray(coef, float).ravel(), self.split)
        self.theta = cs[-1] if self.c["kind"] == "mg" else None
        return {ro: self.Xd[k] @ cs[k] for k, ro in enumerate(self.roles)}

    def model(self, coef=None):
        """Per series: ds (D-1, n_ds, n_T), T (n_S, n_S, n_T), pi, logb(j, t, start) emission log-density of sample t in a
        segment of state j that began at start, and mean / cdf arrays."""
        c = self.c
        coef = self.coef if coef is None else coef
        E = self.etas(coef)
        n_S, M, D, kind = c["n_S"], c["M"], c["D"], c["kind"]
        out = []
        for s, n in enumerate(self.lens):
            a = self.sid[s]
            rows = slice(a, a + n)
            m = {"n": n}
            d = np.arange(1, D)
            ds = np.zeros((D - 1, self.n_ds, n))
            for j in range(self.n_ds):
                if self.df[j] is None:
                    ds[c["ew"] - 1, j, :] = 1
                    continue
                mu = []
                for p in range(2):
                    e = E[("d", j, p)]
                    e = e[rows] if c["tv"] else np.full(n, e[s])
                    mu.append(inv(self.df[j], p, e))
                m.setdefault("mud", {})[j] = mu
                for t in range(n):
                    l = lp_ref(self.df[j], d.astype(float), [np.full(D - 1, mu[0][t]), np.full(D - 1, mu[1][t])])
                    q = np.exp(l)
                    if q.sum() < 1e-290:
                        raise Skip("density of all durations underflows")
                    ds[:, j, t] = q / q.sum()
            m["ds"] = ds
            if self.modelT:
                T = np.zeros((n_S, n_S, n))
                if n_S == 2:
                    T[0, 1] = T[1, 0] = 1
                else:
                    for j in range(n_S):
                        w = [np.ones(n)]
                        for k in range(n_S - 2):
                            e = E[("T", j, k)]
                            w.append(np.exp(e[rows] if c["tv"] else np.full(n, e[s])))
                        w = np.array(w)
                        T[j, [i for i in range(n_S) if i != j]] = w / w.sum(axis=0)
                w = np.array([1.0] + [np.exp(E[("pi", k)][a if c["tv"] else s]) for k in range(n_S - 1)])
                m["T"], m["pi"] = T, w / w.sum()
            else:
                k = s if c["T"] == "list" else 0
                T = self.Tl[k]
                m["T"] = T[:, :, :n] if c["tv"] else np.repeat(T[:, :, None], n, axis=2)
                m["pi"] = self.pil[k]
            Y = self.Y[rows]
            if kind == "std":
                lb = np.zeros((n, n_S))
                m["mean"] = np.zeros((n, M, n_S))
                m["cdf"] = np.zeros((n, M, n_S))
                for j in range(n_S):
                    for k in range(M):
                        mu = []
                        for p in range(2):
                            e = E[("e", j, k, p)][rows].copy()
                            if p in c["shared"]:
                                e += E[("sh", p, 0 if c["sm"] else k)][rows]
                            mu.append(inv(self.ef[j][k], p, e))
                        lb[:, j] += lp_ref(self.ef[j][k], Y[:, k], mu)
                        m["mean"][:, k, j] = mu[0]
                        if self.ef[j][k] != "mul":
                            m["cdf"][:, k, j] = cdf_ref(self.ef[j][k], Y[:, k], mu)
                m["lb"] = lb
            elif kind == "mg":
                lb = np.zeros((n, n_S))
                m["mean"] = np.zeros((n, M, n_S))
                m["cdf"] = np.zeros((n, M, n_S))
                m["R"] = []
                for j in range(n_S):
                    th = self.theta[j * self.nth:(j + 1) * self.nth]
                    R = np.zeros((M, M))
                    q = 0
                    for x in range(M):
                        for z in range(x, M):
                            R[x, z] = np.exp(th[q]) if x == z else th[q]
                            q += 1
                    mu = np.stack([E[("e", j, k, 0)][rows] + (E[("sh", 0, 0 if c["sm"] else k)][rows] if 0 in c["shared"] else 0)
                                   for k in range(M)], axis=1)
                    z = (Y - mu) @ R.T
                    lb[:, j] = -0.5 * (z ** 2).sum(axis=1) + np.log(np.diag(R)).sum()
                    m["mean"][:, :, j] = mu
                    m["cdf"][:, :, j] = ss.norm.cdf(z)
                    m["R"].append(R)
                m["lb"] = lb
            else:
                mu = np.zeros((n, M, n_S))
                for j in range(1, n_S, 2):
                    for k in range(M):
                        mu[:, k, j] = E[("e", j, k, 0)][rows] + (E[("sh", 0, 0 if c["sm"] else k)][rows] if 0 in c["shared"] else 0)
                m["mu"] = mu
                m["Y"] = Y
            out.append(m)
        return out

    def hmp_mean(self, m, seq):
        """Expected signal (n, M) of a state sequence."""
        c = self.c
        e = np.zeros((m["n"], c["M"]))
        t = 0
        while t < m["n"]:
            u = t
            while u < m["n"] and seq[u] == seq[t]:
                u += 1
            if seq[t] % 2:
                for v in range(t, u):
                    if v - t < c["ew"]:
                        e[v] = self.template[v - t] * m["mu"][v, :, seq[t]]
            t = u
        return e

    def hmp_z(self, m, seq):
        """Decorrelated residuals of the signal under a state sequence."""
        c = self.c
        z = m["Y"] - self.hmp_mean(m, seq)
        if c["rho"] is not None:
            q = z.copy()
            q[1:] = (z[1:] - c["rho"] * z[:-1]) / np.sqrt(1 - c["rho"] ** 2)
            z = q
        return z

    def emis(self, m, seq):
        """Emission log-density of a whole state sequence (for an AR model: density of the original signal)."""
        c = self.c
        n = m["n"]
        if c["kind"] != "hmp":
            return m["lb"][np.arange(n), seq].sum()
        z = self.hmp_z(m, seq)
        if c["hfam"] == "Gaussian":
            if c["rho"] is not None:
                # exact multivariate normal with AR(1) covariance
                V = c["scale"] * c["rho"] ** np.abs(np.subtract.outer(np.arange(n), np.arange(n)))
                w = m["Y"] - self.hmp_mean(m, seq)
                return sum(ss.multivariate_normal.logpdf(w[:, k], np.zeros(n), V) for k in range(c["M"]))
            return float(np.sum(-0.5 * np.log(2 * np.pi * c["scale"]) - z ** 2 / (2 * c["scale"])))
        v = float(np.sum(-np.log(c["scale"]) - z ** 2 / c["scale"]))
        if c["rho"] is not None:
            v += c["M"] * (n - 1) * -0.5 * np.log(1 - c["rho"] ** 2)
        return v

    def paths(self, m, excess=False):
        """All admissible state sequences of a series: list of (sequence, latent log-probability); with
        excess=True also by the number of samples the last segment outlasts the series (sequence, log-probability, excess)."""
        c = self.c
        n, D, n_S = m["n"], c["D"], c["n_S"]
        ds, T, pi = m["ds"], m["T"], m["pi"]
        out = []

        def rec(t, j, lp, seq, first):
            dj = j if (first or c["swf"]) else j + n_S
            for L in range(1, min(D - 1, n - t) + 1):
                q = ds[L - 1, dj, t]
                if t + L < n:
                    if q <= 0:
                        continue
                    for i in range(n_S):
                        if i == j or T[j, i, t + L - 1] <= 0:
                            continue
                        rec(t + L, i, lp + np.log(q) + np.log(T[j, i, t + L - 1]), seq + [j] * L, False)
                elif excess:
                    for ed in range(0, 1 if c["ewl"] else D - L):
                        q = ds[L - 1 + ed, dj, t]
                        if q > 0 and (not c["eil"] or j == n_S - 1):
                            out.append((np.array(seq + [j] * L), lp + np.log(q), ed))
                else:
                    if not c["ewl"]:
                        q = ds[L - 1:, dj, t].sum()
                    if q > 0 and (not c["eil"] or j == n_S - 1):
                        out.append((np.array(seq + [j] * L), lp + np.log(q)))
        for j in range(n_S):
            if pi[j] > 0:
                rec(0, j, np.log(pi[j]), [], True)
        return out

    def llk_enum(self, coef=None):
        tot = 0.0
        for m in self.model(coef):
            v = [lp + self.emis(m, s) for s, lp in self.paths(m)]
            if not v:
                return -np.inf
            v = np.array(v)
            tot += np.log(np.exp(v - v.max()).sum()) + v.max()
        return tot

    def llk_dp(self, coef):
        """Segment-based recursion over (time, state); emission scores of segments are additive (used for finite differences)."""
        c = self.c
        n_S, D = c["n_S"], c["D"]
        tot = 0.0
        for m in self.model(coef):
            n = m["n"]
            lseg = self.segscore(m)
            A = np.full((n, n_S), -np.inf)          # log-prob of data before t and a segment of state j starting at t
            A[0] = np.log(np.maximum(m["pi"], 0), where=m["pi"] > 0, out=np.full(n_S, -np.inf))
            fin = []
            for t in range(n):
                for j in range(n_S):
                    if A[t, j] == -np.inf:
                        continue
                    dj = j if (t == 0 or c["swf"]) else j + n_S
                    for L in range(1, min(D - 1, n - t) + 1):
                        q = m["ds"][L - 1, dj, t]
                        if t + L < n:
                            if q <= 0:
                                continue
                            v = A[t, j] + np.log(q) + lseg(j, t, t + L)
                            for i in range(n_S):
                                if i != j and m["T"][j, i, t + L - 1] > 0:
                                    A[t + L, i] = np.logaddexp(A[t + L, i], v + np.log(m["T"][j, i, t + L - 1]))
                        else:
                            if not c["ewl"]:
                                q = m["ds"][L - 1:, dj, t].sum()
                            if q > 0 and (not c["eil"] or j == n_S - 1):
                                fin.append(A[t, j] + np.log(q) + lseg(j, t, n))
            if not fin:
                return -np.inf
            fin = np.array(fin)
            tot += np.log(np.exp(fin - fin.max()).sum()) + fin.max()
        return tot

    def extreme(self):
        """An emission density below the smallest double: the forward recursion (on the probability scale) cannot represent it."""
        return self.c["kind"] != "hmp" and any(m["lb"].min() < -600 for m in self.model())

    def segscore(self, m):
        c = self.c
        n = m["n"]
        if c["kind"] != "hmp":
            cum = np.concatenate([np.zeros((1, c["n_S"])), np.cumsum(m["lb"], axis=0)])
            return lambda j, a, b: cum[b, j] - cum[a, j]
        rho = c["rho"]
        memo = {}

        def score(j, a, b):
            if (j, a, b) in memo:
                return memo[j, a, b]
            z = m["Y"][a:b].copy()
            if j % 2:
                w = np.zeros((b - a, 1))
                k = min(b - a, c["ew"])
                w[:k, 0] = self.template[:k]
                z = z - w * m["mu"][a:b, :, j]
            if rho is not None:
                prev = np.zeros((1, c["M"]))
                if a > 0:
                    # a flat follows a completed bump of the state before it; a bump follows a flat
                    prev = m["Y"][[a - 1]].copy()
                    if j % 2 == 0 and j > 0:
                        prev = prev - self.template[-1] * m["mu"][[a - 1], :, j - 1]
                q = np.concatenate([prev, z])
                e = (q[1:] - rho * q[:-1]) / np.sqrt(1 - rho ** 2)
                if a == 0:
                    e[0] = z[0]
                z = e
            if c["hfam"] == "Gaussian":
                v = float(np.sum(-0.5 * np.log(2 * np.pi * c["scale"]) - z ** 2 / (2 * c["scale"])))
            else:
                v = float(np.sum(-np.log(c["scale"]) - z ** 2 / c["scale"]))
            if rho is not None:
                v -= c["M"] * (b - a - (1 if a == 0 else 0)) * 0.5 * np.log(1 - rho ** 2)
            memo[j, a, b] = v
            return v
        return score
