"""C19: distribution of linear combinations of chi-square variables (Davies)."""
import numpy as np
import scipy.stats as ss
from scipy.special import gammainc, gammaln
from hypothesis import strategies as st
from vp.core import Sub, Skip, Violation
from vp.util import close, ok, SEED

PROPERTY = "C19"
RULE = ("Cases: 1-7 chi-square variables with weights of either sign over up to two orders of magnitude, 0-12 degrees of freedom, non-centralities 0-9, an optional "
        "normal component, statistics from deep tails to the centre (and 0), accuracies 1e-3 to 1e-6. Oracle: Ruben's exact mixture-of-chi-squares series for "
        "weights of one sign, and quadrature of its convolution for weights of both signs / the normal component; fault codes for invalid input and exhausted "
        "term limits. Non-trivial: at least two different weights and a probability strictly between the accuracy and one minus it.")
ASSUME = ["reference accuracy 1e-9 (series) or 2e-8 (quadrature)", "every variable has degrees of freedom or a non-centrality (an identically zero variable makes the published algorithm diverge)", "results flagged with a non-zero fault code are not compared"]


class Ruben:
    """Sum of lam_j * chi2(n_j, delta_j), lam_j > 0, as a mixture of scaled chi-squares (AS 204 recursion)."""

    def __init__(self, lam, n, d):
        lam, n, d = [np.asarray(v, float) for v in (lam, n, d)]
        keep = (n > 0) | (d > 0)
        lam, n, d = lam[keep], n[keep], d[keep]
        self.empty = len(lam) == 0
        if self.empty:
            return
        self.N = n.sum()
        if self.N == 0:
            raise Skip("no degrees of freedom")
        b = self.b = lam.min() * 0.90625
        g = 1 - b / lam
        la0 = -0.5 * d.sum() + 0.5 * (n * np.log(b / lam)).sum()
        if la0 < -600:
            raise Skip("series underflows")
        a = [np.exp(la0)]
        G = []
        tot = a[0]
        while 1 - tot > 1e-11 and len(a) < 6000:
            k = len(a)
            G.append(0.5 * (n * g ** k).sum() + 0.5 * k * (d * g ** (k - 1) * (1 - g)).sum())
            gg = np.array(G[::-1])
            a.append(float(gg @ np.array(a)) / k)
            tot += a[-1]
            if k > 50 and a[-1] < 1e-16:
                break
        if abs(1 - tot) > 1e-9:
            raise Skip("series did not converge")
        self.a = np.array(a)
        self.k = self.N / 2 + np.arange(len(a))

    def cdf(self, y):
        y = np.maximum(np.atleast_1d(np.asarray(y, float)), 0)
        if self.empty:
            return np.ones(len(y))
        out = np.zeros(len(y))
        for s in range(0, len(y), 64):
            out[s:s + 64] = gammainc(self.k[None, :], y[s:s + 64, None] / (2 * self.b)) @ self.a
        return out

    def pdf_s(self, s):
        """density of sqrt(Q) at s > 0"""
        s = np.asarray(s, float)
        x = s ** 2 / self.b
        out = np.zeros(len(s))
        for i in range(0, len(s), 64):
            X = x[i:i + 64, None]
            l = (self.k - 1) * np.log(X) - X / 2 - self.k * np.log(2) - gammaln(self.k)
            out[i:i + 64] = (np.exp(l) @ self.a) * 2 * s[i:i + 64] / self.b
        return out

    def upper(self):
        q = 1.0
        while 1 - self.cdf([q])[0] > 1e-11:
            q *= 1.5
            if q > 1e9:
                raise Skip("range")
        return q


GL = np.polynomial.legendre.leggauss(200)


def quad(f, a, b, pieces=6):
    if b <= a:
        return 0.0
    e = np.linspace(a, b, pieces + 1)
    t = 0.0
    for lo, hi in zip(e[:-1], e[1:]):
        x = lo + (hi - lo) * (GL[0] + 1) / 2
        t += float(f(x) @ GL[1]) * (hi - lo) / 2
    return t


def reference(lam, n, d, c, sigma):
    lam, n, d = [np.asarray(v, float) for v in (lam, n, d)]
    A = Ruben(lam[lam > 0], n[lam > 0], d[lam > 0])
    B = Ruben(-lam[lam < 0], n[lam < 0], d[lam < 0])
    if sigma == 0:
        if B.empty:
            return (float(A.cdf([c])[0]) if c > 0 else 0.0), 1e-9
        if A.empty:
            return (1 - float(B.cdf([-c])[0]) if c < 0 else 1.0), 1e-9
        # P(A < c + B)
        s0 = np.sqrt(max(-c, 0.0))
        s1 = np.sqrt(B.upper())
        f = lambda s: A.cdf(c + s ** 2) * B.pdf_s(s)
        # v = sqrt(s - s0) resolves the corner of A's distribution at zero
        g = lambda v: f(s0 + v ** 2) * 2 * v
        return quad(g, 0.0, np.sqrt(max(s1 - s0, 0.0)), 4), 2e-8
    Q, sg = (A, 1) if B.empty else (B, -1)
    # P(sg*Q + sigma Z < c) ; condition on s = sqrt(Q)
    s1 = np.sqrt(Q.upper())
    # the normal distribution function switches within sigma / (2 s)
    pieces = int(min(400, max(12, np.ceil(s1 * 2 * s1 / sigma / 30))))
    return quad(lambda s: ss.norm.cdf((c - sg * s ** 2) / sigma) * Q.pdf_s(s), 1e-12, s1, pieces), 2e-7


@st.composite
def cases(draw):
    r = draw(st.integers(1, 7))
    sign = draw(st.sampled_from(["pos", "pos", "neg", "mix", "mix", "mix"]))
    lam = [draw(st.sampled_from([0.1, 0.5, 1.0, 1.0, 2.0, 7.5])) * draw(st.floats(0.5, 2, allow_nan=False)) for _ in range(r)]
    sg = [{"pos": 1, "neg": -1}.get(sign) or (1 if draw(st.booleans()) else -1) for _ in range(r)]
    n = [draw(st.sampled_from([1, 1, 1, 2, 3, 5, 12, 0])) for _ in range(r)]
    d = [draw(st.sampled_from([0.0, 0.0, 0.0, 0.5, 3.0, 9.0])) for _ in range(r)]
    sigma = draw(st.sampled_from([0.0, 0.0, 0.0, 0.7, 3.0])) if sign != "mix" else 0.0
    return {"lam": [a * b for a, b in zip(lam, sg)], "n": n, "d": d, "sigma": sigma,
            "z": draw(st.floats(-3, 6, allow_nan=False)), "zero": draw(st.integers(0, 4)) == 0,
            "acc": draw(st.sampled_from([1e-3, 1e-4, 2e-5, 1e-6]))}


def check(c):
    import davies
    lam, n, d = [np.array(c[k], float) for k in ("lam", "n", "d")]
    if np.any((n == 0) & (d == 0)):
        raise Skip("a variable that is identically zero")
    # a variable without degrees of freedom but with a non-centrality is legitimate; all-empty is not
    if not np.any(n > 0):
        raise Skip("no degrees of freedom")
    for s in (1, -1):
        if np.any(((lam * s) > 0) & (d > 0)) and not np.any(((lam * s) > 0) & (n > 0)):
            raise Skip("non-centrality without degrees of freedom")
    mean = (lam * (n + d)).sum()
    sd = np.sqrt((lam ** 2 * (2 * n + 4 * d)).sum() + c["sigma"] ** 2)
    x = 0.0 if c["zero"] else mean + c["z"] * sd
    if x == 0 and (np.all(lam > 0) or np.all(lam < 0)) and c["sigma"] == 0:
        raise Skip("boundary of the support")
    w, eps = reference(lam, n, d, x, c["sigma"])
    q, f, tr = davies.daviesQF(lam, d, n.astype(int), x, c["sigma"], c["acc"], len(n), 200000)
    tags = ["fault=%d" % f, "acc=%g" % c["acc"], "mixed" if lam.min() < 0 < lam.max() else "one sign"]
    if c["sigma"]:
        tags.append("normal component")
    if f != 0:
        ok(f in (1, 2, 4), "fault code %d on a valid input" % f)
        return {"nt": False, "tags": tags}
    ok(abs(q - w) <= c["acc"] + eps, "P(Q < %r) = %r, reference %r, requested accuracy %g" % (x, q, w, c["acc"]))
    # the order of the variables, scaling and reflection do not matter
    p = np.random.default_rng(len(n)).permutation(len(n))
    for name, val, wt in (("permuted", davies.daviesQF(lam[p], d[p], n[p].astype(int), x, c["sigma"], c["acc"], len(n), 200000), w),
                          ("scaled", davies.daviesQF(37.0 * lam, d, n.astype(int), 37.0 * x, 37.0 * c["sigma"], c["acc"], len(n), 200000), w),
                          ("reflected", davies.daviesQF(-lam, d, n.astype(int), -x, c["sigma"], c["acc"], len(n), 200000), 1 - w)):
        if val[1] == 0:
            ok(abs(val[0] - wt) <= c["acc"] + eps, "%s problem: P = %r, reference %r, requested accuracy %g" % (name, val[0], wt, c["acc"]))
    return {"nt": len(set(c["lam"])) > 1 and c["acc"] < w < 1 - c["acc"], "tags": tags}


HARD = [([0.029742932886460866, 1.7024616118889937, 2.302230436144337, 2.049533055836648, 1.6746985948562778, 0.31726542878603836, 1.7926350876571988,
          0.6902225000034944], [1, 3, 3, 3, 3, 2, 3, 2], 1.165219538936637),
        ([2.4448422777295717, 5.081978739392803, 0.07631727174917664, 5.66783578346056, 5.85770431174246, 5.7382195471243564, 3.854308576854522,
          1.311913659388691], [3, 3, 1, 3, 3, 3, 2, 3], 1.3495882887778126)]


@st.composite
def loose(draw):
    """Loose accuracy, where the error bounds (not round-off) decide: many variables, a wide range of weights."""
    lam, n, z = draw(st.sampled_from(HARD))
    sc = draw(st.sampled_from([0.0, 0.0, 0.02, 0.3]))
    r = np.random.default_rng(draw(SEED))
    p = draw(st.permutations(range(len(n)))) if draw(st.booleans()) else list(range(len(n)))
    lam = [float(lam[i] * np.exp(sc * r.normal())) for i in p]
    return {"lam": lam, "n": [n[i] for i in p], "d": [0.0] * len(n), "sigma": 0.0, "z": float(z + sc * r.normal()), "zero": False,
            "acc": draw(st.sampled_from([1e-2, 1e-2, 3e-3]))}


@st.composite
def bad(draw):
    return {"r": draw(st.integers(1, 5)), "at": draw(st.integers(0, 4)), "kind": draw(st.sampled_from(["df", "nc", "lim", "zero"])), "seed": draw(SEED)}


def faults(c):
    import davies
    r = np.random.default_rng(c["seed"])
    k = c["r"]
    lam, n, d = r.normal(size=k), r.integers(1, 4, size=k), np.abs(r.normal(size=k))
    at = c["at"] % k
    lim = 50000
    if c["kind"] == "df":
        n[at] = -1
    elif c["kind"] == "nc":
        d[at] = -0.5
    elif c["kind"] == "zero":
        lam[:] = 0
        q, f, _ = davies.daviesQF(lam, d, n, float(r.normal()), 0.0, 1e-4, k, lim)
        return {"nt": False, "tags": ["all weights zero"]}
    else:
        lim = 1
    x = (lam * (n + d)).sum()
    q, f, _ = davies.daviesQF(lam, d, n, float(x), 0.0, 1e-4, k, lim)
    if c["kind"] in ("df", "nc"):
        ok(f == 3, "invalid input (%s) is not reported: fault %d, value %r" % (c["kind"], f, q))
    else:
        ok(f in (1, 4), "an exhausted term limit is not reported: fault %d, value %r" % (f, q))
        ok(not (0 <= q <= 1), "a value is returned in spite of the fault")
    return {"nt": True, "tags": [c["kind"]]}


SUBS = [
    Sub("davies", cases(), check, 800, 40000),
    Sub("loose", loose(), check, 200, 6000),
    Sub("faults", bad(), faults, 200, 4000),
]
