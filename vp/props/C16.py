"""C16: HSMM log-likelihood and gradient against enumeration of all segmentations."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from vp import hgen
from vp.core import Sub, Skip, Known, Violation
from vp.util import close, ok, shape, fd_grad, SEED

PROPERTY = "C16"
RULE = ("Cases: hidden semi-Markov models with 2-5 states, 1-3 signals, Gaussian/Gamma/multinomial/multivariate-Gaussian emissions or HMP bumps (Gaussian or "
        "exponential, optionally AR(1)), maximum duration 2-7, 1-3 series of 1-11 samples, every combination of start/end options, modelled, fixed or "
        "series-specific transition matrices, time-varying or constant latent models, shared formulas and shared matrices, random coefficients; plus long series. "
        "Oracle: sum over all segmentations (exhaustive), and finite differences of an independent segment recursion. Non-trivial: a segmentation with at least one transition is possible.")
ASSUME = ["emission densities of long series above 1e-260", "durations are 1..D-1 samples (the code's convention) and duration probabilities are normalised over that range",
          "finite differences of the reference likelihood: tolerance from the Richardson error estimate"]


def check(c):
    h = hgen.H(c)
    w = h.llk_enum()
    keep = h.coef.copy(), [None if y is None else y.copy() for y in h.ys]
    g = h.fam.llk(*h.args)
    ok(np.ndim(g) == 0 or np.size(g) == 1, "log-likelihood is not a number")
    close(float(g), w, 1e-8, 1e-8, "log-likelihood, sum over all segmentations")
    close(h.coef, keep[0], 0, 0, "coefficients after the call")
    for a, b in zip(h.ys, keep[1]):
        if a is not None:
            close(a, b, 0, 0, "responses after the call")
    return {"nt": max(c["lens"]) > 1 and np.isfinite(w), "tags": tags(c) + (["impossible"] if not np.isfinite(w) else [])}


def tags(c):
    t = [c["kind"]] + [k for k in ("tv", "ewl", "eil", "swf", "share_X", "none_y") if c[k]] + ["T:" + c["T"], "n_S=%d" % c["n_S"], "M=%d" % c["M"], "D=%d" % c["D"]]
    if c["shared"]:
        t.append("shared" + str(c["shared"]))
    if c.get("rho"):
        t.append("ar")
    return t


def grad(c):
    h = hgen.H(c)
    w = h.llk_dp(h.coef)
    if not np.isfinite(w):
        raise Skip("impossible data")
    G, e = fd_grad(h.llk_dp, h.coef.ravel(), h=2e-3)
    g = h.fam.gradient(*h.args)
    shape(g, h.coef.shape, "gradient")
    close(g.ravel(), G, 1e-6, 1e-6 + 1e-6 * np.abs(G).max() + 10 * e, "gradient")
    return {"nt": max(c["lens"]) > 1, "tags": tags(c)}


@st.composite
def lcase(draw):
    c = draw(hgen.hcase(kinds=("std", "std", "mg", "hmp")))
    c["lens"] = [draw(st.integers(20, 160)) for _ in range(draw(st.integers(1, 2)))]
    c["D"] = draw(st.integers(4, 25))
    c["grad"] = draw(st.integers(0, 10 ** 6))
    if c["kind"] == "hmp":
        c["eil"] = False
        c["ewl"] = False
        c["n_S"] = 3
        c["D"] = max(c["lens"]) + 2     # the last state can last until the end
        c["dfam"] = "gam"               # Gaussian durations of 50+ samples underflow
    return c


def long(c):
    """Long series: no underflow, exact value; the gradient of a few coefficients."""
    h = hgen.H(c)
    w = h.llk_dp(h.coef)
    if not np.isfinite(w):
        raise Skip("impossible data")
    if h.extreme():
        raise Skip("emission density underflows")
    close(float(h.fam.llk(*h.args)), w, 1e-8, 1e-7, "log-likelihood of long series")
    g = h.fam.gradient(*h.args).ravel()
    x = h.coef.ravel()
    r = np.random.default_rng(c["grad"])
    for i in r.choice(len(x), size=min(2, len(x)), replace=False):
        def f(v):
            z = x.copy()
            z[i] = v[0]
            return h.llk_dp(z)
        G, e = fd_grad(f, x[[i]], h=1e-3)
        close(g[i], G[0], 1e-5, 1e-5 + 10 * e[0], "gradient entry %d of long series" % i)
    return {"nt": True, "tags": tags(c)}


@st.composite
def scase(draw):
    c = draw(hgen.hcase())
    if draw(st.integers(0, 2)) == 0:
        lo = min(c["lens"])
        c["lens"] = [draw(st.integers(lo, lo + 3)) for _ in range(draw(st.integers(4, 14)))]
    return c


def indep(c):
    """Series are independent: the likelihood and gradient are sums over series, in any order and on any number of cores."""
    h = hgen.H(c)
    tot = h.fam.llk(*h.args)
    if not np.isfinite(tot):
        raise Skip("impossible data")
    G = h.fam.gradient(*h.args)
    s, gs = 0.0, 0.0
    # one family per series, with its rows only
    for k in range(len(c["lens"])):
        f, ys, Xs = sub(h, [k])
        s += f.llk(h.coef, h.split, ys, Xs)
        gs = gs + f.gradient(h.coef, h.split, ys, Xs)
    close(float(tot), float(s), 1e-10, 1e-10, "log-likelihood, sum over series")
    close(G, gs, 1e-8, 1e-8, "gradient, sum over series")
    f, ys, Xs = sub(h, list(range(len(c["lens"])))[::-1])
    close(float(f.llk(h.coef, h.split, ys, Xs)), float(tot), 1e-10, 1e-10, "log-likelihood, series reversed")
    if c["seed"] % 4 == 0:
        h.fam.llkargs[10] = 2
        close(float(h.fam.llk(*h.args)), float(tot), 1e-12, 1e-12, "log-likelihood on two cores")
        close(h.fam.gradient(*h.args), G, 1e-10, 1e-10, "gradient on two cores")
    return {"nt": len(c["lens"]) > 1, "tags": tags(c)}


def sub(h, order):
    """The family and data restricted to / reordered by series."""
    import copy
    c = h.c
    n_obs = sum(h.lens)
    rows = np.concatenate([np.arange(h.sid[k], h.sid[k] + h.lens[k]) for k in order])
    lat = rows if c["tv"] else np.array(order)
    ys, Xs = [], []
    for ro, y, X in zip(h.roles, h.ys, h.Xs):
        ix = lat if ro[0] in ("d", "T", "pi") else rows
        ys.append(None if y is None else y[ix])
        Xs.append(None if X is None else sp.csc_array(X.toarray()[ix]))
    f = copy.copy(h.fam)
    f.llkargs = list(h.fam.llkargs)
    lens = [h.lens[k] for k in order]
    f.llkargs[3] = np.concatenate([[0], np.cumsum(lens)[:-1]]).astype(int)
    f.llkargs[4] = None if c["tv"] else np.arange(len(order))
    f.llkargs[10] = 1
    if c["T"] == "list":
        f.llkargs[14] = [h.Tl[k] for k in order]
        f.llkargs[15] = [h.pil[k] for k in order]
    if h.Lrhoi is not None:
        f.llkargs[16] = sp.csc_array(h.Lrhoi.toarray()[np.ix_(rows, rows)])
    return f, ys, Xs


KC = {"kind": "hmp", "seed": 40874077, "M": 2, "tv": False, "n_S": 3, "ew": 3, "D": 4, "lens": [5, 7], "swf": True, "hfam": "Exponential", "rho": None,
      "scale": 2.3, "T": "fixed", "shared": [0], "ewl": False, "eil": True, "sm": True, "dfam": "gam", "share_X": True, "none_y": False, "zeroT": False,
      "free_y": True}


def k_shared():
    h = hgen.H(dict(KC))
    return abs(float(h.fam.llk(*h.args)) - h.llk_enum()) > 1e-6


KNOWN = [Known("hmp_shared_signals", "HMP models with shared formulas and several signals evaluate every signal with the data of the first one", k_shared)]

SUBS = [
    Sub("llk", hgen.hcase(), check, 1200, 60000),
    Sub("grad", hgen.hcase(maxlen=6), grad, 360, 16000),
    Sub("long", lcase(), long, 48, 2400),
    Sub("series", scase(), indep, 160, 6000),
]
