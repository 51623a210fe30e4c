"""C05 Spline bases, tensor products and impulse responses are the defined ones."""
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub
from vp.util import rng, close, ok, shape, SEED
from vp.fgen import bspline, rowkron
from mssm.src.python import smooths

PROPERTY = "C05"
RULE = ("A case is a covariate vector (random, with repeats, on knots, at and near the range ends), basis size, degree and range, or a "
        "pair of margins, or a time course with an event onset; non-trivial = at least two distinct covariate values.")
ASSUME = ["Covariates lie within [min_c, max_c]; degree >= 1; nk > degree (as the term classes guarantee)."]

BASE = st.fixed_dictionaries({
    "n": st.one_of(st.integers(1, 60), st.integers(1, 60), st.sampled_from([250, 700])), "nk": st.integers(2, 25), "deg": st.integers(1, 4), "lo": st.sampled_from([0.0, -3.0, 95.0, -1e4, 1e-3]),
    "w": st.sampled_from([1.0, 7.5, 1e-3, 1e4]), "kind": st.sampled_from(["unif", "knots", "ends", "ties", "int"]),
    "given": st.booleans(), "seed": SEED})


def setup(case):
    r = rng(case)
    deg = case["deg"]
    nk = max(case["nk"], deg + 1)
    lo, hi = case["lo"], case["lo"] + case["w"]
    n = case["n"]
    if case["kind"] == "int":
        lo, hi = 0.0, float(max(1, int(case["w"])))
        x = r.integers(0, int(hi) + 1, n)
    elif case["kind"] == "unif":
        x = r.uniform(lo, hi, n)
    elif case["kind"] == "knots":
        kn = np.linspace(lo, hi, nk - deg + 1)
        x = kn[r.integers(0, len(kn), n)]
    elif case["kind"] == "ends":
        x = np.where(r.random(n) < 0.5, lo, hi)
    else:
        x = r.choice(r.uniform(lo, hi, 4), n)
    if not case["given"]:
        # range is taken from the data
        x = np.concatenate([x, [lo, hi]]) if case["kind"] != "int" else np.concatenate([x, [int(lo), int(hi)]])
    return r, x, lo, hi, nk, deg


def tol(nk, deg, lo, hi):
    # truncated power form: cancellation grows with ((range)/dx)^deg and with |lo|/(hi-lo)
    return 1e-15 * (2 ** (deg + 1)) * (nk + deg) ** deg * 20 * (1 + (abs(lo) + abs(hi)) / (hi - lo) * (nk))


def check_base(case):
    r, x, lo, hi, nk, deg = setup(case)
    kw = dict(min_c=lo, max_c=hi) if case["given"] else {}
    keep = x.copy()
    B = smooths.B_spline_basis(x, None, nk, deg=deg, **kw)
    ok(np.array_equal(keep, x), "basis changed its covariate")
    shape(B, (len(x), nk), "basis")
    a = tol(nk, deg, lo, hi)
    if a > 1e-3:
        return {"nt": False, "tags": ["illconditioned"]}
    W = bspline(x, lo, hi, nk, deg)
    # the left end is outside every half-open interval of the recursion: fill by continuity
    at = np.asarray(x, float) <= lo
    if at.any():
        W[at] = bspline(np.array([lo]) + 1e-12 * (hi - lo), lo, hi, nk, deg)
    close(B, W, 1e-9, a + 1e-10, "B-spline basis (Cox-de Boor)")
    ok(np.all(B > -a - 1e-10), "negative basis value %r" % B.min())
    close(B.sum(axis=1), np.ones(len(x)), 0, nk * a + 1e-9, "partition of unity")
    # reproduces polynomials of degree <= deg: Greville abscissae for degree 1
    if deg >= 1:
        dx = (hi - lo) / (nk - deg)
        kn = lo + dx * np.arange(-deg, nk + 1)
        g = np.array([kn[i + 1:i + 1 + deg].mean() for i in range(nk)])
        close(B @ g, np.asarray(x, float), 0, (nk * a + 1e-9) * (abs(lo) + abs(hi) + hi - lo), "linear reproduction")
    # rows do not depend on the other rows
    p = r.permutation(len(x))[: max(1, len(x) // 2)]
    B2 = smooths.B_spline_basis(x[p], None, nk, min_c=lo, max_c=hi, deg=deg)
    close(B2, B[p], 0, 1e-14 + a, "row independence")
    return {"nt": len(np.unique(x)) > 1, "tags": [case["kind"], "deg%d" % deg]}


def check_default(case):
    """Degree 3 is the default, range defaults to the data's."""
    r, x, lo, hi, nk, deg = setup(dict(case, deg=3, given=False))
    if tol(nk, 3, lo, hi) > 1e-3:
        return {"nt": False}
    close(smooths.B_spline_basis(x, None, nk), smooths.B_spline_basis(x, None, nk, min_c=lo, max_c=hi, deg=3), 0, 0, "defaults")
    # affine invariance: the basis only depends on (x - lo)/(hi - lo)
    s = float(r.uniform(0.5, 3))
    o = float(r.normal())
    a = tol(nk, 3, lo, hi) + tol(nk, 3, lo * s + o, hi * s + o)
    if a < 1e-4:
        close(smooths.B_spline_basis(x * s + o, None, nk, min_c=lo * s + o, max_c=hi * s + o),
              smooths.B_spline_basis(x, None, nk, min_c=lo, max_c=hi), 1e-6, 1e-7 + 10 * a, "affine invariance")
    return {"nt": True}


CONV = st.fixed_dictionaries({"n": st.one_of(st.integers(1, 60), st.integers(1, 60), st.sampled_from([400, 1200])), "nk": st.integers(4, 15),
                              "on": st.one_of(st.integers(0, 70), st.integers(0, 70), st.sampled_from([150, 700])), "maxc": st.one_of(st.integers(3, 80), st.integers(3, 80), st.sampled_from([300, 1500])),
                              "step": st.sampled_from([1.0, 0.25, 20.0]), "deg": st.integers(1, 3), "seed": SEED})


def check_conv(case):
    n, nk, deg = case["n"], max(case["nk"], case["deg"] + 1), case["deg"]
    t = np.arange(n) * case["step"]
    hi = case["maxc"] * case["step"]
    B = smooths.B_spline_basis(t, case["on"], nk, min_c=0, max_c=hi, convolve=True, deg=deg)
    shape(B, (n, nk), "convolved basis")
    kn = np.linspace(0, hi, nk - deg + 1 + 2 * deg)
    raw = bspline(t, 0, hi, nk, deg, convolve=True)
    raw[(t <= kn[0]) | (t >= kn[-1])] = 0
    # direct discrete convolution with a unit impulse at the onset
    W = np.zeros((n, nk))
    for i in range(n):
        j = i - case["on"]
        if j >= 0:
            W[i] = raw[j]
    a = 1e-15 * (nk + 2 * deg) ** deg * 2 ** (deg + 3) * 40 * max(1.0, (t[-1] / hi if hi else 1)) ** deg
    close(B, W, 1e-8, a + 1e-9, "basis convolved with an impulse at %d" % case["on"])
    f = np.random.default_rng(case["seed"]).normal(size=n)
    o = smooths.convolve_event(f, case["on"])
    shape(o, (n + case["on"],), "convolve_event")
    close(o, np.concatenate([np.zeros(case["on"]), f]), 0, 1e-10 * (1 + np.abs(f).max()), "convolve_event shifts by the onset")
    return {"nt": n > 1 and case["on"] < n, "tags": ["on0" if case["on"] == 0 else ("late" if case["on"] >= n else "mid")]}


TP = st.fixed_dictionaries({"n": st.one_of(st.integers(1, 20), st.integers(1, 20), st.sampled_from([300])), "a": st.integers(1, 6), "b": st.integers(1, 6), "c": st.integers(0, 4), "seed": SEED})


def check_tp(case):
    r = rng(case)
    A, B = r.normal(size=(case["n"], case["a"])), r.normal(size=(case["n"], case["b"]))
    T = smooths.TP_basis_calc(A, B)
    close(T, rowkron(A, B), 1e-12, 1e-13, "row-wise Kronecker product, second margin fastest")
    if case["c"]:
        C = r.normal(size=(case["n"], case["c"]))
        T3 = smooths.TP_basis_calc(T, C)
        w = np.array([np.kron(np.kron(A[i], B[i]), C[i]) for i in range(case["n"])])
        close(T3, w, 1e-11, 1e-12, "three margins")
    return {"nt": case["a"] > 1 and case["b"] > 1}


SUBS = [
    Sub("basis", BASE, check_base, 2500, 60000),
    Sub("default", BASE, check_default, 500, 10000),
    Sub("convolve", CONV, check_conv, 1200, 30000),
    Sub("tensor", TP, check_tp, 600, 10000),
]
