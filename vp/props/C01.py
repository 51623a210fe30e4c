"""C01 Link functions: mutually inverse maps with the derivatives they advertise."""
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub
from vp.util import rng, close, ok, shape, SEED, fd_elem
from mssm.src.python.exp_fam import Identity, LOG, Logit, LOGb

PROPERTY = "C01"
RULE = ("A case is a link (Identity, LOG, Logit or LOGb with b of either sign and many magnitudes), an array shape "
        "(column, flat, scalar-sized) and values either in the bulk or in the tails of the link's domain; "
        "non-trivial = at least one value away from the link's fixed point / not all equal.")
ASSUME = ["Identity, LOG, Logit and LOGb are the links the library ships; a user link is the user's own contract."]


def mk(name, b):
    return {"id": Identity, "log": LOG, "logit": Logit}[name]() if name != "logb" else LOGb(b)


# independent closed forms (mean -> eta)
def ref_f(name, b, mu):
    if name == "id":
        return mu
    if name == "log":
        return np.log(mu)
    if name == "logb":
        return np.log(mu + b)
    return np.log(mu) - np.log1p(-mu)


def ref_d1(name, b, mu):
    if name == "id":
        return np.ones_like(mu)
    if name == "log":
        return 1.0 / mu
    if name == "logb":
        return 1.0 / (mu + b)
    return 1.0 / mu + 1.0 / (1.0 - mu)


def ref_d2(name, b, mu):
    if name == "id":
        return np.zeros_like(mu)
    if name == "log":
        return -1.0 / mu**2
    if name == "logb":
        return -1.0 / (mu + b)**2
    return -1.0 / mu**2 + 1.0 / (1.0 - mu)**2


def ref_fi(name, b, eta):
    if name == "id":
        return eta
    if name == "log":
        return np.exp(eta)
    if name == "logb":
        return np.exp(eta) - b
    return np.where(eta >= 0, 1.0 / (1.0 + np.exp(-np.abs(eta))), np.exp(-np.abs(eta)) / (1.0 + np.exp(-np.abs(eta))))


CASE = st.fixed_dictionaries({
    "link": st.sampled_from(["id", "log", "logit", "logb"]),
    "b": st.one_of(st.floats(-10, 10), st.sampled_from([-1e-4, 1e-4, 0.0, -1.0, 2.5])),
    "shape": st.sampled_from([[1, 1], [5, 1], [7], [1, 4], [23, 1]]),
    "spread": st.sampled_from([0.1, 1.0, 5.0, 20.0]),
    "tails": st.booleans(),
    "seed": SEED,
})


def _etas(case):
    r = rng(case)
    eta = r.normal(size=case["shape"]) * case["spread"]
    if case["tails"]:
        lim = 33.0 if case["link"] == "logit" else 200.0
        eta = np.clip(eta * 10, -lim, lim)
    if case["link"] == "logb":
        eta = np.clip(eta, -20, 30)   # exp(eta)-b has to keep digits of exp(eta)
    if case["link"] == "logit":
        eta = np.clip(eta, -600, 33)
    return eta


def check_inverse(case):
    n, b = case["link"], case["b"]
    L = mk(n, b)
    eta = _etas(case)
    keep = eta.copy()
    mu = L.fi(eta)
    shape(mu, eta.shape, "fi(eta)")
    want = ref_fi(n, b, eta)
    close(mu, want, 1e-12, 1e-300 + (4e-16 * abs(b) if n == "logb" else 0), "fi(eta)")
    if n == "logit":
        ok(np.all((mu >= 0) & (mu <= 1)), "Logit.fi left [0,1]")
    back = L.f(mu)
    shape(back, eta.shape, "f(fi(eta))")
    tol = 1e-10
    at = 1e-12
    if n == "logb":
        # exp(eta) is recovered from exp(eta)-b up to eps*(|b|+exp(eta))
        at = 1e-12 + 8e-16 * (abs(b) + np.exp(eta)) / np.exp(eta)
    if n == "logit":
        at = 1e-12 + 8e-16 * (1 + np.exp(eta))
    close(back, eta, tol, at, "f(fi(eta)) = eta")
    ok(np.array_equal(keep, eta), "the link modified its argument")
    return {"nt": bool(np.any(np.abs(eta) > 1e-3)), "tags": [n, "tails" if case["tails"] else "bulk"]}


def _mus(case):
    n, b = case["link"], case["b"]
    eta = _etas(case)
    if n == "logit":
        eta = np.clip(eta, -30, 15)
    if n in ("log", "logb"):
        eta = np.clip(eta, -30, 30)
    return ref_fi(n, b, eta)


def check_deriv(case):
    n, b = case["link"], case["b"]
    L = mk(n, b)
    mu = _mus(case)
    keep = mu.copy()
    gap = (np.abs(mu) + abs(b)) / np.abs(mu + b) if n == "logb" else 1.0   # conditioning of mu+b
    if n == "logit":
        gap = 1 + 1.0 / (1.0 - mu)
    f, d1, d2 = L.f(mu), L.dy1(mu), L.dy2(mu)
    for a, w in ((f, "f"), (d1, "dy1"), (d2, "dy2")):
        shape(a, mu.shape, w)
    rel = 1e-10 + 4e-15 * gap
    close(f, ref_f(n, b, mu), 1e-10, rel, "f(mu)")
    close(d1, ref_d1(n, b, mu), 0, rel * np.abs(ref_d1(n, b, mu)) + 1e-300, "dy1(mu)")
    close(d2, ref_d2(n, b, mu), 0, rel * (np.abs(ref_d2(n, b, mu)) + (1 / mu**2 if n == "logit" else 0)) + 1e-300, "dy2(mu)")
    # metamorphic: the advertised derivatives are the derivatives of the library's own f / dy1
    dist = np.abs(mu + b) if n == "logb" else (np.minimum(mu, 1 - mu) if n == "logit" else np.abs(mu) + (n == "id"))
    g, e = fd_elem(L.f, mu, h=1e-2 * dist)
    fnoise = 1e-13 * (np.abs(f) + 1) * gap / dist
    close(d1, g, 1e-5, 50 * e + 100 * fnoise, "dy1 = d f / d mu")
    g, e = fd_elem(L.dy1, mu, h=1e-2 * dist)
    close(d2, g, 1e-5, 50 * e + 100 * 1e-13 * np.abs(d1) * gap / dist, "dy2 = d dy1 / d mu")
    ok(np.array_equal(keep, mu), "the link modified its argument")
    return {"nt": mu.size > 1, "tags": [n]}


def check_extreme(case):
    """For every finite eta the mean stays a valid mean (no NaN), monotonically."""
    n, b = case["link"], case["b"]
    L = mk(n, b)
    eta = np.sort(np.array(case["etas"], dtype=float))
    mu = np.asarray(L.fi(eta))
    ok(not np.any(np.isnan(mu)), "fi gave NaN for finite eta: %r -> %r" % (eta, mu))
    ok(np.all(np.diff(mu[np.isfinite(mu)]) >= 0), "fi is not monotone: %r -> %r" % (eta, mu))
    if n == "logit":
        ok(np.all((mu >= 0) & (mu <= 1)), "Logit.fi left [0,1]: %r -> %r" % (eta, mu))
    return {"nt": len(set(case["etas"])) > 1, "tags": [n, "huge" if max(map(abs, case["etas"])) > 709 else "mid"]}


EXT = st.fixed_dictionaries({
    "link": st.sampled_from(["id", "log", "logit", "logb"]),
    "b": st.floats(-5, 5),
    "etas": st.lists(st.one_of(st.floats(-30, 30), st.floats(-1e6, 1e6)), min_size=1, max_size=8),
})

SUBS = [
    Sub("inverse", CASE, check_inverse, 2400, 60000),
    Sub("deriv", CASE, check_deriv, 2400, 60000),
    Sub("extreme", EXT, check_extreme, 1200, 30000),
]
