"""Numeric helpers shared by the property modules (no code under test in here)."""
import numpy as np
from hypothesis import strategies as st
from vp.core import Violation

SEED = st.integers(0, 2**32 - 1)


def rng(case, key="seed"):
    return np.random.default_rng(case[key])


def dense(a):
    return a.toarray() if hasattr(a, "toarray") else np.asarray(a)


def fail(msg):
    raise Violation(msg)


def ok(cond, msg):
    if not bool(cond):
        raise Violation(msg)


def shape(a, shp, what):
    if tuple(np.shape(a)) != tuple(shp):
        raise Violation("%s: shape %s, expected %s" % (what, np.shape(a), tuple(shp)))


def close(got, want, rtol, atol, what):
    """Element-wise |got-want| <= atol + rtol*|want|; NaN/inf have to agree."""
    got = np.asarray(dense(got), dtype=float)
    want = np.asarray(dense(want), dtype=float)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if got.size == 0:
        return 0.0
    bad_nan = np.isnan(got) != np.isnan(want)
    inf = np.isinf(got) | np.isinf(want)
    bad_inf = inf & (got != want)
    fin = ~(np.isnan(got) | np.isnan(want) | inf)
    err = np.zeros(got.shape)
    err[fin] = np.abs(got[fin] - want[fin])
    tol = np.zeros(got.shape)
    at = np.broadcast_to(np.asarray(atol, dtype=float), got.shape)
    tol[fin] = at[fin] + rtol * np.abs(want[fin])
    bad = bad_nan | bad_inf | (err > tol)
    if np.any(bad):
        i = int(np.argmax(np.where(bad, np.where(fin, err / np.maximum(tol, 1e-300), np.inf), -1).ravel()))
        idx = np.unravel_index(i, got.shape)
        raise Violation("%s: at %s got %r, expected %r (error %.3g, tolerance %.3g; %d of %d entries off)"
                        % (what, idx, float(got[idx]), float(want[idx]), float(err[idx]), float(tol[idx]),
                           int(bad.sum()), got.size))
    return float(np.max(err)) if err.size else 0.0


def close_norm(got, want, tol, what, floor=0.0):
    """||got-want||_max <= tol * max(||want||_max, floor)."""
    got = np.asarray(dense(got), dtype=float)
    want = np.asarray(dense(want), dtype=float)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if got.size == 0:
        return 0.0
    if not np.all(np.isfinite(got)):
        raise Violation("%s: not finite: %r" % (what, got.ravel()[:8]))
    sc = max(float(np.max(np.abs(want))), floor)
    e = float(np.max(np.abs(got - want)))
    if e > tol * sc:
        idx = np.unravel_index(int(np.argmax(np.abs(got - want))), got.shape)
        raise Violation("%s: at %s got %r, expected %r (max error %.3g, allowed %.3g)"
                        % (what, idx, float(got[idx]), float(want[idx]), e, tol * sc))
    return e


def fd_grad(f, x, h=None):
    """Gradient by Richardson-extrapolated central differences; returns (grad, error estimate)."""
    x = np.asarray(x, dtype=float).ravel()
    g = np.zeros(len(x))
    e = np.zeros(len(x))
    for i in range(len(x)):
        hi = (h if h is not None else 1e-3) * max(1.0, abs(x[i]))
        d = []
        for k in (1.0, 0.5, 0.25):
            xp, xm = x.copy(), x.copy()
            xp[i] += hi * k
            xm[i] -= hi * k
            d.append((f(xp) - f(xm)) / (xp[i] - xm[i]))
        r1 = (4 * d[1] - d[0]) / 3
        r2 = (4 * d[2] - d[1]) / 3
        g[i] = (16 * r2 - r1) / 15
        e[i] = abs(g[i] - r2)
    return g, e


def fd_jac(f, x, h=None):
    """Jacobian d f_k / d x_i (rows k) of a vector function, with an error estimate."""
    x = np.asarray(x, dtype=float).ravel()
    cols, errs = [], []
    for i in range(len(x)):
        hi = (h if h is not None else 1e-3) * max(1.0, abs(x[i]))
        d = []
        for k in (1.0, 0.5, 0.25):
            xp, xm = x.copy(), x.copy()
            xp[i] += hi * k
            xm[i] -= hi * k
            d.append((np.asarray(f(xp)).ravel() - np.asarray(f(xm)).ravel()) / (xp[i] - xm[i]))
        r1 = (4 * d[1] - d[0]) / 3
        r2 = (4 * d[2] - d[1]) / 3
        g = (16 * r2 - r1) / 15
        cols.append(g)
        errs.append(np.abs(g - r2))
    return np.array(cols).T, np.array(errs).T


def fd_elem(f, x, h=1e-3):
    """Element-wise derivative of a vectorised function x -> f(x), with an error estimate."""
    x = np.asarray(x, dtype=float)
    hh = h * np.maximum(np.abs(x), 1e-300) if np.ndim(h) == 0 else h
    d = []
    for k in (1.0, 0.5, 0.25):
        a, b = x + hh * k, x - hh * k
        d.append((f(a) - f(b)) / (a - b))
    r1 = (4 * d[1] - d[0]) / 3
    r2 = (4 * d[2] - d[1]) / 3
    g = (16 * r2 - r1) / 15
    return g, np.abs(g - r2)
