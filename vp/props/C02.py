"""C02 Exponential-family members: density, deviance, variance function and derivatives agree."""
import numpy as np
import scipy as scp
from scipy.special import betaln, gammaln, xlogy, xlog1py
from hypothesis import strategies as st
from vp.core import Sub
from vp.util import rng, close, ok, SEED, fd_grad, fd_elem, close_norm
from mssm.src.python.exp_fam import (Identity, LOG, Logit, LOGb, Gaussian, Gamma, InvGauss, Binomial, Poisson,
                                     ScaledT, est_scale)

PROPERTY = "C02"
RULE = ("A case is a family (Gaussian, Gamma, InvGauss, Binomial with scalar or per-row trial counts, Poisson, ScaledT), "
        "a link that keeps its means valid, n in 1..30 rows, a scale/theta and data drawn from or away from the family "
        "including boundary responses (0 counts, 0/1 proportions); non-trivial = more than one row and y != mu somewhere.")
ASSUME = ["Means lie in the open interior of the family's mean space, responses in the family's support."]

FAMS = ["gaussian", "gamma", "invgauss", "binomial", "poisson", "scaledt"]
LINKS = {"gaussian": ["id", "log"], "gamma": ["log", "id"], "invgauss": ["log", "id"], "binomial": ["logit", "log"],
         "poisson": ["log", "id", "logb"], "scaledt": ["id", "log"]}


def mklink(n):
    return {"id": Identity, "log": LOG, "logit": Logit}[n]() if n != "logb" else LOGb(0.3)


@st.composite
def cases(draw):
    fam = draw(st.sampled_from(FAMS))
    return {
        "fam": fam,
        "link": draw(st.sampled_from(LINKS[fam])),
        "n": draw(st.one_of(st.integers(1, 30), st.integers(1, 30), st.sampled_from([120, 400]))),
        "trials": draw(st.sampled_from(["one", "const", "rows"])),
        "scale": draw(st.floats(-3, 3)),
        "lnu": draw(st.one_of(st.floats(-3, 4), st.floats(-3, 45))),
        "spread": draw(st.sampled_from([0.1, 0.7, 2.0, 4.0])),
        "edge": draw(st.booleans()),
        "min_df": draw(st.sampled_from([3, 3, 2.5, 5])),
        "seed": draw(SEED),
    }


def setup(case):
    r = rng(case)
    n, fam, ln = case["n"], case["fam"], case["link"]
    scale = float(np.exp(case["scale"]))
    link = mklink(ln)
    z = r.normal(size=(n, 1)) * case["spread"]
    N = 1
    theta = None
    if fam == "binomial":
        if case["trials"] == "const":
            N = int(r.integers(1, 25 if r.random() < 0.8 else 5000))
        elif case["trials"] == "rows":
            N = r.integers(1, 25 if r.random() < 0.8 else 5000, size=(n, 1))
        mu = 1 / (1 + np.exp(-z)) if ln == "logit" else np.exp(-np.abs(z) - 0.05)
        k = r.binomial(N, mu, size=(n, 1)).astype(float)
        if case["edge"]:
            k = np.where(r.random((n, 1)) < 0.5, 0.0, np.asarray(N) * 1.0)
        y = k / N
        F = Binomial(link, N)
    elif fam == "poisson":
        mu = np.exp(z) * 3
        y = r.poisson(mu).astype(float)
        if case["edge"]:
            y[r.random((n, 1)) < 0.5] = 0
        F = Poisson(link)
    elif fam in ("gamma", "invgauss"):
        mu = np.exp(z)
        y = np.exp(r.normal(size=(n, 1)) * (3 if case["edge"] else 1))
        F = {"gamma": Gamma, "invgauss": InvGauss}[fam](link)
    elif fam == "gaussian":
        mu = np.exp(z) if ln == "log" else z * 3
        y = mu + r.normal(size=(n, 1)) * np.sqrt(scale) * (10 if case["edge"] else 1)
        F = Gaussian(link)
    else:
        mu = np.exp(z) if ln == "log" else z * 3
        theta = np.array([case["scale"] / 2, case["lnu"]]).reshape(-1, 1)
        y = mu + r.standard_t(4, size=(n, 1)) * np.exp(theta[0, 0]) * (5 if case["edge"] else 1)
        F = ScaledT(link, theta.copy(), case["min_df"])
    return r, F, link, y, mu, scale, N, theta


def ref_lp(fam, y, mu, scale, N, theta, min_df):
    if fam == "gaussian":
        return -0.5 * np.log(2 * np.pi * scale) - (y - mu)**2 / (2 * scale)
    if fam == "gamma":
        a = 1 / scale
        return a * np.log(a / mu) - gammaln(a) + (a - 1) * np.log(y) - a * y / mu
    if fam == "invgauss":
        return -0.5 * np.log(2 * np.pi * scale * y**3) - (y - mu)**2 / (2 * scale * mu**2 * y)
    if fam == "binomial":
        k = np.round(y * N)
        return gammaln(N + 1) - gammaln(k + 1) - gammaln(N - k + 1) + xlogy(k, mu) + xlog1py(N - k, -mu)
    if fam == "poisson":
        return xlogy(y, mu) - mu - gammaln(y + 1)
    ph = np.exp(theta[0, 0])
    nu = np.exp(theta[1, 0]) + min_df
    return (-betaln(nu / 2, 0.5) - 0.5 * np.log(nu) - np.log(ph)
            - (nu + 1) / 2 * np.log1p(((y - mu) / ph)**2 / nu))


def kw(case, scale, theta):
    if case["fam"] in ("gaussian", "gamma", "invgauss"):
        return {"scale": scale}
    if case["fam"] == "scaledt":
        return {"theta": theta}
    return {}


def check_density(case):
    r, F, link, y, mu, scale, N, theta = setup(case)
    fam = case["fam"]
    K = kw(case, scale, theta)
    y0, mu0 = y.copy(), mu.copy()
    want = ref_lp(fam, y, mu, scale, N, theta, case["min_df"])
    lp = F.lp(y, mu, **K)
    tol = 1e-9
    at = 1e-9 * (1 + np.abs(want) + (np.abs(gammaln(np.asarray(N) + 1)) if fam == "binomial" else 0)
                 + (1e-2 * (np.abs(y * np.log(mu)) + mu + gammaln(y + 1)) if fam == "poisson" else 0))
    close(lp, want, tol, at, "%s lp" % fam)
    close(F.llk(y, mu, **K), np.sum(want), tol, np.sum(at), "%s llk = sum of lp" % fam)
    if fam == "scaledt":
        close(F.lp(y, mu), want, tol, at, "scaledt lp with the family's own theta")
        close(F.llk(y, mu), np.sum(want), tol, np.sum(at), "scaledt llk with the family's own theta")
    elif K:
        w1 = ref_lp(fam, y, mu, 1.0, N, theta, case["min_df"])
        close(F.lp(y, mu), w1, tol, 1e-9 * (1 + np.abs(w1)), "%s lp at the default scale" % fam)
    # deviance: D = 2*scale*(l(saturated) - l(mu)), deviance its sum
    s = scale if K and fam != "scaledt" else 1.0
    sat_mu = y.copy()
    lsat = ref_lp(fam, y, sat_mu, s, N, theta, case["min_df"])
    wantD = 2 * s * (lsat - ref_lp(fam, y, mu, s, N, theta, case["min_df"]))
    DK = {"theta": theta} if fam == "scaledt" else {}
    D = F.D(y, mu, **DK)
    atD = 1e-8 * (1 + np.abs(wantD) + 2 * s * (np.abs(lsat) + at))
    close(D, wantD, 1e-8, atD, "%s D = 2*scale*(saturated - fitted log-density)" % fam)
    ok(np.all(D >= -atD), "%s: negative deviance component %r" % (fam, D.min()))
    close(F.deviance(y, mu, **DK), np.sum(wantD), 1e-8, np.sum(atD), "%s deviance = sum D" % fam)
    z = F.D(mu.copy(), mu, **DK) if fam not in ("binomial", "poisson") else None
    if z is not None:
        close(z, np.zeros_like(mu), 0, 1e-9 * (1 + np.abs(mu)), "%s D(mu, mu) = 0" % fam)
    ok(np.array_equal(y, y0) and np.array_equal(mu, mu0), "the family modified its arguments")
    return {"nt": case["n"] > 1 and bool(np.any(np.abs(y - mu) > 1e-6)), "tags": [fam, "edge" if case["edge"] else "bulk"]}


def check_variance(case):
    """V is the family's variance function (Var = scale*V for the one-scale families, Var = V for ScaledT)."""
    r, F, link, y, mu, scale, N, theta = setup(case)
    fam = case["fam"]
    V = F.V(mu)
    if fam == "gaussian":
        want = np.array([scp.stats.norm.var(scale=1.0)] * len(mu)).reshape(-1, 1)
    elif fam == "gamma":
        want = scp.stats.gamma.var(a=1 / scale, scale=mu * scale) / scale
    elif fam == "invgauss":
        want = scp.stats.invgauss.var(mu=mu * scale, scale=1 / scale) / scale
    elif fam == "binomial":
        want = scp.stats.binom.var(n=N, p=mu) / np.asarray(N)**2
    elif fam == "poisson":
        want = scp.stats.poisson.var(mu)
    else:
        ph, nu = np.exp(theta[0, 0]), np.exp(theta[1, 0]) + case["min_df"]
        want = np.ones_like(mu) * scp.stats.t.var(df=nu, scale=ph)
        close(F.V(mu, theta), want, 1e-9, 1e-12, "scaledt V(theta)")
    close(V, want, 1e-9, 1e-12, "%s V" % fam)
    g, e = fd_elem(F.V, mu, h=1e-2 * np.minimum(np.abs(mu) + 1e-6, 1 - mu if fam == "binomial" else np.inf))
    close(F.dVy1(mu), g, 1e-6, 50 * e + 1e-7 * (np.abs(V) / (np.abs(mu) + 1e-6) + 1), "%s dVy1 = dV/dmu" % fam)
    im = F.init_mu(y)
    ok(np.all(np.isfinite(im)), "init_mu not finite")
    if fam == "binomial":
        ok(np.all((im > 0) & (im < 1)), "binomial init_mu outside (0,1)")
    if fam == "poisson":
        ok(np.all(im > 0), "poisson init_mu not positive")
    return {"nt": case["n"] > 1, "tags": [fam]}


def check_grad(case):
    """dllkdcoef, dllkdlscale, d2llkd2lscale are derivatives of the log-likelihood."""
    r, F, link, y, mu, scale, N, theta = setup(case)
    fam = case["fam"]
    if fam == "scaledt":
        return {"nt": False, "tags": ["skip"]}
    n = len(y)
    p = int(r.integers(1, 4))
    X = r.normal(size=(n, p)) * 0.4
    X[:, 0] = 1
    if case["link"] in ("id", "logb") and fam != "gaussian":
        X = np.abs(X)
        coef = np.abs(r.normal(size=(p, 1))) + 1.0
    else:
        coef = r.normal(size=(p, 1)) * 0.4
        if case["link"] == "log" and fam == "binomial":
            X = np.abs(X)
            coef = -np.abs(coef) - 0.2
    sX = scp.sparse.csc_array(X)
    s = scale if fam in ("gaussian", "gamma", "invgauss") else 1.0
    S = {"scale": s} if s is not None and fam in ("gaussian", "gamma", "invgauss") else {}

    def f(c):
        m = {"id": lambda e: e, "log": np.exp, "logit": lambda e: 1 / (1 + np.exp(-e)), "logb": lambda e: np.exp(e) - 0.3}[case["link"]](X @ c.reshape(-1, 1))
        return float(np.sum(ref_lp(fam, y, m, s, N, theta, case["min_df"])))
    if case["link"] == "logb":
        # keep means positive
        coef = np.abs(coef) * 0.5 + 0.1
    g, e = fd_grad(f, coef.ravel(), h=1e-3)
    got = np.asarray(F.dllkdcoef(coef, y, sX, scale=s))
    sc = np.max(np.abs(g)) + abs(f(coef.ravel())) * 1e-3 + 1
    close(got, g.reshape(-1, 1), 1e-5, (50 * e + 1e-6 * sc).reshape(-1, 1), "%s dllkdcoef" % fam)
    if S:
        mu_c = link.fi(X @ coef)

        def h(ls):
            return float(np.sum(ref_lp(fam, y, mu_c, np.exp(ls[0]), N, theta, case["min_df"])))
        g, e = fd_grad(h, [np.log(s)])
        g2, e2 = fd_grad(lambda x: fd_grad(h, x)[0][0], [np.log(s)], h=2e-2)
        hs = abs(h([np.log(s)])) + 1
        close(F.dllkdlscale(coef, y, sX, scale=s), g[0], 1e-4, 50 * e[0] + 2e-6 * hs, "%s dllkdlscale" % fam)
        close(F.d2llkd2lscale(coef, y, sX, scale=s), g2[0], 1e-3, 50 * e2[0] + 1e-5 * hs, "%s d2llkd2lscale" % fam)
    else:
        ok(F.dllkdlscale(coef, y, sX) == 0 and F.d2llkd2lscale(coef, y, sX) == 0,
           "%s has no scale parameter but reports a scale derivative" % fam)
    return {"nt": n > 1, "tags": [fam, case["link"]]}


def check_scaledt(case):
    case = dict(case, fam="scaledt")
    if case["link"] not in ("id", "log"):
        case["link"] = "id"
    r, F, link, y, mu, scale, N, theta = setup(case)
    md = case["min_df"]
    ph, nu = np.exp(theta[0, 0]), np.exp(theta[1, 0]) + md
    h = 1e-2 * ph * np.ones_like(mu)
    Dref = lambda m: (nu + 1) * np.log1p(((y - m) / ph)**2 / nu)
    g, e = fd_elem(Dref, mu, h=h)
    sc = (nu + 1) / (ph * nu**0.5)
    close(F.dDdmu(y, mu, theta), g, 1e-6, 50 * e + 1e-7 * sc, "scaledt dDdmu")
    d1 = lambda m: -2 * (nu + 1) * (y - m) / (nu * ph**2 + (y - m)**2)
    g, e = fd_elem(d1, mu, h=h)
    close(F.d2Ddmu(y, mu, theta), g, 1e-6, 50 * e + 1e-7 * sc / ph, "scaledt d2Ddmu")
    close(F.dDdmu(y, mu), F.dDdmu(y, mu, theta), 1e-12, 0, "dDdmu default theta")
    close(F.d2Ddmu(y, mu), F.d2Ddmu(y, mu, theta), 1e-12, 0, "d2Ddmu default theta")
    # expected second derivative by quadrature over the t density
    q = (np.arange(2000) + 0.5) / 2000
    t = scp.stats.t.ppf(q, df=nu)
    rr = t * ph
    d2 = 2 * (nu + 1) * (1 / (nu * ph**2 + rr**2) - 2 * rr**2 / (nu * ph**2 + rr**2)**2)
    close(F.Ed2Ddmu(y, mu, theta), np.ones_like(mu) * d2.mean(), 5e-3, 0, "scaledt Ed2Ddmu")

    def f(th):
        return float(np.sum(ref_lp("scaledt", y, mu, 1, 1, np.asarray(th).reshape(-1, 1), md)))

    def an(th):
        # gradient written from the density, by finite differences of high order
        return fd_grad(f, th, h=1e-3)[0]
    g, e = fd_grad(f, theta.ravel(), h=1e-3)
    sc = np.sum(np.abs(ref_lp("scaledt", y, mu, 1, 1, theta, md))) + len(y)
    close(F.gradientLTheta(y, mu, theta).ravel(), g, 1e-5, 50 * e + 1e-7 * sc, "scaledt gradientLTheta")
    # Hessian: differentiate the library's own gradient (validated above at this and nearby points)
    J = np.zeros((2, 2))
    E = np.zeros((2, 2))
    for i in range(2):
        gi, ei = fd_grad(lambda x: F.gradientLTheta(y, mu, np.asarray(x).reshape(-1, 1))[i, 0], theta.ravel(), h=1e-3)
        J[i], E[i] = gi, ei
    close(F.hessianLTheta(y, mu, theta), J, 1e-5, 50 * E + 1e-7 * sc, "scaledt hessianLTheta")
    return {"nt": case["n"] > 1, "tags": ["min_df%s" % md]}


def check_est_scale(case):
    r = rng(case)
    n = case["n"] + 3
    res = r.normal(size=(n, 1))
    edf = float(r.uniform(0.5, n - 1))
    close(est_scale(res, n, edf), np.sum(res**2) / (n - edf), 1e-12, 0, "est_scale")
    return True


SUBS = [
    Sub("density", cases(), check_density, 3200, 80000),
    Sub("variance", cases(), check_variance, 1600, 40000),
    Sub("gradient", cases(), check_grad, 1600, 40000),
    Sub("scaledt", cases(), check_scaledt, 800, 20000),
    Sub("est_scale", cases(), check_est_scale, 100, 1000),
]
