"""C23: tests of smooth terms and printed summaries."""
import contextlib
import io
import re
import warnings
import numpy as np
import scipy as scp
import scipy.stats as ss
from hypothesis import strategies as st
from vp import fgen, mfit, mls
from vp.core import Sub, Skip
from vp.util import close, ok, dense, SEED
from vp.props import C11, C13
from vp.props.C19 import Ruben

PROPERTY = "C23"
RULE = ("Cases: generated GAMMs (all families; smooths by factor, shared, tensor, random smooths and effects, impulse responses, unpenalised terms), GAMMLSS and general "
        "smooth models at generated or estimated smoothing parameters; tests with and without bias-corrected edf, approximate p-values, row subsets, shuffled rows. Oracle: "
        "dense rank-r Wald statistic of Wood (2013) in both eigenvector orientations, exact mixture distributions, dense edf, and the lines parsed from the printed "
        "summaries. Non-trivial: at least one smooth term with a fractional rank.")
ASSUME = ["ties of the eigenvalues around the rank and statistics whose Davies integral is not accurate are skipped",
          "residual degrees of freedom may be truncated to an integer in the mixture"]


# ------------------------------------------------------------------ layout
class Block:
    def __init__(self, kind, name, level, cols, term):
        self.kind, self.name, self.level, self.cols, self.term = kind, name, level, cols, term


def layout(F, tdicts):
    """Columns of every term of a formula, in the order of the model matrix."""
    names = F.get_term_names()
    lev = F.get_factor_levels()
    cod = F.get_coding_factors()
    at = 0
    out = []
    for kind, idx in (("lin", F.get_linear_term_idx()), ("irf", F.get_ir_smooth_term_idx()), ("sm", F.get_smooth_term_idx()), ("ran", F.get_random_term_idx())):
        for ti in idx:
            n = int(F.coef_per_term[ti])
            t = tdicts[ti]
            by = t.get("by")
            split = (kind == "sm" and t["t"] == "f" and by is not None and t.get("id") is None) or (kind == "ran" and t["t"] == "rs" and by is not None) \
                or (kind == "irf" and by is not None and t.get("id") is None)
            parts = len(lev[by]) if split else 1
            for k in range(parts):
                m = n // parts
                out.append(Block("fs" if t["t"] == "fs" else kind, names[ti], None if parts == 1 else cod[by][k], np.arange(at, at + m), t))
                at += m
    return out


def rank_test(beta, V, X, r, rdf):
    """(statistics for both orientations, p-value bounds) of Wood (2013)"""
    G = X.T @ X
    R = np.linalg.cholesky(G + 1e-14 * np.trace(G) / len(G) * np.eye(len(G))).T if np.linalg.cond(G) > 1e12 else np.linalg.cholesky(G).T
    s, U = np.linalg.eigh(R @ V @ R.T)
    s, U = s[::-1], U[:, ::-1]
    k = int(np.floor(r))
    v = r - k
    z = U.T @ (R @ beta) / np.sqrt(np.maximum(s, 1e-300))
    if k > len(s):
        k, v = len(s), 0.0
    if k == len(s):
        v = 0.0
    lim = [i for i in (k - 1, k, k + 1) if 1 <= i < len(s)]
    if any(s[i - 1] - s[i] < 1e-6 * s[0] for i in lim) or s[min(k, len(s) - 1)] < 1e-9 * s[0]:
        raise Skip("tied eigenvalues")
    if v == 0:
        T = np.array([z[:k] @ z[:k]] * 2)
        lam, n = np.array([1.0]), np.array([k])
    else:
        p = np.sqrt(v * (1 - v) / 2)
        T0 = z[:k - 1] @ z[:k - 1] + z[k - 1] ** 2 + v * z[k] ** 2
        c = 2 * p * z[k - 1] * z[k]
        T = np.array([T0 + c, T0 - c])
        v1 = (v + 1 + np.sqrt(1 - v ** 2)) / 2
        lam, n = np.array([1.0, v1, v + 1 - v1]), np.array([k - 1, 1, 1])
    q = Ruben(lam[n > 0], n[n > 0], np.zeros((n > 0).sum()))
    if rdf is None:
        return T, [float(np.mean(1 - q.cdf(T)))]
    out = []
    u = (np.polynomial.legendre.leggauss(80)[0] + 1) / 2
    w = np.polynomial.legendre.leggauss(80)[1] / 2
    for d, mult in ((rdf, 1.0), (np.floor(rdf), np.floor(rdf) / rdf), (np.round(rdf), 1.0)):
        x = ss.chi2.ppf(u, d) / d * mult
        out.append(float(np.mean([w @ (1 - q.cdf(t * x)) for t in T])))
    return T, out


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def printed(f):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        quiet(f)
    return b.getvalue().splitlines()


NUM = r"(-?(?:\d+\.?\d*(?:e[+-]?\d+)?|inf|nan))"


def stars(p):
    return " ***" if p < 0.001 else " **" if p < 0.01 else " *" if p < 0.05 else " ." if p < 0.1 else ""


def near_cut(p):
    return any(abs(p - c) < 1e-4 * c for c in (0.001, 0.01, 0.05, 0.1))


# ------------------------------------------------------------------ the check itself
def check(c, model, forms, n, opt):
    """forms: list of (Formula, term dicts, X, first column)."""
    from mssm.src.python.utils import approx_smooth_p_values, compute_bias_corrected_edf, print_smooth_terms
    gamm = hasattr(model.family, "twopar")
    phi = float(model.scale) if gamm else 1.0
    V = dense(model.lvi)
    V = V.T @ V * phi
    nH = -dense(model.hessian)
    Fm = V @ nH
    b = np.asarray(model.coef, float).ravel()
    F1 = 2 * Fm - Fm @ Fm
    two = gamm and model.family.twopar
    nt = False
    quiet(compute_bias_corrected_edf, model, overwrite=True)
    blocks = [layout(F, t) for F, t, _, _ in forms]
    pen = [(k, B) for k, bl in enumerate(blocks) for B in bl if B.kind != "lin" and B.term.get("pen", True)]
    off = [f[3] for f in forms]
    want1 = [float(np.trace(F1[np.ix_(B.cols + off[k], B.cols + off[k])])) for k, B in pen]
    wante = [float(np.trace(Fm[np.ix_(B.cols + off[k], B.cols + off[k])])) for k, B in pen]
    close(np.asarray(model.term_edf1, float), np.array(want1), 0, 1e-4 * len(b), "bias-corrected edf per term")
    unp = sum(len(B.cols) for bl in blocks for B in bl if B.kind == "lin" or not B.term.get("pen", True))
    ok(abs(model.edf1 - (unp + sum(want1))) <= 1e-4 * len(b), "total bias-corrected edf %r, expected %r" % (model.edf1, unp + sum(want1)))
    close(np.asarray(model.term_edf, float), np.array(wante), 0, 2e-3 * max(1, len(b)), "edf per term")
    tags = set()
    for par, ((F, td, X, o0), bl) in enumerate(zip(forms, blocks)):
        ed = {id(B): e for (k, B), e in zip(pen, model.term_edf) if k == par}
        ed1 = {id(B): e for (k, B), e in zip(pen, model.term_edf1) if k == par}
        sm = [B for B in bl if B.kind == "sm"]
        for use1 in (True, False):
            ps, Tr = quiet(approx_smooth_p_values, model, par=par, edf1=use1, force_approx=opt["approx"])
            ok(len(ps) == len(sm) and len(Tr) == len(sm), "%d p-values for %d smooth terms" % (len(ps), len(sm)))
            again = quiet(approx_smooth_p_values, model, par=par, edf1=use1, force_approx=opt["approx"], n_sel=len(X) + 1, seed=3)
            close(np.array(again[0], float), np.array(ps, float), 0, 1e-12, "p-values when all rows are used")
            for B, p, T in zip(sm, ps, Tr):
                what = "%s%s (par %d, edf1=%s): " % (B.name, "" if B.level is None else ": %s" % B.level, par, use1)
                ok(0 <= p <= 1, what + "p-value %r" % p)
                r = float((ed1 if use1 else ed).get(id(B), len(B.cols)))
                r = min(r, len(B.cols))
                if abs(r - 1) < 1e-6:
                    continue
                if r < 1:
                    ok(p == 1 and T == -1, what + "fully penalised term: p-value %r, statistic %r" % (p, T))
                    tags.add("fully penalised")
                    continue
                if abs(r - round(r)) < 1e-6 and r != round(r):
                    r = float(round(r)) if abs(r - len(B.cols)) < 1e-6 else r
                j = B.cols
                J = j + o0
                rdf = n - float(model.edf) if two else None
                try:
                    Tw, pw = rank_test(b[J], V[np.ix_(J, J)], X[:, j], r, rdf)
                except np.linalg.LinAlgError:
                    continue
                except Skip:
                    tags.add("skipped test")
                    continue
                tw = Tw.max() / (r if two else 1)
                ok(abs(T - tw) <= 1e-4 * abs(tw) + 1e-6, what + "statistic %r, expected %r (rank %r)" % (T, tw, r))
                if opt["approx"] and r != round(r):
                    if two:
                        pw = [float(np.mean(ss.f.sf(Tw / r, r, rdf)))]
                    else:
                        pw = [float(np.mean(ss.chi2.sf(Tw, r)))]
                ok(min(pw) - 1e-3 <= p <= max(pw) + 1e-3, what + "p-value %r, expected %r (statistic %r, rank %r, residual df %r)" % (p, pw, T, r, rdf))
                nt = True
                tags.add("F" if two else "chi2")
            if use1:
                keep = (ps, Tr)
        # subset of the rows
        if len(sm) and opt["n_sel"]:
            a = quiet(approx_smooth_p_values, model, par=par, n_sel=opt["n_sel"], seed=5)
            a2 = quiet(approx_smooth_p_values, model, par=par, n_sel=opt["n_sel"], seed=5)
            close(np.array(a2[0], float), np.array(a[0], float), 0, 0, "repeating the test with the same seed")
            ok(all(0 <= p <= 1 for p in a[0]), "p-values %r" % (a[0],))
            tags.add("row subset")
        # printed smooth terms
        for with_p in (False, True):
            cut = opt["cut"]
            lines = printed(lambda: print_smooth_terms(model, par=par, pen_cutoff=cut, **({"ps": keep[0], "Trs": keep[1]} if with_p else {})))
            body = [x for x in lines if re.search(r"; edf: ", x)]
            shown = [B for B in bl if B.kind in ("sm", "fs", "ran")]
            ok(len(body) == len(shown), "%d lines for %d terms: %r" % (len(body), len(shown), lines))
            out = 0
            pi = 0
            for B, line in zip(shown, body):
                ok(line.startswith(B.name), "line %r, expected the term %r" % (line, B.name))
                rest = line[len(B.name):]
                m = re.match(r"(?:: ?(\S+))?; edf: " + NUM + r"(.*)$", rest)
                ok(m is not None, "line %r does not have the documented form" % line)
                ok((m.group(1) or None) == (None if B.level is None else str(B.level)), "line %r, expected level %r" % (line, B.level))
                e = float(ed.get(id(B), len(B.cols)))
                ok(abs(float(m.group(2)) - e) <= 6e-4, "line %r, the edf of the term are %r" % (line, e))
                tail = m.group(3)
                if B.kind != "ran":
                    low = round(e, 3) < cut
                    ok(tail.startswith(" *") == low if not with_p else True, "line %r: edf %r, cut-off %r" % (line, e, cut))
                    if low and abs(e - cut) > 1e-3:
                        ok(tail.startswith(" *"), "line %r: edf %r, cut-off %r" % (line, e, cut))
                        tail = tail[2:]
                    out += low
                    if with_p and B.kind == "sm":
                        lab = r" f: %s P\(F > f\) = %s(.*)$" if two else r" chi\^2: %s P\(Chi\^2 > chi\^2\) = %s(.*)$"
                        q = re.match(lab % (NUM, NUM), tail)
                        ok(q is not None, "line %r does not show statistic and p-value" % line)
                        ok(abs(float(q.group(1)) - keep[1][pi]) <= 6e-4 + 1e-9 * abs(keep[1][pi]), "line %r, the statistic is %r" % (line, keep[1][pi]))
                        ok(abs(float(q.group(2)) - keep[0][pi]) <= 6e-6 + 1e-3 * keep[0][pi], "line %r, the p-value is %r" % (line, keep[0][pi]))
                        if not near_cut(keep[0][pi]):
                            ok(q.group(3) == stars(keep[0][pi]), "line %r: marks for p-value %r" % (line, keep[0][pi]))
                        pi += 1
            if out == 1:
                ok(any("One term" in x for x in lines), "the penalised term is not reported: %r" % lines)
            elif out > 1:
                ok(any(x.startswith("%d terms" % out) for x in lines), "%d penalised terms are not reported: %r" % (out, lines))
    # printed parametric terms, all distribution parameters in one go
    lines = printed(model.print_parametric_terms)
    at = 0
    parts = []
    if not gamm or sum(x.startswith("Distribution parameter") for x in lines):
        cur = None
        for x in lines:
            if x.startswith("Distribution parameter"):
                cur = []
                parts.append(cur)
            elif cur is not None:
                cur.append(x)
    else:
        parts = [lines]
    ok(len(parts) == len(forms), "%d sections for %d formulas" % (len(parts), len(forms)))
    for (F, td, X, o0), bl, sec in zip(forms, blocks, parts):
        body = [x for x in sec if re.search(r"P\(\|[TZ]\|", x)]
        cols = np.concatenate([B.cols for B in bl if B.kind == "lin"]) if any(B.kind == "lin" for B in bl) else np.array([], int)
        names = list(F.coef_names[:len(cols)])
        ok(len(body) == len(cols), "%d lines for %d parametric coefficients: %r" % (len(body), len(cols), sec))
        for j, nm, line in zip(cols, names, body):
            bj, sd = b[j + o0], np.sqrt(V[j + o0, j + o0])
            t = bj / sd
            dof = n - len(b)
            p = 2 * ss.t.sf(abs(t), dof) if two else 2 * ss.norm.sf(abs(t))
            ok(line.startswith(nm + ": "), "line %r, expected coefficient %r" % (line, nm))
            pat = r": %s, t: %s, DoF\.: (\d+), P\(\|T\| > \|t\|\): %s(.*)$" if two else r": %s, z: %s, P\(\|Z\| > \|z\|\): %s(.*)$"
            q = re.match(pat % (NUM, NUM, NUM), line[len(nm):])
            ok(q is not None, "line %r does not have the documented form" % line)
            g = list(q.groups())
            if two:
                ok(int(g.pop(2)) == dof, "line %r, expected %d degrees of freedom" % (line, dof))
            ok(abs(float(g[0]) - bj) <= 6e-4, "line %r, the coefficient is %r" % (line, bj))
            ok(abs(float(g[1]) - t) <= 6e-4 + 1e-6 * abs(t), "line %r, the statistic is %r" % (line, t))
            ok(abs(float(g[2]) - p) <= 1e-5 + 1e-2 * p, "line %r, the p-value is %r" % (line, p))
            if not near_cut(p) and p > 1e-12:
                ok(g[3] == stars(p), "line %r: marks for p-value %r" % (line, p))
        nt = nt or len(cols) > 0
    return nt, tags


OPT = st.fixed_dictionaries({"approx": st.sampled_from([False, False, False, True]), "n_sel": st.sampled_from([None, None, 40]), "cut": st.sampled_from([0.2, 1.5, 4.0])})


@st.composite
def g_gamm(draw):
    c = draw(mfit.tame(irf=draw(st.sampled_from([False, False, True])), maxt=3, n=(70, 150)))
    c["fam"] = draw(st.sampled_from(mfit.FAMS))
    c["off"] = draw(st.sampled_from([None, None, None, "num"]))
    c["fit"] = {"method": draw(st.sampled_from(["QR", "Chol"])), "n_cores": 1}
    c["frozen"] = draw(st.sampled_from([None, [-1, 2], [-4, -2], [2, 5]]))
    if draw(st.sampled_from([False, False, False, True])):
        k = [t for t in c["terms"] if t["t"] == "f" and t.get("by") is None]
        if k:
            # an unpenalised smooth has to be the first one
            k[0]["pen"] = False
            k[0]["null"] = False
            k[0]["rp"] = 0
            c["terms"] = [k[0]] + [t for t in c["terms"] if t is not k[0]]
    c["opt"] = draw(OPT)
    c["tight"] = True
    return c


def c_gamm(c):
    if not mfit.capped(c, 60):
        raise Skip("too many columns")
    if any(t["t"] == "irf" for t in c["terms"]) and any(t.get("pen") is False and t["t"] == "f" for t in c["terms"]):
        raise Skip("unpenalised smooth behind a penalised one")
    model, df = mfit.mk_gamm(c)
    C11.fit(c, model, df)
    if model.info.iter >= (40 if c["fam"] == "scat" else 200):
        raise Skip("not converged")
    o = mfit.Oracle(model, c, df)
    if o.cond > 1e8 or len(o.drop):
        raise Skip("penalised Hessian numerically singular")
    if not len(model.overall_penalties):
        raise Skip("no penalties")
    if np.max(np.abs(o.eta)) > 15 and mfit.LINKS[c["fam"]] != "id":
        raise Skip("separated or overflowing data")
    nt, tags = check(c, model, [(model.formulas[0], c["terms"], o.X, 0)], o.n, c["opt"])
    return {"nt": nt, "tags": [c["fam"]] + sorted(tags) + (["irf"] if any(t["t"] == "irf" for t in c["terms"]) else [])
            + (["unpenalised"] if any(t.get("pen") is False for t in c["terms"]) else [])}


@st.composite
def g_ls(draw):
    c = draw(mls.mcase(["gau", "gau", "gam", "mul2", "mg1", "cox"], maxt=2))
    c["fit"] = {"method": draw(st.sampled_from(["QR/Chol", "Chol"])), "n_cores": 1, "repara": draw(st.booleans())}
    c["frozen"] = draw(st.sampled_from([None, [-1, 2], [0, 1]]))
    c["opt"] = draw(OPT)
    return c


def c_ls(c):
    if mls.ncol(c) > 60:
        raise Skip("too many columns")
    model, df = mls.mk(c)
    C13.fit(c, model, conv_tol=1e-10)
    if model.info.iter >= 199 or model.info.eps > 0 or model.info.dropped is not None and len(model.info.dropped):
        raise Skip("not converged")
    if not len(model.overall_penalties):
        raise Skip("no penalties")
    A = -dense(model.hessian) + sum((q.lam * dense(q.S_J_emb) for q in model.overall_penalties), np.zeros(model.hessian.shape))
    ev = np.linalg.eigvalsh(A)
    if ev[0] < 1e-8 * ev[-1]:
        raise Skip("penalised Hessian numerically singular")
    Xs = [dense(X) for X in model.get_mmat()]
    at = np.concatenate([[0], np.cumsum([X.shape[1] for X in Xs])])
    nt, tags = check(c, model, [(F, t, X, int(a)) for F, t, X, a in zip(model.formulas, c["forms"], Xs, at)], len(Xs[0]), c["opt"])
    return {"nt": nt, "tags": [c["fam"]] + sorted(tags)}


# ------------------------------------------------------------------ row order, default row limit
@st.composite
def g_rows(draw):
    return {"fam": draw(st.sampled_from(["gauss", "pois"])), "n": draw(st.integers(60, 120)), "nk": draw(st.integers(5, 9)), "lam": draw(st.floats(-2, 3)), "seed": draw(SEED),
            "k": draw(st.integers(1, 6))}


def small_model(c, X, y):
    import pandas as pd
    from mssm.models import GAMM, Gaussian, Poisson
    from mssm.src.python.formula import Formula, lhs
    from mssm.src.python.terms import i, f
    from mssm.src.python.formula import build_penalties
    F = quiet(Formula, lhs("y"), [i(), f(["x"], nk=c["nk"])], data=pd.DataFrame({"x": X, "y": y}), print_warn=False)
    m = GAMM(F, Gaussian() if c["fam"] == "gauss" else Poisson())
    m.overall_penalties = build_penalties(F)
    for q in m.overall_penalties:
        q.lam = float(10 ** c["lam"])
        q.frozen = True
    quiet(m.fit, progress_bar=False, restart=True, n_cores=1)
    return m


def c_rows(c):
    from mssm.src.python.utils import approx_smooth_p_values
    r = np.random.default_rng(c["seed"])
    x = r.uniform(0, 1, c["n"])
    x[:2] = 0, 1
    eta = 0.15 * np.sin(6 * x) + 0.1 * x
    y = eta + 0.4 * r.normal(size=c["n"]) if c["fam"] == "gauss" else r.poisson(np.exp(1 + eta)).astype(float)
    m = small_model(c, x, y)
    p0, T0 = quiet(approx_smooth_p_values, m)
    for k in range(c["k"]):
        o = r.permutation(c["n"])
        m2 = small_model(c, x[o], y[o])
        p, T = quiet(approx_smooth_p_values, m2)
        ok(abs(p[0] - p0[0]) <= 1e-4 and abs(T[0] - T0[0]) <= 1e-4 * abs(T0[0]) + 1e-6, "the same data in another order: p-value %r (statistic %r), before %r (%r)" % (p[0], T[0], p0[0], T0[0]))
    return {"nt": 1e-3 < p0[0] < 0.999}


def c_large(c):
    from mssm.src.python.utils import approx_smooth_p_values
    r = np.random.default_rng(c["seed"])
    n = 100001 + c["n"]
    x = r.uniform(0, 1, n)
    y = 0.003 * np.sin(6 * x) + 0.4 * r.normal(size=n) if c["fam"] == "gauss" else r.poisson(np.exp(1 + 0.003 * x)).astype(float)
    m = small_model(c, x, y)
    p, T = quiet(approx_smooth_p_values, m)
    ok(len(p) == 1 and 0 <= p[0] <= 1, "p-value %r" % p)
    p2, T2 = quiet(approx_smooth_p_values, m, n_sel=n)
    ok(abs(T[0] - T2[0]) <= 0.05 * abs(T2[0]) + 0.05, "statistic from 100000 rows %r, from all %d rows %r" % (T[0], n, T2[0]))
    return {"nt": True}


SUBS = [
    Sub("gamm", g_gamm(), c_gamm, 200, 5000),
    Sub("ls", g_ls(), c_ls, 60, 1500),
    Sub("rows", g_rows(), c_rows, 60, 1500),
    Sub("large", g_rows(), c_large, 2, 30),
]
