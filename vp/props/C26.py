"""C26: results do not depend on the history of calls."""
import contextlib
import copy
import io
import warnings
import numpy as np
import pandas as pd
import scipy.sparse as sp
from hypothesis import strategies as st
from vp import fgen, mfit, mls, hgen
from vp.core import Sub, Skip
from vp.util import close, ok, dense, SEED

PROPERTY = "C26"
RULE = ("Cases: sequences of 3-7 public calls (fits with various options, prediction, differences, summaries, p-values, residuals, posterior draws, uncertainty correction, comparison, "
        "sampling, other models or formulas built from the same formula, term and data objects) on one generated GAMM, GAMMLSS or GSMM. Oracle: after each call, the model and the value "
        "returned equal those of fresh objects that saw only the last fit and this call; inputs are unchanged. HSMM families: sequences of likelihood, gradient, decoding, residual and simulation calls with several "
        "coefficient vectors against a fresh family. Non-trivial: at least three calls.")
ASSUME = ["fits with restart=True continue from the previous smoothing parameters by design and are not part of a history",
          "families that keep estimated parameters (scaled t) are not shared between fits here"]

READ = ["predict", "predict_new", "diff", "sample", "llk", "resid", "mmat", "summary", "param", "pvals", "correct", "compare", "nuts"]
BUILD = ["other_model", "same_terms", "same_formula_again"]


@st.composite
def case(draw):
    multi = draw(st.sampled_from([False, True, True]))
    if multi:
        c = draw(mls.mcase(["gau", "gau", "gam", "mul2", "mg1", "mg2", "cox", "w:gau", "w:gam"], n=(60, 110)))
    else:
        c = draw(mfit.tame(irf=True, n=(50, 100)))
        c["fam"] = draw(st.sampled_from(["gauss", "gauss", "gauss_log", "binom", "gamma", "pois"]))
    c["multi"] = multi
    n = draw(st.integers(3, 7))
    ops = []
    for j in range(n):
        k = draw(st.sampled_from(["fit"] * 3 + READ[:-1] * 1 + BUILD + (["nuts"] if draw(st.integers(0, 3)) == 0 else [])))
        ops.append([k, draw(st.integers(0, 7))])
    ops.insert(0, ["fit", draw(st.integers(0, 7))])
    c["ops"] = ops
    return c


def quiet(f, *a, **k):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()) as o, np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return f(*a, **k), o.getvalue()


class World:
    """Everything a user holds: data, terms, formulas, model."""

    def __init__(self, c):
        self.c = c
        self.df = mls.data(c) if c["multi"] else mfit.data(c)
        self.keep = self.df.copy(deep=True)
        self.off = np.random.default_rng(c["seed"] + 2).normal(size=(len(self.df), 1)) * 0.2
        self.off0 = self.off.copy()
        if c["multi"]:
            self.terms = None
            self.model, _ = mls.mk(c, self.df)
        else:
            self.model, _ = mfit.mk_gamm(c, self.df)
        self.forms = self.model.formulas
        self.new = fgen.frame(c, seed=c["seed"] + 77, n=14, na=0, fresh=False)
        for v in ("fA", "fB", "g", "fN", "s", "fC"):
            if v in self.df:
                u = [q for q in pd.unique(self.df[v]) if isinstance(q, str)]
                self.new[v] = np.random.default_rng(c["seed"] + 3).choice(np.array(u, dtype=object), size=len(self.new)) if u else self.new[v]
        for v in ("x0", "x1", "x2", "w"):
            if v in self.df:
                self.new[v] = np.clip(self.new[v], np.nanmin(self.df[v]), np.nanmax(self.df[v]))
        self.new0 = self.new.copy(deep=True)

    def fit(self, k):
        c, m = self.c, self.model
        o = {"progress_bar": False, "n_cores": 1, "max_outer": 8, "max_inner": 20}
        if c["multi"]:
            o.update([{}, {"repara": False}, {"method": "Chol"}, {"control_lambda": 1}, {"max_outer": 3}, {"extend_lambda": True}, {"should_keep_drop": False}, {"max_inner": 3}][k])
            if k == 5 and c["fam"] in ("cox", "mg1") and mls.ncol(c) > 3:
                o = {"progress_bar": False, "n_cores": 1, "max_outer": 4, "max_inner": 20, "method": "qEFS"}
        else:
            o.update([{}, {"rho": 0.4}, {"offset": self.off if c["seed"] % 2 else 0.3}, {"method": "QR"}, {"max_outer": 2}, {"max_inner": 2}, {"transform_X": scaled}, {"control_lambda": 1, "extend_lambda": True}][k])
            if k == 1 and "irf" in [t["t"] for t in c["terms"]]:
                o.pop("rho")
        r, _ = quiet(m.fit, **o)

    def do(self, op, k):
        """Return a comparable value."""
        from mssm.src.python import utils as U
        from mssm.src.python.compare import compare_CDL
        c, m = self.c, self.model
        par = {"par": k % len(m.formulas)} if c["multi"] else {}
        if op == "fit":
            self.fit(k)
            return None
        if op == "predict":
            return quiet(m.predict, None, self.df.iloc[:9].dropna() if k % 2 else self.df.iloc[3:11].dropna().reset_index(drop=True), ci=True, alpha=0.1, **par)[0]
        if op == "predict_new":
            use = [0] if k % 2 else None
            return quiet(m.predict, use, self.new, ci=True, whole_interval=bool(k % 3 == 0), n_ps=50, seed=3, **par)[0]
        if op == "diff":
            return quiet(m.predict_diff, self.new.iloc[:7].reset_index(drop=True), self.new.iloc[7:].reset_index(drop=True), None, **par)[0]
        if op == "sample":
            return quiet(m.sample_post, 5, seed=k, deviations=bool(k % 2), **par)[0]
        if op == "llk":
            return [quiet(m.get_llk, True)[0], quiet(m.get_llk, False)[0], quiet(m.get_reml)[0]]
        if op == "resid":
            return quiet(m.get_resid)[0]
        if op == "mmat":
            return quiet(m.get_mmat, **({"par": par["par"]} if par else {}))[0]
        if op == "summary":
            return quiet(m.print_smooth_terms, p_values=bool(k % 2))[1]
        if op == "param":
            return quiet(m.print_parametric_terms)[1]
        if op == "pvals":
            return quiet(U.approx_smooth_p_values, m, edf1=bool(k % 2), **par)[0]
        if op == "correct":
            if len(m.overall_penalties) > 4 or len(m.coef) > 25:
                return None
            return [x for x in quiet(U.correct_VB, m, grid_type="JJJ1" if k % 2 else "JJJ2", nR=6, n_c=1, seed=2)[0] if isinstance(x, (float, np.ndarray, sp.sparray))]
        if op == "compare":
            if len(m.overall_penalties) > 4 or len(m.coef) > 25:
                return None
            w = World(c)
            w.fit(0)
            return quiet(compare_CDL, m, w.model, correct_V=False)[0]
        if op == "nuts":
            from mssm.src.python.mcmc import sample_mssm
            if len(m.coef) > 12:
                return None
            return quiet(sample_mssm, m, progress_bar=False, auto_converge=False, M_adapt=4, parallelize_chains=False, n_chains=1, n_iter=5, sample_rho=bool(k % 2))[0]
        if op == "other_model":
            # another model of the same formula objects
            from mssm.models import GAMM
            if c["multi"]:
                other = type(m)(m.formulas, mls.family(c["fam"], self.df))
                quiet(other.fit, progress_bar=False, n_cores=1, max_outer=2, max_inner=20)
            else:
                other = GAMM(m.formulas[0], mfit.family(c["fam"], c))
                quiet(other.fit, progress_bar=False, n_cores=1, max_outer=2, max_inner=20)
            return state(other)
        if op == "same_terms":
            # another formula from the same term objects and other data
            F = m.formulas[k % len(m.formulas)]
            d2 = self.df.dropna().iloc[: max(20, int(len(self.df) * 0.7))].reset_index(drop=True).copy()
            for v in ("x0", "x1", "x2"):
                d2[v] = d2[v] * 0.5
            from mssm.src.python.formula import Formula, build_penalties
            src = self.src_terms(F)
            G = quiet(Formula, copy.copy(F.lhs), src, data=d2, print_warn=False, series_id=F.series_id)[0]
            build_penalties(G)
            return [G.n_coef, list(G.coef_names)]
        if op == "same_formula_again":
            F = m.formulas[k % len(m.formulas)]
            from mssm.src.python.formula import Formula, build_penalties
            G = quiet(Formula, F.lhs, self.src_terms(F), data=self.df, print_warn=False, series_id=F.series_id)[0]
            P = build_penalties(G)
            from mssm.models import GAMM
            from mssm.src.python.exp_fam import Gaussian
            return [G.n_coef, list(G.coef_names), quiet(GAMM(G, Gaussian()).get_mmat)[0], [dense(q.S_J) for q in P]]
        raise AssertionError(op)

    def src_terms(self, F):
        """The term objects the user passed to the formula (remembered when the formula was built)."""
        return self.forms_terms[id(F)]


def scaled(X):
    return X * 1.5


def state(m):
    """What the fitted model is."""
    out = {k: getattr(m, k, None) for k in ("coef", "edf", "term_edf", "scale", "penalty", "preds", "mus", "res", "hessian", "coef_split_idx", "rho", "offset", "edf1", "term_edf1")}
    out["lam"] = [q.lam for q in m.overall_penalties]
    out["cov"] = None if m.lvi is None else m.lvi.T @ m.lvi
    out["linop"] = getattr(m, "lvi_linop", None) is None
    out["tX"] = getattr(m, "transform_X", None)
    out["iter"] = m.info.iter
    out["code"] = m.info.code
    out["dropped"] = m.info.dropped
    out["n_coef"] = [f.n_coef for f in m.formulas]
    out["names"] = [list(f.coef_names) for f in m.formulas]
    return out


def same(a, b, what, tol=1e-9):
    if isinstance(a, dict):
        ok(isinstance(b, dict) and set(a) == set(b), what + ": entries %r, %r from fresh objects" % (a, b))
        for k in a:
            same(a[k], b[k], "%s, %s" % (what, k), tol)
        return
    if isinstance(a, (list, tuple)):
        ok(isinstance(b, (list, tuple)) and len(a) == len(b), what + ": %r, from fresh objects %r" % (a, b))
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, "%s[%d]" % (what, i), tol)
        return
    if sp.issparse(a) or sp.issparse(b):
        ok(sp.issparse(a) and sp.issparse(b), what + ": %s, from fresh objects %s" % (type(a), type(b)))
        a, b = dense(a), dense(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        ok(isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape, what + ": %r, from fresh objects %r" % (np.shape(a), np.shape(b)))
        if a.dtype == object:
            ok(str(a) == str(b), what)
            return
        if a.size:
            f = np.isfinite(b)
            ok(np.array_equal(np.isfinite(a), f), what + ": other entries are finite")
            if np.any(f):
                close(np.where(f, a, 0), np.where(f, b, 0), tol, tol * np.abs(b[f]).max(), what + " (fresh objects)")
        return
    if isinstance(a, (int, float, np.floating, np.integer)) and not isinstance(a, bool) and isinstance(b, (int, float, np.floating, np.integer)):
        if np.isfinite(float(b)):
            close(float(a), float(b), tol, tol, what + " (fresh objects)")
        else:
            ok(str(float(a)) == str(float(b)), what + ": %r, from fresh objects %r" % (a, b))
        return
    if a is None or b is None or isinstance(a, (str, bool)) or callable(a):
        ok(a is b or a == b, "%s: %s, from fresh objects %s" % (what, str(a)[-900:], str(b)[-900:]))
        return
    ok(type(a) is type(b), what + ": %r, from fresh objects %r" % (a, b))


def outcome(w, op, k):
    try:
        return ("value", w.do(op, k))
    except Exception as e:
        return ("raised", type(e).__name__)


def traced(c):
    """A World whose formulas remember the term objects they were given."""
    from mssm.src.python import formula as FM
    seen = {}
    init = FM.Formula.__init__

    def spy(self, lhs, terms, *a, **k):
        seen[id(self)] = terms
        init(self, lhs, terms, *a, **k)
    FM.Formula.__init__ = spy
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w = World(c)
    finally:
        FM.Formula.__init__ = init
    w.forms_terms = seen
    return w


def show(t):
    return repr(sorted((k, str(v)) for k, v in vars(t).items()))


def check(c):
    if c["multi"]:
        if mls.ncol(c) > 40:
            raise Skip("too many columns")
    elif not mfit.capped(c, 40):
        raise Skip("too many columns")
    w = traced(c)
    last = None
    done = []
    for op, k in c["ops"]:
        if op == "fit":
            last = k
        a = outcome(w, op, k)
        f = traced(c)
        fr = outcome(f, "fit", last)
        if fr[0] == "raised":
            ok(a[0] == "raised" or op != "fit", "fit works after %r but not on fresh objects" % (done,))
            return {"nt": False, "tags": ["fit raises"]}
        b = outcome(f, op, k) if op != "fit" else fr
        done.append("%s/%d" % (op, k))
        what = "after " + " ".join(done)
        ok(a[0] == b[0], "%s: %r, on fresh objects %r" % (what, a[0] if a[0] == "value" else a, b[0] if b[0] == "value" else b))
        same(a[1], b[1], what + ": result of " + op)
        sa, sb = state(w.model), state(f.model)
        for q in ("edf1", "term_edf1"):  # cached by p-values
            if sb[q] is None and op != "fit":
                sa.pop(q), sb.pop(q)
        same(sa, sb, what + ": model")
        ok(w.df.equals(w.keep) and list(w.df.columns) == list(w.keep.columns) and w.df.index.equals(w.keep.index), what + ": data frame was modified")
        ok(w.new.equals(w.new0), what + ": data frame with new data was modified")
        ok(np.array_equal(w.off, w.off0), what + ": offset was modified")
    return {"nt": len(done) >= 3, "tags": sorted({d.split("/")[0] for d in done}) + [c["fam"]]}


# ------------------------------------------------------------------ HSMM families
@st.composite
def hhist(draw):
    c = draw(hgen.hcase(maxlen=6))
    c["calls"] = [[draw(st.sampled_from(["llk", "grad", "decode", "viterbi", "resid", "predict"])), draw(st.integers(0, 2))] for _ in range(draw(st.integers(3, 6)))]
    return c


def hcall(h, kind, j):
    r = np.random.default_rng(h.c["seed"] + 100 + j)
    coef = h.coef + (r.normal(size=h.coef.shape) * 0.2 if j else 0)
    a = list(h.args)
    a[0] = coef
    try:
        if kind == "llk":
            v = h.fam.llk(*a)
        elif kind == "grad":
            v = h.fam.gradient(*a)
        elif kind in ("decode", "viterbi"):
            v = h.fam.decode_viterbi(*a) if kind == "viterbi" else h.fam.sample_posterior_states(*a, 3)
        elif kind == "resid":
            v = h.fam.get_resid(*a)
        else:
            v = h.fam.predict(*a)
        return ("value", v)
    except Exception as e:
        return ("raised", type(e).__name__)


def hsmm(c):
    h = hgen.H(c)
    keep = [None if y is None else y.copy() for y in h.ys], [None if X is None else X.copy() for X in h.Xs], h.coef.copy()
    done = []
    for kind, j in c["calls"]:
        a = hcall(h, kind, j)
        b = hcall(hgen.H(c), kind, j)
        done.append("%s/%d" % (kind, j))
        ok(a[0] == b[0], "after %s: %s, on a fresh family %s" % (" ".join(done), a, b))
        same(a[1], b[1], "after " + " ".join(done), 1e-12)
        for x, y in zip(h.ys, keep[0]):
            ok(x is y is None or np.array_equal(x, y, equal_nan=True), "after %s: responses were modified" % " ".join(done))
        for x, y in zip(h.Xs, keep[1]):
            ok(x is y is None or abs(x - y).sum() == 0, "after %s: model matrices were modified" % " ".join(done))
        ok(np.array_equal(h.coef, keep[2]), "coefficients were modified")
    return {"nt": len(done) >= 3, "tags": sorted({d.split("/")[0] for d in done})}


SUBS = [Sub("history", case(), check, 140, 3000), Sub("hsmm", hhist(), hsmm, 120, 4000)]
