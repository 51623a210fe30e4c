"""Generated data frames and formulas, and an independent dense reference for model matrix and penalties.

A case is plain JSON.  `frame(case)` makes the data frame, `mk_terms(case, ...)` the mssm terms, and `Ref` assembles the
documented model matrix and penalties from textbook definitions; the only things taken from the code under test are the
identifiability/reparameterisation maps (term.Z, term.RP[..].C, term.drop_coef), whose validity C06 decides on its own.
"""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vp.core import Skip
from vp.util import SEED

NUM = ["x0", "x1", "x2"]
LEV = {"fA": ["a", "b", "c", "d", "a10", "Z", "12", "9", "e e"], "fB": ["u", "v", "w", "10", "U"], "g": ["g1", "g2"]}

NLA, NLB = [2, 3, 3, 4, 4, 5, 6, 9], [2, 2, 3, 3, 5]


# ------------------------------------------------------------------ data
def frame(case, seed=None, n=None, na=None, fresh=False):
    """Data frame of a case; with fresh=True new rows inside the training ranges/levels (prediction data)."""
    r = np.random.default_rng(case["seed"] if seed is None else seed)
    n = case["n"] if n is None else n
    na = case.get("na", 0) if na is None else na
    nA, nB = case.get("nA", 3), case.get("nB", 2)
    d = {}
    d["x0"] = r.uniform(-1, 2, n)
    d["x1"] = 100 + 10 * r.normal(size=n)
    d["x2"] = r.integers(0, case.get("kx2", 25), n)
    if case.get("grid") and not fresh:
        # covariates symmetric around their midpoint, as on an experimental time grid
        h = np.linspace(-1, 0.5, n // 2 + 1)[:-1]
        d["x0"] = r.permutation(np.concatenate([h, 1 - h, np.full(n - 2 * len(h), 0.5)]))
        k = case.get("kx2", 25)
        q = np.arange(n // 2) % k
        d["x2"] = r.permutation(np.concatenate([q, k - 1 - q, np.full(n - 2 * len(q), (k - 1) // 2)]))
    if fresh:
        d["x1"] = np.clip(d["x1"], 95, 105)
        d["x0"] = np.clip(d["x0"], -0.8, 1.8)
        d["x2"] = np.clip(d["x2"], 1, case.get("kx2", 25) - 2)
    d["w"] = r.normal(size=n)

    def fac(name, k):
        lv = np.array(LEV[name][:k], dtype=object)
        v = lv[r.integers(0, k, n)]
        if not fresh:
            v[:2 * k] = np.repeat(lv, 2)[: n] if n >= 2 * k else v[:2 * k]
        return v
    d["fA"] = fac("fA", nA)
    d["fB"] = fac("fB", nB)
    d["g"] = fac("g", 2)
    d["fN"] = np.array([a + "_" + b for a, b in zip(d["fB"], d["g"])], dtype=object)
    # series: consecutive blocks with own time axis
    ns = case.get("series", 3)
    cut = np.sort(r.choice(np.arange(1, n), size=min(ns - 1, n - 1), replace=False)) if ns > 1 and n > 1 else np.array([], int)
    lens = np.diff(np.concatenate([[0], cut, [n]]))
    d["s"] = np.repeat(np.array(["s%02d" % k for k in r.permutation(len(lens))], dtype=object), lens)
    d["t"] = np.concatenate([np.arange(k) for k in lens]).astype(np.int64)
    sl = np.array(LEV["fB"][:nB], dtype=object)[r.integers(0, nB, len(lens))]
    if len(lens) >= nB and not fresh:
        sl[:nB] = LEV["fB"][:nB]
    d["fC"] = np.repeat(sl, lens)
    d["y"] = r.normal(size=n)
    df = pd.DataFrame(d)
    if case.get("shuffle_cols"):
        df = df[list(df.columns[r.permutation(len(df.columns))])]
    if na:
        for c in case.get("na_cols", ["y"]):
            m = r.random(n) < na
            m[: 2 * max(nA, nB)] = False
            if c == "x2":
                df[c] = df[c].astype(float)
            df.loc[m, c] = np.nan
    if case.get("index"):
        df.index = r.permutation(n) + 7
    return df


def onsets(case, df):
    _, first = np.unique(df["s"], return_index=True)
    first = np.sort(first)
    lens = np.diff(np.concatenate([first, [len(df)]]))
    r = np.random.default_rng(case["seed"] + 1)
    return [int(r.integers(0, max(1, k))) for k in lens]


# ------------------------------------------------------------------ term generator
@st.composite
def smooth1(draw, by=True):
    d = {"t": "f", "v": [draw(st.sampled_from(NUM))], "nk": draw(st.integers(4, 9)),
         "con": draw(st.sampled_from(["QR", "QR", "QR", "DROP", "DIFF"])),
         "m": [draw(st.sampled_from([0, 1, 2, 2, 3]))], "rp": draw(st.sampled_from([0, 0, 0, 1])),
         "null": draw(st.sampled_from([False, False, True])),
         "deg": draw(st.sampled_from([3, 3, 3, 2]))}
    if d["con"] == "DIFF" and d["m"][0] == 0:
        d["m"] = [1]
    if d["m"][0] == 0:
        d["null"] = False
    if by:
        k = draw(st.sampled_from(["no", "no", "by", "cont", "binary", "by+id", "by+cont"]))
        if "by" in k.split("+"):
            d["by"] = draw(st.sampled_from(["fA", "fB"]))
        if "cont" in k:
            d["by_cont"] = "w"
            d["ident"] = draw(st.booleans())
        if "id" in k:
            d["id"] = 1
        if k == "binary":
            d["binary"] = ["fB", draw(st.sampled_from(LEV["fB"][:2]))]
            d["con"] = "QR"
            if draw(st.booleans()):
                d["by_cont"] = "w"
        if k == "no" and draw(st.integers(0, 4)) == 0:
            d["ident"] = False
            d["con"] = "QR"
        if k == "no" and draw(st.integers(0, 5)) == 0 and d["rp"] == 0 and not d["null"]:
            d["m"] = [1, 2]
    if d["rp"] and len(d["m"]) > 1:
        d["rp"] = 0
    return d


@st.composite
def tensor(draw, by=True):
    k = draw(st.sampled_from([2, 2, 2, 3]))
    vs = draw(st.permutations(NUM))[:k]
    te = draw(st.booleans())
    d = {"t": "f", "v": list(vs), "te": te,
         "nk": [draw(st.integers(4, 5)) for _ in vs] if k == 2 else [4] * 3,
         "con": draw(st.sampled_from(["QR", "QR", "DROP", "DIFF"])), "m": [draw(st.sampled_from([1, 2]))],
         "rp": draw(st.sampled_from([0, 2])), "scale_te": draw(st.booleans()),
         "null": draw(st.sampled_from([False, False, True])), "deg": draw(st.sampled_from([3, 2]))}
    if te and d["con"] == "DIFF" and d["rp"]:
        d["con"] = "DROP"  # documented as unsupported
    if by:
        q = draw(st.sampled_from(["no", "no", "no", "by", "by+id", "cont", "by+cont", "binary"]))
        if q == "binary":
            d["binary"] = ["fB", draw(st.sampled_from(LEV["fB"][:2]))]
            d["con"] = "QR"
        if "by" in q:
            d["by"] = "fB"
        if "id" in q:
            d["id"] = 5
        if "cont" in q:
            d["by_cont"] = "w"
    if draw(st.integers(0, 5)) == 0:
        d["ident"] = False
        d["con"] = "QR"
    return d


@st.composite
def fsmooth(draw):
    d = {"t": "fs", "v": [draw(st.sampled_from(NUM))], "rf": draw(st.sampled_from(["fA", "fB"])), "nk": draw(st.integers(4, 7)),
         "m": draw(st.sampled_from([1, 1, 2])), "rp": draw(st.sampled_from([1, 1, 0]))}
    if draw(st.integers(0, 3)) == 0:
        d["by_cont"] = "w"
    if draw(st.integers(0, 3)) == 0:
        d["sub"] = ["g", draw(st.sampled_from(LEV["g"]))]
        d["rf"] = "fN"
    return d


@st.composite
def linear(draw):
    v = draw(st.lists(st.sampled_from(["x0", "x1", "x2", "w", "fA", "fB"]), min_size=1, max_size=3, unique=True))
    return {"t": "l", "v": v}


@st.composite
def rslope(draw):
    v = draw(st.lists(st.sampled_from(["x0", "x1", "w", "fA"]), min_size=1, max_size=2, unique=True))
    d = {"t": "rs", "v": v, "by": draw(st.sampled_from([None, "fB", "fA"]))}
    if d["by"] == "fA" and "fA" in v:
        d["by"] = "fB"
    return d


RI = st.sampled_from(["fA", "fB"]).map(lambda v: {"t": "ri", "v": [v]})


@st.composite
def irfterm(draw):
    two = draw(st.integers(0, 3)) == 0
    v, nk = (["t", "x0"], [draw(st.integers(5, 6)), 4]) if two else (["t"], draw(st.integers(5, 9)))
    if two and draw(st.booleans()):  # the event-locked marginal need not come first
        v, nk = v[::-1], nk[::-1]
    d = {"t": "irf", "v": v, "nk": nk,
         "by": draw(st.sampled_from([None, None, "fC"])), "id": draw(st.sampled_from([None, 13 if two else 3])),
         "maxc": draw(st.integers(5, 40)), "m": draw(st.sampled_from([1, 2])), "pen": draw(st.sampled_from([True, True, False]))}
    return d


def ncols(case):
    """Upper bound on the number of columns of the model matrix (data sets get more rows than that)."""
    nl = {"fA": case["nA"], "fB": case["nB"], "fC": case["nB"], "g": 2, "fN": 2 * case["nB"]}
    tot = 0
    for t in case["terms"]:
        k = 1
        if t["t"] in ("f", "fs", "irf"):
            k = int(np.prod(np.array(t["nk"]) + (1 if t.get("binary") else 0))) + (1 if t["t"] == "fs" else 0)
        for v in list(t.get("v", [])) + [t.get("by"), t.get("rf")]:
            k *= nl.get(v, 1)
        tot += k
    return tot


@st.composite
def formula(draw, irf=True, n=(60, 160), maxt=3, na=True, intercept=None):
    has_i = draw(st.booleans()) if intercept is None else intercept
    terms = [{"t": "i"}] if has_i else []
    pool = [linear(), linear(), smooth1(), smooth1(), smooth1(), tensor(), fsmooth(), rslope(), RI]
    if irf:
        pool.append(irfterm())
    for _ in range(draw(st.integers(1, maxt))):
        terms.append(draw(draw(st.sampled_from(pool))))
    terms = list(draw(st.permutations(terms)))
    if sum(t["t"] == "fs" for t in terms) > 1:
        terms = [t for k, t in enumerate(terms) if t["t"] != "fs" or k == max(i for i, u in enumerate(terms) if u["t"] == "fs")]
    seen = set()  # the same tensor smooth twice would leave nothing of the second
    for t in list(terms):
        if t["t"] == "f" and len(t["v"]) > 1:
            k = tuple(sorted(t["v"]))
            if k in seen:
                terms.remove(t)
            seen.add(k)
    c = {"n": draw(st.integers(*n)), "seed": draw(SEED), "nA": draw(st.sampled_from(NLA)), "nB": draw(st.sampled_from(NLB)),
         "series": draw(st.integers(1, 5)), "index": draw(st.booleans()), "terms": terms,
         "na": draw(st.sampled_from([0, 0, 0.1])) if na else 0,
         "na_cols": draw(st.lists(st.sampled_from(["y", "x0", "x1", "w", "fA", "fB"]), min_size=1, max_size=3, unique=True)),
         "grid": draw(st.sampled_from([False, False, True])),
         "book": draw(st.sampled_from([None, None, "rev"])), "sid": draw(st.booleans())}
    c["n"] = max(c["n"], int(1.4 * ncols(c)) + 25)
    if any(t["t"] == "irf" for t in terms):
        # unpenalised impulse responses have to precede every penalised term
        irs = sorted([t for t in terms if t["t"] == "irf"], key=lambda t: t["pen"])
        it = iter(irs)
        c["terms"] = [t if t["t"] != "irf" else next(it) for t in terms]
        c["sid"] = True
        if c["nB"] > c["series"]:
            c["series"] = c["nB"]
    return c


def mk_terms(case, df):
    from mssm.src.python.terms import i, l, f, fs, irf, ri, rs
    from mssm.src.python.custom_types import ConstType
    from mssm.src.python.penalties import DifferencePenalty
    CT = {"QR": ConstType.QR, "DROP": ConstType.DROP, "DIFF": ConstType.DIFF}
    out = []
    for t in case["terms"]:
        k = t["t"]
        if k == "i":
            out.append(i())
        elif k == "l":
            out.append(l(list(t["v"])))
        elif k == "f":
            kw = dict(by=t.get("by"), by_cont=t.get("by_cont"), id=t.get("id"), te=t.get("te", False), rp=t["rp"],
                      constraint=CT[t["con"]], identifiable=t.get("ident", True), scale_te=t.get("scale_te", True),
                      penalize_null=t["null"], is_penalized=t.get("pen", True),
                      nk=list(t["nk"]) if isinstance(t["nk"], list) else t["nk"],
                      penalty=[DifferencePenalty() for _ in t["m"]], pen_kwargs=[{"m": m} for m in t["m"]])
            if t.get("binary"):
                kw["binary"] = tuple(t["binary"])
            if t.get("deg", 3) != 3:
                kw["basis_kwargs"] = {"deg": t["deg"]}
            out.append(f(list(t["v"]), **kw))
        elif k == "fs":
            out.append(fs(list(t["v"]), rf=t["rf"], nk=t["nk"], m=t["m"], rp=t["rp"], by_cont=t.get("by_cont"),
                          by_subgroup=tuple(t["sub"]) if t.get("sub") else None))
        elif k == "irf":
            bk = [{"min_c": 0, "max_c": t["maxc"], "convolve": True} if v == "t" else {} for v in t["v"]]
            out.append(irf(list(t["v"]), event_onset=onsets(case, df), basis_kwargs=bk, by=t["by"], id=t["id"],
                           nk=list(t["nk"]) if isinstance(t["nk"], list) else t["nk"], is_penalized=t["pen"],
                           penalty=[DifferencePenalty()], pen_kwargs=[{"m": t["m"]}]))
        elif k == "ri":
            out.append(ri(t["v"][0], **({"id": t["id"]} if t.get("id") else {})))
        elif k == "rs":
            out.append(rs(list(t["v"]), by=t["by"], **({"id": t["id"]} if t.get("id") else {})))
    return out


def codebook(case):
    if case.get("book") != "rev":
        return None
    nA, nB = case.get("nA", 3), case.get("nB", 2)
    return {"fA": {v: nA - 1 - k for k, v in enumerate(LEV["fA"][:nA])}, "fB": {v: nB - 1 - k for k, v in enumerate(LEV["fB"][:nB])}}


def mk_formula(case, df=None, yname="y", terms=None, **kw):
    import warnings
    from mssm.src.python.formula import Formula, lhs
    if df is None:
        df = frame(case)
    R = Ref(case, df, None)
    if any(R.illcond(i) for i in range(len(case["terms"]))):
        raise Skip("near-singular basis for a Demmler-Reinsch term")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Formula(lhs(yname), mk_terms(case, df) if terms is None else terms, data=df, series_id="s" if case.get("sid") else None,
                       codebook=codebook(case), print_warn=False, **kw)


# ------------------------------------------------------------------ reference pieces
def bspline(x, lo, hi, nk, deg=3, convolve=False):
    """Uniform B-spline basis by the Cox-de Boor recursion."""
    x = np.asarray(x, float)
    nd = nk - deg
    if convolve:
        kn = np.linspace(lo, hi, nd + 1 + 2 * deg)
    else:
        dx = (hi - lo) / nd
        kn = lo + dx * np.arange(-deg, nd + deg + 1)
    B = np.array([(x > kn[i]) & (x <= kn[i + 1]) for i in range(len(kn) - 1)]).astype(float)
    for p in range(1, deg + 1):
        N = np.zeros((len(kn) - 1 - p, len(x)))
        for i in range(len(kn) - 1 - p):
            N[i] = (x - kn[i]) / (kn[i + p] - kn[i]) * B[i] + (kn[i + p + 1] - x) / (kn[i + p + 1] - kn[i + 1]) * B[i + 1]
        B = N
    return B.T


def rowkron(A, B):
    return (A[:, :, None] * B[:, None, :]).reshape(A.shape[0], -1)


def diffpen(k, m):
    D = np.eye(k)
    for _ in range(m):
        D = D[1:] - D[:-1]
    return D.T @ D


def cmap(Z, k):
    """k x (k-1) matrix of an identifiability constraint."""
    from mssm.src.python.custom_types import ConstType
    if Z.type == ConstType.QR:
        return np.asarray(Z.Z)
    j = int(Z.Z)
    if Z.type == ConstType.DROP:
        return np.delete(np.eye(k), j, axis=1)
    # DIFF: rotate so that column j comes first, difference neighbours, rotate back
    E = np.eye(k)
    R = np.concatenate([E[:, j:], E[:, :j]], axis=1)
    R = R[:, 1:] - R[:, :-1]
    return np.concatenate([R[:, R.shape[1] - j:], R[:, :R.shape[1] - j]], axis=1)


class Ref:
    """Reference for one formula.  levels: code -> level per factor; stats: training ranges."""

    def __init__(self, case, train, terms):
        self.case, self.train, self.terms = case, train, terms
        book = codebook(case) or {}
        self.levels = {}
        for c in ["fA", "fB", "fC", "g", "fN"]:
            lv = sorted(set(v for v in train[c] if isinstance(v, str)))
            if c in book:
                lv = sorted(lv, key=lambda v: book[c][v])
            self.levels[c] = lv
        self.rng = {c: (np.nanmin(train[c].astype(float)), np.nanmax(train[c].astype(float))) for c in NUM + ["w", "t"]}
        used = set(["y"])
        for t in case["terms"]:
            used |= set(t.get("v", []))
            for k in ("by", "by_cont", "rf"):
                if t.get(k):
                    used.add(t[k])
            if t.get("binary"):
                used.add(t["binary"][0])
            if t.get("sub"):
                used.add(t["sub"][0])
        self.used = used
        self.keep = ~train[sorted(used)].isna().any(axis=1).values

    def order(self):
        T = [t["t"] for t in self.case["terms"]]
        return ([k for k, t in enumerate(T) if t in ("i", "l")] + [k for k, t in enumerate(T) if t == "irf"]
                + [k for k, t in enumerate(T) if t in ("f", "fs")] + [k for k, t in enumerate(T) if t in ("ri", "rs")])

    def ind(self, df, c):
        """n x levels indicator matrix."""
        v = df[c].values
        return np.array([[1.0 if a == b else 0.0 for b in self.levels[c]] for a in v]).reshape(len(v), len(self.levels[c]))

    def linblocks(self, vs, df, treat):
        cols, names = [np.ones(len(df))], [""]
        for v in vs:
            if v in self.levels:
                I = self.ind(df, v)
                lv = self.levels[v]
                s = 1 if treat else 0
                cols, names = ([c * I[:, k] for c in cols for k in range(s, len(lv))],
                               [nm + ("_" if nm else "") + v + "_" + lv[k] for nm in names for k in range(s, len(lv))])
            else:
                x = df[v].values.astype(float)
                cols, names = [c * x for c in cols], [nm + ("_" if nm else "") + v for nm in names]
        return np.array(cols).T.reshape(len(df), len(cols)), names

    def smooth_raw(self, t, df):
        nk = t["nk"] if isinstance(t["nk"], list) else [t["nk"]]
        out = []
        ident = self.identifiable(t)
        for v, k in zip(t["v"], nk):
            if t["t"] == "fs":
                k = k + 1
            elif ident and not t.get("te"):
                k = k + 1
            elif t.get("binary") and not t.get("te") and t.get("ident", True):
                k = k + 1
            lo, hi = self.rng[v]
            out.append(bspline(df[v].values.astype(float), lo, hi, k, t.get("deg", 3)))
        return out

    @staticmethod
    def identifiable(t):
        return t["t"] == "f" and t.get("ident", True) and not t.get("binary")

    def maps(self, ti):
        """Per-margin maps raw coef <- margin coef, and the te constraint map (or None)."""
        t, term = self.case["terms"][ti], self.terms[ti]
        ks = [b.shape[1] for b in self.smooth_raw(t, self.train.iloc[:1])]
        M = []
        for vi, k in enumerate(ks):
            m = np.eye(k)
            if self.identifiable(t) and not t.get("te"):
                m = m @ cmap(term.Z[vi], k)
            if t["rp"]:
                C = term.RP[vi].C
                m = m @ (C.toarray() if hasattr(C, "toarray") else np.asarray(C))
            M.append(m)
        te = None
        if self.identifiable(t) and t.get("te"):
            te = cmap(term.Z[0], int(np.prod([m.shape[1] for m in M])))
        return M, te

    def illcond(self, ti):
        """The Demmler-Reinsch map of this term comes from a numerically near-singular basis (no accuracy to be had)."""
        t = self.case["terms"][ti]
        if t.get("rp") != 1:
            return False
        B = self.smooth_raw(t, self.train)[0]
        sv = np.linalg.svd(B[self.keep], compute_uv=False)
        return bool(sv[-1] < 1e-3 * sv[0])

    def smooth_base(self, ti, df):
        """Columns of the smooth before by/binary/level handling."""
        t = self.case["terms"][ti]
        M, te = self.maps(ti)
        X = None
        for b, m in zip(self.smooth_raw(t, df), M):
            X = b @ m if X is None else rowkron(X, b @ m)
        if te is not None:
            X = X @ te
        if t.get("by_cont"):
            X = X * df[t["by_cont"]].values.astype(float)[:, None]
        return X

    def block(self, ti, df, treat=False, onset=None):
        t, term = self.case["terms"][ti], self.terms[ti]
        k = t["t"]
        n = len(df)
        if k == "i":
            return np.ones((n, 1)), ["Intercept"]
        if k == "l":
            return self.linblocks(t["v"], df, treat)
        if k == "ri":
            return self.ind(df, t["v"][0]), ["ri(%s_%s)" % (t["v"][0], lv) for lv in self.levels[t["v"][0]]]
        if k == "rs":
            L, nm = self.linblocks(t["v"], df, False)
            if t["by"] is None:
                return L, ["rs(%s)" % a for a in nm]
            I = self.ind(df, t["by"])
            return (np.concatenate([L * I[:, [j]] for j in range(I.shape[1])], axis=1),
                    ["rs(%s_%s)" % (a, lv) for lv in self.levels[t["by"]] for a in nm])
        if k in ("f", "fs"):
            X = self.smooth_base(ti, df)
            p = X.shape[1]
            lab = "_".join(t["v"]) + (t["binary"][0] if t.get("binary") else "")
            by = t.get("by") if k == "f" else t["rf"]
            if by:
                I = self.ind(df, by)
                lv = self.levels[by]
                if k == "fs" and t.get("sub"):
                    tr = self.train
                    lv = sorted(set(v for v in tr.loc[tr[t["sub"][0]] == t["sub"][1], by] if isinstance(v, str)))
                    I = np.array([[1.0 if a == b else 0.0 for b in lv] for a in df[by].values]).reshape(n, len(lv))
                X = np.concatenate([X * I[:, [j]] for j in range(I.shape[1])], axis=1)
                nm = ["f_%s_%d_%s" % (lab, q, a) for a in lv for q in range(p)]
            else:
                if t.get("binary"):
                    X = X * (df[t["binary"][0]].values == t["binary"][1]).astype(float)[:, None]
                nm = ["f_%s_%d" % (lab, q) for q in range(p)]
            if getattr(term, "drop_coef", None) is not None:
                keep = [q for q in range(X.shape[1]) if q not in set(int(z) for z in term.drop_coef)]
                X, nm = X[:, keep], [nm[q] for q in keep]
            return X, nm
        if k == "irf":
            nk = t["nk"] if isinstance(t["nk"], list) else [t["nk"]]
            on = onset if onset is not None else onsets(self.case, df)
            _, first = np.unique(df["s"].values.astype(str), return_index=True)
            first = np.sort(first)
            ends = np.append(first[1:], n)
            rows = []
            for a, b, o in zip(first, ends, on):
                T = None
                for v, q in zip(t["v"], nk):
                    if v == "t":
                        B = bspline(df["t"].values[a:b].astype(float), 0, t["maxc"], q, 3, convolve=True)
                        S = np.zeros_like(B)
                        if o < b - a:
                            S[o:] = B[:b - a - o]
                    else:
                        lo, hi = self.rng[v]
                        S = bspline(df[v].values[a:b], lo, hi, q, 3)
                    T = S if T is None else rowkron(T, S)
                rows.append(T)
            X = np.concatenate(rows, axis=0)
            lab = "_".join(t["v"])
            p = X.shape[1]
            if t["by"]:
                I = self.ind(df, t["by"])
                X = np.concatenate([X * I[:, [j]] for j in range(I.shape[1])], axis=1)
                return X, ["irf_%d_%s_%d_%s" % (ti, lab, q, a) for a in self.levels[t["by"]] for q in range(p)]
            return X, ["irf_%d_%s_%d" % (ti, lab, q) for q in range(p)]
        raise AssertionError(k)

    def matrix(self, df, onset=None):
        """(X, names, {term index: column indices})."""
        X, names, idx, at = [], [], {}, 0
        treat = any(t["t"] == "i" for t in self.case["terms"])
        for ti in self.order():
            b, nm = self.block(ti, df, treat, onset)
            t = self.case["terms"][ti]
            if t["t"] == "l" and not treat and any(v in self.levels for v in t["v"]):
                treat = True
            X.append(b)
            names += nm
            idx[ti] = np.arange(at, at + b.shape[1])
            at += b.shape[1]
        return np.concatenate(X, axis=1), names, idx

    # ---- penalties
    def term_pens(self, ti):
        """List of (matrix on one block of the smooth, replicated?) before level handling, in penalty order."""
        t = self.case["terms"][ti]
        M, te = self.maps(ti)
        ms = t["m"] if isinstance(t["m"], list) else [t["m"]]
        out = []
        if len(t["v"]) == 1:
            for m in ms:
                out.append(M[0].T @ diffpen(M[0].shape[0], m) @ M[0])
        else:
            for m in ms:
                for j in range(len(M)):
                    Sj = M[j].T @ diffpen(M[j].shape[0], m) @ M[j]
                    if t.get("scale_te", True) and t["t"] != "irf":
                        Sj = Sj / np.linalg.eigvalsh((Sj + Sj.T) / 2)[-1]
                    K = np.eye(1)
                    for q in range(len(M)):
                        K = np.kron(K, Sj if q == j else np.eye(M[q].shape[1]))
                    if te is not None:
                        K = te.T @ K @ te
                    out.append(K)
        return out
