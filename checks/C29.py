"""Tables and plots."""
import itertools

import numpy as np
import pandas as pd

from vf.lib import *

BOUNDS = ("1..4 parameters, every grouping of up to three (Sobol, Morris), every analyser that can tabulate with all real outputs (fixed designs and orders where the analyser sorts); HDMR tables from arbitrary "
          "values for every order up to 3; plots from arbitrary index values of 1..4 parameters in every relative order (bar charts, Morris bars and scatter, histograms, heat maps of every selection of indices)")
ASSUMPTIONS = ["plots are observed at the plotting interface (the data, labels and error bars handed to it), not as pixels",
               "HDMR tables are made from arbitrary results: the analysis itself is C27's and C28's business"]


def harnesses(tier):
    return [("sobol", {"rng_hash": True}), ("sobol_parallel", {"rng_hash": True}), ("ff", {}), ("simple", {"rng_hash": True}), ("rsa", {}), ("rsa_plot", {}), ("plain", {}), ("hdmr", {}), ("spec", {"rng_hash": True}),
            ("result_plots", {"rng_hash": True}), ("bars", {}), ("morris_plots", {}), ("histograms", {}), ("heat", {})]


def label(v):
    if isinstance(v, (tuple, list)):
        return tuple(str(x) for x in v)
    return str(v)


def same(c, df, cols, rows, what, cell):
    """The table has exactly these columns and rows, and every cell is the expected value."""
    have = [str(k) for k in df.columns if str(k) != "notes"]
    c.prove(sorted(have) == sorted(cols), what + ": columns")
    c.prove([label(v) for v in df.index] == [label(r) for r in rows], what + ": rows")
    if len(df.index) != len(rows) or sorted(have) != sorted(cols):
        return
    for k in cols:
        v = list(df[k])
        for i in range(len(rows)):
            w = cell(k, i)
            if w is not None:
                c.prove(c.eq(v[i], w), what + ": every value stands in the row of its own parameter")


def pairs(n):
    return [(j, k) for j in range(n) for k in range(j + 1, n)]


def sobol_result(c, D, g, second, parallel=False):
    p = problem(c, D, None, g)
    G = len(gnames(p))
    n = 1 if second and G > 2 else 2
    step = 2 * G + 2 if second else G + 2
    Y = c.reals("Y", n * step, -10, 10)
    c.assume(Y[0] - Y[step - 1] >= 0.1)
    kw = {"parallel": True, "n_processors": 2} if parallel else {}
    return p, c.w.analyze.sobol.analyze(p, Y.copy(), calc_second_order=second, num_resamples=2, seed=3, **kw)


def sobol_table(c, p, S, second):
    G, gn = len(gnames(p)), gnames(p)
    T = S.to_df()
    c.prove(len(T) == (3 if second else 2), "total, first and, where computed, second order tables")
    same(c, T[0], ["ST", "ST_conf"], gn, "total order", lambda k, i: S[k][i])
    same(c, T[1], ["S1", "S1_conf"], gn, "first order", lambda k, i: S[k][i])
    if second:
        q = pairs(G)
        same(c, T[2], ["S2", "S2_conf"], [(gn[j], gn[k]) for j, k in q], "second order", lambda k, i: S[k][q[i][0], q[i][1]])


def sobol(c):
    D = c.int("D", 1, 4)
    g = group_choice(c, D) if D < 4 else c.choose("groups", [None, ["gB", "gA", "gB", "gC"]])
    second = c.choose("second", [True, False])
    p, S = sobol_result(c, D, g, second)
    sobol_table(c, p, S, second)


def sobol_parallel(c):
    D = c.int("D", 1, 3)
    second = c.choose("second", [True, False])
    p, S = sobol_result(c, D, None, second, True)
    sobol_table(c, p, S, second)


def ff(c):
    D = c.int("D", 1, 4)
    second = c.choose("second", [True, False])
    p = problem(c, D, [[0.0, 1.0 + j] for j in range(D)])
    K = 1
    while K < D:
        K *= 2
    Y = c.reals("Y", 2 * K, -10, 10)
    X = c.w.sample.ff.sample(dict(p))
    S = c.w.analyze.ff.analyze(dict(p), X, Y.copy(), second_order=second, seed=1)
    m, e = S.to_df()
    nm = names(D) + ["dummy_%d" % i for i in range(K - D)]
    H = [[1.0 if float(X[i, j]) > 0.5 * (1.0 + j if j < D else 1.0) else -1.0 for j in range(K)] for i in range(2 * K)]
    dot = lambda w: sum([Y[i] * w[i] for i in range(1, 2 * K)], Y[0] * w[0]) / (2 * K)
    same(c, m, ["ME"], [str(v) for v in S["names"]], "main effects", lambda k, i: dot([r[i] for r in H]))
    c.prove([str(v) for v in m.index][:D] == names(D) and len(m.index) == K, "main effects are listed by the parameters' own names")
    if not second:
        c.prove(e is None, "no interactions unless asked for")
    elif K > 1:
        idx = [label(v) for v in e.index]
        nm = [str(v) for v in S["names"]]
        c.prove(sorted(tuple(sorted(nm.index(x) for x in v)) for v in idx) == pairs(K), "every pair of parameters once")
        v = list(e["IE"])
        for i, (a, b) in enumerate(idx):
            j, k = nm.index(a), nm.index(b)
            c.prove(c.near(v[i], dot([r[j] * r[k] for r in H]), tol=1e-9), "an interaction stands in the row of its own pair")


def simple(c):
    """Analysers with one row per parameter."""
    m = c.choose("analyser", ["morris", "dgsm", "fast", "rbd_fast", "delta", "pawn", "discrepancy"])
    D = c.int("D", 1, 3) if m not in ("fast", "delta") else 2
    g = None
    kw = {}
    if m == "morris":
        g = group_choice(c, D, single=True)
    elif m in ("pawn", "discrepancy"):
        g = group_choice(c, D)
    p = problem(c, D, [[-10.0, 10.0]] * D, g)
    f = getattr(c.w.analyze, m).analyze
    if m == "morris":
        G = len(gnames(p))
        U = np.zeros((2 * (G + 1), D))
        for t in range(2):
            for s in range(G):
                U[t * (G + 1) + s + 1] = U[t * (G + 1) + s]
                for j in members(p)[(s + t) % G]:
                    U[t * (G + 1) + s + 1, j] = 2 / 3
        X = c.np.array(U * 20 - 10)
        Y = c.reals("Y", 2 * (G + 1), -10, 10)
        for i in range(len(U) - 1):
            c.assume(Y[i + 1] - Y[i] >= 0)
        S, cols = f(p, X, Y, num_resamples=2, num_levels=4, seed=3), ["mu", "mu_star", "sigma", "mu_star_conf"]
    elif m == "dgsm":
        U = np.array([[0.1 + 0.2 * j + 0.3 * i for j in range(D)] for i in range(3)])
        R = []
        for r in U:
            R.append(r)
            for j in range(D):
                R.append(r.copy())
                R[-1][j] += 0.01
        Y = c.reals("Y", 3 * (D + 1), -10, 10)
        for i in range(3):
            for j in range(D):
                c.assume(Y[i * (D + 1) + j + 1] - Y[i * (D + 1)] >= 0.1)
        c.assume(Y[0] - Y[D + 1] >= 0.1)
        S, cols = f(p, c.np.array(np.array(R)), Y, num_resamples=2, seed=3), ["vi", "vi_std", "dgsm", "dgsm_conf"]
    elif m == "fast":
        Y = c.array(c.w_obj([np.float64(((i * 7919) % 101) / 101) for i in range(65 * D - 1)] + [c.real("y", 0, 1)]))
        S, cols = f(p, Y, M=4, num_resamples=2, seed=3), ["S1", "ST", "S1_conf", "ST_conf"]
    else:
        n = 20 if m == "rbd_fast" else 4
        X = columns(c, [increasing(c, "x%d" % j, [((2 * j + 1) * i + j) % n if n == 4 else (3 * i + j) % n for i in range(n)], gap=0.01, maxgap=0.1, lo=0.0, hi=0.5) for j in range(D)])
        Y = c.array(c.w_obj(increasing(c, "y", [(3 * i + 1) % n for i in range(n)])))
        if m == "rbd_fast":
            X = c.np.array([[((7 * i * (j + 1) + j) % 23) / 23 for j in range(D)] for i in range(n)])
            Y = c.array(c.w_obj([np.float64(((i * 7919) % 101) / 101) for i in range(n - 1)] + [c.real("y", 0, 1)]))
        kw, cols = {"rbd_fast": ({"num_resamples": 2, "seed": 3, "M": 3}, ["S1", "S1_conf"]), "delta": ({"num_resamples": 2, "seed": 3, "method": "sobol"}, ["S1", "S1_conf"]),
                    "pawn": ({"S": 2, "seed": 3}, ["minimum", "mean", "median", "maximum", "CV", "stdev"]), "discrepancy": ({}, ["s_discrepancy"])}[m]
        S = f(p, X, Y, **kw)
    gn = gnames(p)
    c.prove([str(v) for v in S["names"]] == gn, m + ": results are listed in the problem's order")
    T = S.to_df()
    c.prove(all(len(S[k]) == len(gn) for k in cols), m + ": one value per row")
    same(c, T, cols, gn, m, lambda k, i: None if m == "morris" and g and k in ("mu", "sigma") else S[k][i])


def rsa(c):
    D, B, n = c.int("D", 1, 3), c.choose("bins", [2, 3]), 8
    g = group_choice(c, D)
    t = c.choose("target", ["X", "Y"])
    p = problem(c, D, [[-10.0, 10.0]] * D, g)
    X = columns(c, [increasing(c, "x%d" % j, [((2 * j + 1) * i + j) % n for i in range(n)], gap=0.01, maxgap=0.1, lo=0.0, hi=0.5) for j in range(D)])
    Y = c.array(c.w_obj(increasing(c, "y", [(3 * i + 1) % n for i in range(n)])))
    S = c.w.analyze.rsa.analyze(p, X, Y, bins=B, target=t, seed=1)
    T = S.to_df()
    gn = gnames(p)
    c.prove([str(v) for v in T.columns] == gn, "one column per parameter or group in order")
    c.prove(len(T.index) == B and all(abs(float(v) - b / B) < 1e-12 for b, v in enumerate(T.index)), "one row per bin, labelled by its lower end")
    for k in gn:
        v = list(T[k])
        for b in range(B):
            c.prove(c.eq(v[b], S[k][b]), "every value stands in the row of its bin and the column of its parameter")


def rsa_plot(c):
    """One line per parameter or group asked for, named after it, over the bins."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    D, B, n = c.int("D", 1, 3), 3, 10
    g = group_choice(c, D)
    p = problem(c, D, [[-20.0, 20.0]] * D, g)
    gn = gnames(p)
    ask = c.choose("factors", [None, gn[:1], gn[::-1]])
    X = np.array([[float(((2 * j + 3) * i + j) % (n + 1)) for j in range(D)] for i in range(n)])
    Y = np.array([float((3 * i + 1) % n) for i in range(n)])
    S = c.w.analyze.rsa.analyze(p, c.array(c.w_obj(X.tolist())), c.array(c.w_obj(Y.tolist())), bins=B, target=c.choose("target", ["X", "Y"]), seed=1)
    plt.close("all")
    S.plot() if ask is None else S.plot(factors=list(ask))
    lines = [l for f in plt.get_fignums() for a in plt.figure(f).axes for l in a.get_lines()]
    plt.close("all")
    c.prove([l.get_label() for l in lines] == (gn if ask is None else ask), "one line per factor asked for, in order")
    for l in lines:
        x, y = [float(v) for v in l.get_xdata()], [float(v) for v in l.get_ydata()]
        w = [float(v) for v in S[l.get_label()]]
        keep = [k for k in range(len(y)) if not np.isnan(y[k])]
        c.prove(sorted(round(v * B) for v in x) == list(range(B)) and len(y) == B, "a point per bin")
        c.prove(all((np.isnan(w[round(x[k] * B)]) and k not in keep) or abs(y[k] - w[round(x[k] * B)]) < 1e-12 for k in range(B)), "the line shows the factor's own statistics")


def plain(c):
    """Any result: the keys become columns, the names rows."""
    D = c.int("D", 1, 4)
    R = c.w.load("SALib.util.results").ResultDict
    keys = c.choose("keys", [["S1"], ["S1", "S1_conf"], ["b", "a", "a_conf"]])
    V = {k: c.reals(k, D, -5, 5) for k in keys}
    at = c.int("position of the names", 0, len(keys))
    it = [(k, V[k]) for k in keys]
    it.insert(at, ("names", names(D)))
    S = R(it)
    T = S.to_df()
    c.prove([str(v) for v in T.columns] == keys, "columns in the order of the results")
    same(c, T, keys, names(D), "table", lambda k, i: V[k][i])


def hdmr(c):
    which = c.choose("method", ["hdmr", "enhanced_hdmr"])
    D, o = c.int("D", 1, 3), c.int("order", 1, 3)
    mod = getattr(c.w.analyze, which)
    nm = names(D)
    terms = list(nm) + (["%s/%s" % (nm[j], nm[k]) for j, k in pairs(D)] if o > 1 else []) + ["/".join(nm)] * (o == 3 and D == 3)
    n = len(terms)
    keys = ["Sa", "Sa_conf", "Sb", "Sb_conf", "S", "S_conf", "ST", "ST_conf"]
    S = c.w.load("SALib.util.results").ResultDict((k, c.reals(k, n, -2, 2)) for k in keys)
    for k in ("Sa_sum", "Sb_sum", "S_sum", "Sa_sum_conf", "Sb_sum_conf", "S_sum_conf"):
        S[k] = c.real(k, -3, 3)
    S["select"] = S["Signf"] = c.np.zeros(n)
    S["Term"], S["names"] = list(terms), list(terms)
    T = mod.to_df(S)
    same(c, T, keys, terms, which, lambda k, i: S[k][i])


def spec(c):
    """Several outputs: one set of tables per output, in the order of the outputs."""
    D = 2
    outs = c.choose("outputs", [["y"], ["b", "a"]])
    p = problem(c, D)
    p["outputs"] = list(outs)
    sp = c.w.util.problem.ProblemSpec(p)
    n = len(outs)
    U = [[0.1, 0.6], [0.3, 0.1], [0.7, 0.9], [0.9, 0.4]] * 2
    sp.set_samples(c.np.array(U))
    c.prove(raises(RuntimeError, sp.to_df), "no table before an analysis")
    M = c.array(c.w_obj([[c.real("y%d_%d" % (i, k), -10, 10) for k in range(n)] for i in range(8)]))
    for k in range(n):
        c.assume(M[0, k] - M[3, k] >= 0.1)
    sp.set_results(M if n > 1 else M[:, 0])
    sp.analyze(c.w.analyze.sobol.analyze, calc_second_order=False, num_resamples=2, seed=3)
    T = sp.to_df()
    A = [sp.analysis[k] for k in outs] if n > 1 else [sp.analysis]
    T = T if n > 1 else [T]
    c.prove(len(T) == n, "one set of tables per output")
    for k in range(n):
        R = c.w.analyze.sobol.analyze(problem(c, D), M[:, k].copy(), calc_second_order=False, num_resamples=2, seed=3)
        same(c, T[k][0], ["ST", "ST_conf"], names(D), "output " + outs[k], lambda q, i: R[q][i])
        same(c, T[k][1], ["S1", "S1_conf"], names(D), "output " + outs[k], lambda q, i: R[q][i])


# ------------------------------------------------------------------------------ plots
class Rec(pd.DataFrame):
    """A table that notes how it is plotted instead of drawing."""
    _metadata = ["log"]

    @property
    def _constructor(self):
        def mk(*a, **k):
            r = Rec(*a, **k)
            object.__setattr__(r, "log", self.log)
            return r
        mk._constructor_from_mgr = None
        return mk

    def _constructor_from_mgr(self, mgr, axes):
        r = Rec._from_mgr(mgr, axes)
        object.__setattr__(r, "log", self.log)
        return r

    def plot(self, *a, **k):
        self.log.append((self, a, k))
        return k.get("ax", "axes")


def bars(c):
    D = c.int("D", 1, 4)
    keys = c.choose("columns", [["S1", "S1_conf"], ["ST_conf", "ST"], ["mu", "mu_star", "sigma", "mu_star_conf"], ["delta", "delta_conf", "S1", "S1_conf"], ["s_discrepancy"]])
    V = {k: [c.real("%s%d" % (k, i), 0, 5) for i in range(D)] for k in keys}
    df = Rec({k: np.array(V[k], dtype=object) for k in keys}, index=names(D))
    log = []
    object.__setattr__(df, "log", log)
    c.w.load("SALib.plotting.bar").plot(df, ax="here")
    c.prove(len(log) == 1 and log[0][2].get("ax") == "here", "one bar chart on the given axes")
    d, a, k = log[0]
    e = k.get("yerr")
    vals = [q for q in keys if not q.endswith("_conf")]
    c.prove((k.get("kind") or (a and a[0])) == "bar" and [str(q) for q in d.columns] == vals, "bars are the indices, not their confidence")
    c.prove([str(q) for q in d.index] == names(D), "bars are labelled by the parameters in order")
    want = [q for q in vals if q + "_conf" in keys]
    c.prove(e is not None and sorted(str(q) for q in e.columns) == sorted(want) and [str(q) for q in e.index] == names(D) if want else True,
            "error bars go with the index they belong to")
    for q in vals:
        for i in range(D):
            c.prove(c.eq(list(d[q])[i], V[q][i]), "bars show the values of their own parameter")
            if q in want:
                c.prove(c.eq(list(e[q])[i], V[q + "_conf"][i]), "error bars show the confidence of the same parameter and index")


def result_plots(c):
    """Every table of a result is drawn on its own axes, in the order of the tables (and outputs)."""
    outs = c.choose("outputs", [None, ["y"], ["b", "a"]])
    second = c.choose("second", [False, True])
    p = problem(c, 2)
    n = len(outs or [1])
    M = c.array(c.w_obj([[c.real("y%d_%d" % (i, k), -10, 10) for k in range(n)] for i in range(12 if second else 8)]))
    for k in range(n):
        c.assume(M[0, k] - M[5 if second else 3, k] >= 0.1)
    f = c.w.analyze.sobol.analyze
    kw = dict(calc_second_order=second, num_resamples=2, seed=3)
    log = []
    real = pd.DataFrame.plot
    pd.DataFrame.plot = lambda self, *a, **k: log.append((self, k.get("ax")))
    try:
        T = 3 if second else 2
        if outs is None:
            S = [f(p, M[:, 0].copy(), **kw)]
            where = [[object() for _ in range(T)]]
            S[0].plot(ax=where[0])
        else:
            sp = c.w.util.problem.ProblemSpec(dict(p, outputs=list(outs)))
            sp.set_samples(c.np.array([[0.1, 0.6], [0.3, 0.1], [0.7, 0.9], [0.9, 0.4]] * (3 if second else 2)))
            sp.set_results(M if n > 1 else M[:, 0])
            sp.analyze(f, **kw)
            S = [sp.analysis[o] for o in outs] if n > 1 else [sp.analysis]
            where = [[object() for _ in range(T)] for _ in outs]
            if n == 1:
                sp.plot(ax=where[0])
            else:
                grid = [[Axes() for _ in range(T)] for _ in outs]
                asked = []

                def subplots(r, q, **k):
                    asked.append((r, q))
                    return None, grid
                import matplotlib.pyplot as plt
                had = plt.subplots, plt.tight_layout
                plt.subplots, plt.tight_layout = subplots, lambda *a, **k: None
                try:
                    sp.plot()
                finally:
                    plt.subplots, plt.tight_layout = had
                c.prove(asked == [(n, T)], "a row of axes per output, a column per table")
                where = grid
                for o, row in zip(outs, grid):
                    c.prove(row[0].log["set_title"][0][0][0] == o, "a row is titled with its output")
    finally:
        pd.DataFrame.plot = real
    c.prove(len(log) == n * T, "every table is drawn once")
    for k in range(n):
        for t in range(T):
            hit = [d for d, a in log if a is where[k][t]]
            c.prove(len(hit) == 1, "a table per axes")
            key = ["ST", "S1", "S2"][t]
            c.prove([str(v) for v in hit[0].columns] == [key], "tables in order: total, first, second order")
            v, w = list(hit[0][key]), [S[k][key][0, 1]] if t == 2 else list(S[k][key])
            c.prove(len(v) == len(w), "one bar per parameter or pair")
            c.prove_all_eq(v, w, "bars show the result of their own output")


class Axes:
    """Notes every call; answers the few questions plots ask."""

    def __init__(self):
        self.log = {}
        self.images = ["image"]

    def get_xlim(self):
        return (0.0, 1.0)

    def get_ylim(self):
        return (0.0, 1.0)

    def plot(self, *a, **k):
        return ["line"]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("xaxis", "yaxis"):
            self.__dict__[n] = Axes()
            return self.__dict__[n]

        def f(*a, **k):
            self.log.setdefault(n, []).append((a, k))
            return n
        return f


def morris_plots(c):
    D = c.int("D", 1, 3)
    order = c.choose("order", list(itertools.permutations(range(D))))
    by = c.choose("sorted by", ["mu_star", "sigma", "mu_star_conf", "mu"])
    V = {k: [c.real("%s%d" % (k, i), 0, 5) for i in range(D)] for k in ("mu", "mu_star", "sigma", "mu_star_conf")}
    V[by] = increasing(c, "key", list(order))
    S = c.w.load("SALib.util.results").ResultDict((k, c.array(c.w_obj(v))) for k, v in V.items())
    S["names"] = names(D)
    m = c.w.load("SALib.plotting.morris")
    ax = Axes()
    m.horizontal_bar_plot(ax, S, sortby=by)
    (a, k), = ax.log["barh"]
    pos, val = list(a[0]), list(a[1])
    err = list(k["xerr"])
    lab = [str(v) for v in ax.log["set_yticklabels"][0][0][0]]
    tick = list(ax.log["set_yticks"][0][0][0])
    c.prove(len(pos) == len(val) == len(err) == len(lab) == len(tick) == D and sorted(lab) == sorted(names(D)), "one bar and one label per parameter")
    for i in range(D):
        j = names(D).index(lab[[float(t) for t in tick].index(float(pos[i]))])
        c.prove(c.eq(val[i], V["mu_star"][j]), "every bar is labelled by the parameter it belongs to")
        c.prove(c.eq(err[i], V["mu_star_conf"][j]), "every error bar belongs to the parameter of its bar")
        c.prove(j == order[i], "bars are sorted by the requested measure")
    if by == "mu_star":
        g = c.choose("groups", [False, True])
        ax = Axes()
        T = c.w.load("SALib.util.results").ResultDict(S)
        if g:
            T["sigma"] = None
        m.covariance_plot(ax, T)
        (a, k), = ax.log["scatter"]
        for i in range(D):
            c.prove(c.eq(a[0][i], V["mu_star"][i]), "points show mu_star across")
            c.prove(c.eq(a[1][i], V["mu_star_conf" if g else "sigma"][i]), "points pair mu_star with the spread of the same parameter")


class Fig:
    def __init__(self):
        self.axes = []

    def add_subplot(self, *a):
        x = Axes()
        x.where = a
        self.axes.append(x)
        return x

    def colorbar(self, *a, **k):
        pass


def histograms(c):
    D, N = c.int("D", 2, 4), 3
    X = c.array(c.w_obj([[np.float64(i) if j == 1 else c.real("x%d_%d" % (i, j), 0, 1) for j in range(D)] for i in range(N)]))
    fig = Fig()
    c.w.load("SALib.plotting.morris").sample_histograms(fig, X, problem(c, D))
    c.prove(len(fig.axes) == D and len({a.where for a in fig.axes}) == D, "one histogram per parameter, each in its own place")
    seen = []
    for a in fig.axes:
        j = names(D).index(str(a.log["set_title"][0][0][0]))
        seen.append(j)
        v = a.log["hist"][0][0][0]
        for i in range(N):
            c.prove(c.eq(v[i], X[i, j]), "a histogram shows the samples of the parameter in its title")
    c.prove(sorted(seen) == list(range(D)), "every parameter has its histogram")


def heat(c):
    D = c.int("D", 2, 3)
    multi = c.choose("several outputs", [False, True])
    g = group_choice(c, D) if D == 3 and not multi else None
    p = problem(c, D, None, g)
    G, gn = len(gnames(p)), gnames(p)
    p["outputs"] = ["b", "a"] if multi else ["y"]
    R = c.w.load("SALib.util.results").ResultDict
    sel = c.choose("indices", [None, "S1", "ST", ["ST"], ["ST", "S1"], ["S1", "S2", "ST"], ["S1", "S1_conf", "ST"]])
    A = {}
    for o in p["outputs"]:
        S = R()
        for k in ("S1", "S1_conf", "ST", "ST_conf"):
            S[k] = c.reals("%s_%s" % (k, o), G, -1, 2)
        S["S2"], S["S2_conf"] = [c.array(c.w_obj([[c.real("%s%s%d_%d" % (k, o, i, j), -1, 2) for j in range(G)] for i in range(G)])) for k in ("S2", "S2_conf")]
        A[o] = S
    sp = c.w.util.problem.ProblemSpec(p)
    sp._analysis = A if multi else A["y"]
    h = c.w.load("SALib.plotting.heatmap")
    fig, ax = Fig(), Axes()

    class Plt:
        def gcf(self):
            return fig

        def __getattr__(self, n):
            return lambda *a, **k: None
    h.plt = Plt()
    o = c.choose("metric", p["outputs"])
    h.heatmap(sp, o, sel, None, ax)
    M = ax.log["imshow"][0][0][0]
    xs = [str(v) for v in ax.xaxis.log["set_ticklabels"][0][0][0]]
    ys = [str(v) for v in ax.yaxis.log["set_ticklabels"][0][0][0]]
    c.prove(xs == gn, "columns are labelled by the parameters or groups in order")
    want = [k for k in (sel if isinstance(sel, list) else [sel] if sel else ["S1", "ST", "S2"]) if not k.endswith("_conf") and k != "S2"]
    c.prove(ys == want and len(M) == len(want), "rows are labelled by the indices they show")
    if ys == want and len(M) == len(want):
        for i, k in enumerate(ys):
            for j in range(G):
                c.prove(c.eq(M[i][j], A[o][k][j]), "every cell shows the index of its row for the parameter of its column")
