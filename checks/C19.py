"""Delta moment-independent measure and its first-order companion."""
import math

import numpy as np
from scipy.stats import gaussian_kde, norm

from vf.lib import *

BOUNDS = ("class counts: sample sizes around every change of the number of classes up to 2400 (6000 thorough); first-order: 1..2 inputs, 4..7 samples (9 thorough), every draw for the first draws, all outputs |y|<=10; delta: 20..21 samples of several patterns "
          "(inputs an arbitrary positive affine image of it), 2 resamples with fixed draws, all outputs of a given order, arbitrary density estimator")
ASSUMPTIONS = ["symbolically the kernel density estimate is an arbitrary non-negative function of the sample multiset and the point; concrete replays use scipy's"]


def harnesses(tier):
    return [("first_order", {}), ("first_large", {"rng_hash": True}), ("first_bounds", {}), ("first_conf", {}), ("delta", {"timeout": 20000}), ("step", {"timeout": 20000}), ("rejects", {})]


def classes(n):
    e = 2.0 / (7.0 + math.tanh((1500.0 - n) / 500.0))
    return int(round(min(math.ceil(n ** e), 48)))


def parts(order, n):
    """Sample positions of the equal-frequency classes for the positions ordered by value."""
    M = classes(n)
    out = []
    for k in range(M):
        lo, hi = k * n / M, (k + 1) * n / M
        out.append([order[r - 1] for r in range(1, len(order) + 1) if r > lo + 1e-9 and r <= hi + 1e-9])
    return out


def rank_order(level):
    """Positions by increasing level, ties in order of position."""
    return sorted(range(len(level)), key=lambda i: (level[i], i))


def first(Y, level, n):
    V = var(Y)
    m = mean(Y)
    s = 0.0
    for p in parts(rank_order(level), n):
        q = mean([Y[i] for i in p]) - m
        s = s + q * q * (float(len(p)) / len(Y))
    return s / V


def sample(c, n, D):
    xo = [[(2 * i + 1) % n for i in range(n)] if n % 2 else list(range(n))[::-1], list(range(n))][:D]
    lv = []
    for o in xo:
        r = [0] * n
        for k, i in enumerate(o):
            r[i] = k
        lv.append(r)
    return columns(c, [increasing(c, "x%d" % j, o) for j, o in enumerate(xo)]), lv


def distinct(v):
    return len(set(v)) > 1


def spaced(c, n):
    """Outputs on [0,1] with known order and range, otherwise arbitrary."""
    yo = [(3 * i + 1) % n for i in range(n)]
    y = [None] * n
    for k, i in enumerate(yo):
        y[i] = k / (n - 1.0) if k in (0, n - 1) else (k + c.real("y%d" % k, -0.4, 0.4)) / (n - 1.0)
    return y, {i: k for k, i in enumerate(yo)}


def outputs(c, n):
    """Outputs apart from each other so that no resample of two different rows is constant."""
    return increasing(c, "y", [(3 * i + 1) % n for i in range(n)] if n % 3 else list(range(n))[::-1])


def first_order(c):
    D = c.int("D", 1, 2)
    n = c.choose("N", [4, 5, 7] + ([8, 9] if c.tier == "thorough" else []))
    c.rng_vary = 2 if c.tier == "quick" else 4
    X, lv = sample(c, n, D)
    y = outputs(c, n)
    R = 2
    S = c.w.analyze.delta.analyze(problem(c, D), X, c.array(c.w_obj(y)), num_resamples=R, method="sobol", seed=1)
    d = c.drawn_ints()
    c.prove(len(d) == D * n * (1 + R) and all(v == (0, n - 1) for v in c.draws.values()), "plug-in and resamples draw the samples with replacement")
    c.prove(list(S["names"]) == names(D) and len(S["S1"]) == D, "one value per parameter")
    for j in range(D):
        ix = d[j * n * (1 + R):j * n * (1 + R) + n]
        w = first([y[i] for i in ix], [lv[j][i] for i in ix], n) if distinct(ix) else 0.0
        c.prove(c.eq(S["S1"][j], w), "variance of the class means over the output variance")


def first_large(c):
    """The number of classes follows from the number of samples, for small and large samples."""
    n = c.choose("N", [30, 254, 599, 1026, 1635, 1636, 2110, 2372] if c.tier == "quick" else [15, 16, 80, 81, 253, 254, 598, 599, 1025, 1026, 1304, 1305, 1487, 1488, 1635, 1636, 1775, 1776, 1925, 1926, 2109, 2110, 2371, 2372, 2787, 3380, 4097, 4914, 5833])
    r = c.choose("y_resamples", [None, n // 2]) if n in (254, 1636) else None
    m = r or n
    g = np.random.RandomState(n)
    x, u, v = g.rand(n), g.rand(n), g.rand(n)
    u[:2], v[:2] = (0.0, 1.0), 0.0
    a = c.real("a", -2, 2)
    y = [float(p) + a * float(q) for p, q in zip(u + x * x, v)]
    kw = {"y_resamples": r} if r else {}
    S = c.w.analyze.delta.analyze(problem(c, 1), c.np.array(x.reshape(-1, 1)), c.array(c.w_obj(y)), num_resamples=1, method="sobol", seed=1, **kw)
    ix = c.drawn_ints()[:m]
    c.prove(len(ix) == m, "plug-in draws the samples with replacement")
    lv = [float(x[i]) for i in ix]
    yy = [y[i] for i in ix]
    V = var(yy)
    mu = mean(yy)
    s = 0.0
    for q in parts(rank_order(lv), m):
        t = mean([yy[i] for i in q]) - mu
        s = s + t * t * (float(len(q)) / m)
    c.prove(c.eq(S["S1"][0] * V, s, tol=1e-8), "variance of the means of the documented number of classes")


def first_bounds(c):
    n = c.choose("N", [4, 5])
    c.rng_vary = 0
    X, lv = sample(c, n, 1)
    y = c.reals("y", n, -10, 10)
    c.assume(y[0] - y[1] >= 0.5)
    c.assume(y[2] - y[0] >= 0.5)
    S = c.w.analyze.delta.analyze(problem(c, 1), X, y, num_resamples=2, method="sobol", seed=1)
    s = S["S1"][0]
    c.prove(c.all([s >= 0, s <= 1 + 1e-9]), "first-order index lies in [0,1]")


def first_conf(c):
    n, R = 4, 2
    r = c.choose("y_resamples", [None, 3])
    m = r or n
    cl = c.choose("conf", [0.95, 0.5])
    c.rng_vary = 2
    X, lv = sample(c, n, 1)
    y = outputs(c, n)
    S = c.w.analyze.delta.analyze(problem(c, 1), X, c.array(c.w_obj(y)), num_resamples=R, conf_level=cl, method="sobol", y_resamples=r, seed=1)
    d = c.drawn_ints()
    est = []
    for k in range(R):
        ix = d[m * (1 + k):m * (2 + k)]
        est.append(first([y[i] for i in ix], [lv[0][i] for i in ix], m) if distinct(ix) else 0.0)
    Z = float(norm.ppf(0.5 + cl / 2))
    v = S["S1_conf"][0]
    c.prove(c.near(v * v, Z * Z * var(est, 1), tol=1e-7), "S1_conf is the bootstrap spread of the same estimator")


def density(c, Y, grid):
    if c.concrete:
        return list(gaussian_kde(np.array([float(v) for v in Y]), bw_method="silverman")(np.array([float(g) for g in grid])))
    return list(c.w.load("SALib.analyze.delta").gaussian_kde(c.array(c.w_obj(list(Y))), bw_method="silverman")(c.array(c.w_obj(list(grid)))))


def plug_in(c, Y, grid, level, n, ykey):
    fy = density(c, Y, grid)
    tot = 0.0
    for p in parts(rank_order(level), n):
        if not p or not distinct([ykey[i] for i in p]):
            continue
        fc = density(c, [Y[i] for i in p], grid)
        g = [abs(a - b) for a, b in zip(fy, fc)]
        s = c.np.trapezoid(c.array(c.w_obj(g)) if not c.concrete else np.array(g), list(grid) if not c.concrete else grid)
        tot = tot + s * (len(p) / (2.0 * len(Y)))
    return tot


def merged(level, edges, least, n):
    """Equal-width bins, underpopulated ones joined with the next."""
    bins = []
    for k in range(len(edges) - 1):
        bins.append([i for i, v in enumerate(level) if (v > edges[k] or (k == 0 and v == edges[k])) and v <= edges[k + 1]])
    out, k = [], 0
    while k < len(bins):
        b = list(bins[k])
        while len(b) < least and k + 1 < len(bins):
            k += 1
            b += bins[k]
        out.append(b)
        k += 1
    return out


def balanced_draw(d, pos, bins, total):
    ix = []
    for k, b in enumerate(bins):
        if not b:
            continue
        sz = total // len(bins) + (1 if k < total % len(bins) else 0)
        ix += [b[v] for v in d[pos:pos + sz]]
        pos += sz
    return ix, pos


def reduce(c, boots):
    """Bias reduction: 2*plug-in - resample; mean and squared spread."""
    v = [2.0 * boots[0] - b for b in boots[1:]]
    return mean(v), var(v, 1)


def pattern(kind, n):
    if kind == "even":
        return [0.1 + (7 * i) % n for i in range(n)]
    if kind == "skewed":
        return [0.1 + ((7 * i) % n) ** 2 / 10.0 for i in range(n)]
    return [0.0 if i % 2 else 0.3 + i for i in range(n)]


def lin(lo, hi, k):
    return [lo + (hi - lo) * i / float(k) for i in range(k + 1)]


def delta(c):
    n = c.choose("N", [20] if c.tier == "quick" else [20, 22])
    R = 2
    c.rng_vary = 0
    lv = pattern(c.choose("pattern", ["even", "skewed"]), n)
    s, t = c.real("scale", 0.5, 2), c.real("shift", 1, 3)
    nb = c.choose("bins", [None, 2, 3])
    X = columns(c, [[v * s + t for v in lv]])
    y, rank = spaced(c, n)
    kw = {} if nb is None else {"bins_specs": {names(1)[0]: nb}}
    S = c.w.analyze.delta.analyze(problem(c, 1), X, c.array(c.w_obj(y)), num_resamples=R, method="delta", seed=1, **kw)
    d = c.drawn_ints()
    bins = merged(lv, lin(min(lv), max(lv), nb or 10), 10, n)
    if len(bins) < 2:
        c.prove(bool(S["delta_raw"][0] != S["delta_raw"][0]) and len(S["notes"][0]) > 0, "nothing is reported for too few samples but a note is left")
        return
    grid = np.linspace(0.0, 1.0, 100)
    pos = 0
    for mode in ("balanced", "raw"):
        est = []
        for r in range(1 + R):
            if mode == "raw":
                ix, pos = d[pos:pos + n], pos + n
            else:
                ix, pos = balanced_draw(d, pos, bins, n)
            est.append(plug_in(c, [y[i] for i in ix], grid, [lv[i] for i in ix], n, [rank[i] for i in ix]))
        m, v = reduce(c, est)
        c.prove(c.eq(S["delta_" + mode][0], m, tol=1e-8), mode + " delta is twice the plug-in minus the bootstrap mean")
        g = S["delta_%s_conf" % mode][0]
        c.prove(c.eq(g * g, float(norm.ppf(0.975)) ** 2 * v, tol=1e-8), mode + " confidence is the spread of the resamples")
    c.prove(pos == len(d), "no other draws")
    c.prove(bool(S["delta_step"][0] != S["delta_step"][0]), "step delta undefined without enough values on either side of zero")


def step(c):
    n, R = 20, 2
    c.rng_vary = 0
    lv = pattern("zeros", n)
    s = c.real("scale", 0.5, 2)
    X = columns(c, [[v * s for v in lv]])
    y, rank = spaced(c, n)
    S = c.w.analyze.delta.analyze(problem(c, 1), X, c.array(c.w_obj(y)), num_resamples=R, method="delta", seed=1)
    d = c.drawn_ints()
    zero, pos_ = [i for i in range(n) if lv[i] <= 0], [i for i in range(n) if lv[i] > 0]
    bins = merged(lv, lin(min(lv), max(lv), 10), 10, n)
    low = merged([lv[i] for i in pos_], lin(min(lv[i] for i in pos_), max(lv), 5), 5, n)
    per = [(1 + R) * n] * 2
    pos = sum(per)
    c.prove(len(bins) == 2 and len(d) == 3 * n * (1 + R), "three modes, each drawing a full sample per estimate")
    grid = np.linspace(0.0, 1.0, 100)
    est = []
    for r in range(1 + R):
        ix = [zero[v] for v in d[pos:pos + n // 2]]
        more, pos = balanced_draw(d, pos + n // 2, low, n - n // 2)
        ix += [pos_[v] for v in more]
        est.append(plug_in(c, [y[i] for i in ix], grid, [lv[i] for i in ix], n, [rank[i] for i in ix]))
    c.prove(c.eq(S["delta_step"][0], reduce(c, est)[0], tol=1e-8), "step delta compares zero against positive inputs in equal numbers")


def rejects(c):
    w = c.w.analyze.delta.analyze
    n = 4
    X, lv = sample(c, n, 1)
    y = c.array(c.w_obj(outputs(c, n)))
    k = c.choose("case", ["rows", "conf0", "conf1", "method", "resamples", "name"])
    c.rng_vary = 0
    p = problem(c, 1)
    if k == "rows":
        c.prove(raises(RuntimeError, w, p, X, y[:3], method="sobol"), "different numbers of rows are rejected")
    elif k in ("conf0", "conf1"):
        c.prove(raises(RuntimeError, w, p, X, y, conf_level=0 if k == "conf0" else 1, method="sobol"), "confidence level outside (0,1) is rejected")
    elif k == "method":
        c.prove(raises(ValueError, w, p, X, y, method="Sobol"), "unknown method is rejected")
    elif k == "resamples":
        c.prove(raises(RuntimeError, w, p, X, y, y_resamples=5, method="sobol"), "more resamples than samples are rejected")
    else:
        p["names"] = ["a_raw"]
        c.prove(raises(ValueError, w, p, X, y, method="sobol"), "reserved name suffix is rejected")

