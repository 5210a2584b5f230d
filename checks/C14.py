"""Finite-difference design and derivative-based measures."""
import itertools
import math

import numpy as np
from scipy.stats import norm

from vf.lib import *

BOUNDS = ("D in 1..3 parameters, N in 1..3 base points, skips 0..3 and 1024; all real bounds |b|<=10, steps in [0.001,1], all unbounded/bounded "
          "distributions; analysis: D in 1..2, N in 2..3, all real outputs |y|<=10 and input steps; 2 resamples with every draw")


def harnesses(tier):
    return [("design", {"budget": 150}), ("unbounded", {}), ("measures", {"rng_const": True, "budget": 150}), ("confidence", {"budget": 150}),
            ("roundtrip", {"rng_const": True}), ("rejects", {"rng_const": True})]


def clip(c, v, lo, hi):
    return c.np.minimum(c.np.maximum(v, lo), hi)


def design(c):
    D = c.int("D", 1, 3)
    N = c.int("N", 1, 3 if D == 1 else 2)
    sk = c.choose("skip", [0, 1, 3, None]) if D < 3 else 2
    b = sym_bounds(c, D)
    d = c.real("delta", 0.001, 1)
    p = problem(c, D, b)
    kw = {} if sk is None else {"skip_values": sk}
    X = c.w.sample.finite_diff.sample(dict(p), N, delta=d, seed=1, **kw)
    base = c.w.sample.sobol_sequence.sample(N + (1024 if sk is None else sk), D)[-N:]
    c.prove(tuple(X.shape) == (N * (D + 1), D), "N*(D+1) rows")
    for i in range(N):
        r = [b[j][0] + float(base[i, j]) * (b[j][1] - b[j][0]) for j in range(D)]
        for j in range(D):
            c.prove(c.eq(X[i * (D + 1), j], r[j]), "base rows are the scaled sequence after the skipped points")
        for k in range(D):
            for j in range(D):
                v = X[i * (D + 1) + k + 1, j]
                if j == k:
                    w = r[j] + r[j] * d
                    if c.concrete:
                        w = min(max(w, b[j][0]), b[j][1])
                        c.prove(c.eq(v, w), "the parameter moves by the relative step, clipped to its bounds")
                        continue
                    c.prove(c.any([c.all([w >= b[j][0], w <= b[j][1], c.eq(v, w)]), c.all([w > b[j][1], c.eq(v, b[j][1])]),
                                   c.all([w < b[j][0], c.eq(v, b[j][0])])]), "the parameter moves by the relative step, clipped to its bounds")
                else:
                    c.prove(c.eq(v, r[j]), "all other parameters keep their base values")


def unbounded(c):
    kind = c.choose("dist", ["norm", "lognorm", "weibull", "truncnorm", "triang", "triang2", "logunif"])
    m, s = c.real("m", 0.5, 3), c.real("s", 0.1, 3)
    d = c.real("delta", 0.001, 1)
    bj = {"norm": [m, s], "lognorm": [m, s], "weibull": [m, s], "truncnorm": [m, m + s, m, s], "triang": [m, m + s, 0.25],
          "triang2": [m, 0.5], "logunif": [m, m + s]}[kind]
    lim = {"truncnorm": (m, m + s), "triang": (m, m + s), "logunif": (m, m + s)}.get(kind)
    p = problem(c, 2, [bj, [0.0, 1.0]], None, dists=[kind.rstrip("2"), "unif"])
    X = c.w.sample.finite_diff.sample(dict(p), 1, delta=d, seed=1, skip_values=3)
    U = c.w.sample.sobol_sequence.sample(4, 2)[3:]
    x = c.w.util.scale_samples(U.copy(), dict(p))[0, 0]
    c.prove(c.eq(X[0, 0], x, tol=1e-6), "base row comes from the distribution")
    w = x + x * d
    v = X[1, 0]
    if lim is None:
        c.prove(c.eq(v, w, tol=1e-6), "steps of unbounded distributions are not clipped to their parameters")
    elif c.concrete:
        c.prove(c.eq(v, min(max(w, lim[0]), lim[1]), tol=1e-6), "steps are clipped to the range of the distribution")
    else:
        c.prove(c.any([c.all([w >= lim[0], w <= lim[1], c.eq(v, w)]), c.all([w > lim[1], c.eq(v, lim[1])]),
                       c.all([w < lim[0], c.eq(v, lim[0])])]), "steps are clipped to the range of the distribution")


def steps(c, N, D, free=True):
    """Any finite-difference design with non-zero steps."""
    X = np.empty((N * (D + 1), D), dtype=object)
    dx = [[(c.real("dx%d_%d" % (i, j), 0.1, 3) if free else 0.5 + 0.25 * i + 0.125 * j) * (1 if (i + j) % 2 else -1) for j in range(D)] for i in range(N)]
    for i in range(N):
        r = [c.real("x%d_%d" % (i, j), -5, 5) for j in range(D)]
        X[i * (D + 1)] = r
        for k in range(D):
            q = list(r)
            q[k] = q[k] + dx[i][k]
            X[i * (D + 1) + k + 1] = q
    return c.array(X), dx


def quot(Y, dx, i, j, D):
    q = (Y[i * (D + 1) + j + 1] - Y[i * (D + 1)]) / dx[i][j]
    return q * q


def measures(c):
    D = c.int("D", 1, 3)
    N = c.int("N", 2, 3 if D == 1 else 2)
    X, dx = steps(c, N, D)
    b = sym_bounds(c, D)
    Y = c.reals("Y", N * (D + 1), -10, 10)
    c.assume(Y[0] - Y[D + 1] >= 0.1)
    S = c.w.analyze.dgsm.analyze(problem(c, D, b), X, Y.copy(), num_resamples=2, seed=1)
    base = [Y[i * (D + 1)] for i in range(N)]
    c.prove(all(len(S[k]) == D for k in ("vi", "vi_std", "dgsm", "dgsm_conf")) and list(S["names"]) == names(D), "one value per parameter")
    for j in range(D):
        q = [quot(Y, dx, i, j, D) for i in range(N)]
        c.prove(c.eq(S["vi"][j], mean(q)), "vi is the mean squared difference quotient")
        c.prove(c.all([c.eq(S["vi_std"][j] * S["vi_std"][j], var(q), tol=1e-6), S["vi_std"][j] >= 0]), "vi_std is the spread of the squared quotients")
        w = b[j][1] - b[j][0]
        c.prove(c.eq(S["dgsm"][j] * math.pi ** 2 * var(base), mean(q) * w * w, tol=1e-6), "dgsm = vi range^2 / (pi^2 variance)")


def confidence(c):
    D = c.int("D", 1, 2)
    N, R = c.int("N", 2, 3 if D == 1 else 2), 2
    cl = c.choose("conf", [0.95, 0.5]) if D == 1 else 0.9
    c.rng_vary = 5 if c.tier == "quick" else 8
    X, dx = steps(c, N, D, False)
    Y = c.reals("Y", N * (D + 1), -10, 10)
    c.assume(Y[0] - Y[D + 1] >= 0.1)
    S = c.w.analyze.dgsm.analyze(problem(c, D), X, Y.copy(), num_resamples=R, conf_level=cl, seed=1)
    dr = c.drawn_ints()
    c.prove(len(dr) == D * R * N and all(v == (0, N - 1) for v in c.draws.values()), "each resample draws N base points with replacement")
    Z = float(norm.ppf(0.5 + cl / 2))
    for j in range(D):
        q = [quot(Y, dx, i, j, D) for i in range(N)]
        e = [mean([q[i] for i in dr[(j * R + r) * N:(j * R + r + 1) * N]]) for r in range(R)]
        v = S["dgsm_conf"][j]
        c.prove(c.all([c.eq(v * v, Z * Z * var(e, 1), tol=1e-7), v >= 0]), "dgsm_conf is the bootstrap spread of vi")


def roundtrip(c):
    """A linear model has vi = coefficient squared on the sampler's own design."""
    D = c.int("D", 1, 3)
    N = 2
    b = [[1.0, 3.0], [10.0, 12.0], [0.5, 0.75]][:D]
    P = problem(c, D, b)
    X = c.w.sample.finite_diff.sample(dict(P), N, delta=0.0625, seed=1, skip_values=3)
    a = [c.real("a%d" % j, -5, 5) for j in range(D)]
    c.assume(a[0] >= 0.5)
    for j in range(1, D):
        c.assume(a[j] >= 0)
    Y = []
    for i in range(len(X)):
        v = 1.0
        for j in range(D):
            v = v + a[j] * float(X[i, j])
        Y.append(v)
    Y = np.array([float(v) for v in Y]) if c.concrete else c.array(c.w_obj(Y))
    for j in range(D):
        c.prove(all(abs(float(X[i * (D + 1) + j + 1, j] - X[i * (D + 1), j])) > 1e-9 for i in range(N)), "steps are not degenerate")
    S = c.w.analyze.dgsm.analyze(dict(P), X, Y, num_resamples=2, seed=1)
    for j in range(D):
        c.prove(c.near(S["vi"][j], a[j] * a[j], tol=1e-6), "a linear model has vi equal to its squared coefficient")


def rejects(c):
    D = c.int("D", 1, 3)
    n = c.int("n", 2 * (D + 1), 3 * (D + 1) - 1)
    X, Y = c.reals("X", (n, D), -10, 10), c.reals("Y", n, -10, 10)
    f = c.w.analyze.dgsm.analyze
    if n % (D + 1):
        c.prove(raises(RuntimeError, f, problem(c, D), X, Y, num_resamples=2), "lengths not matching the design are rejected")
    for cl in (0, 1, 2.0, -0.5):
        c.prove(raises(RuntimeError, f, problem(c, D), X[:2 * (D + 1)], Y[:2 * (D + 1)], num_resamples=2, conf_level=cl), "confidence level outside (0,1) is rejected")
