"""FAST sampling."""
import math

import numpy as np

from vf.lib import *

BOUNDS = ("D in 1..5 (7 thorough) parameters, M in 1..2, N from the smallest legal value 4M^2+1 to 4M^2+4 and (M=1) 9,12,17; every phase in [0,2pi), "
          "all real bounds |b|<=10")
ASSUMPTIONS = ["sin and arcsin are uninterpreted functions of their argument (modulo 2 pi, up to 1e-11), |arcsin| <= pi/2"]


def harnesses(tier):
    return [("curve", {"budget": 200}), ("phases", {}), ("rejects", {})]


def freqs(D, N, M):
    w = (N - 1) // (2 * M)
    m = w // (2 * M)
    if D == 1:
        return w, []
    if m >= D - 1:
        if D == 2:
            return w, [1]
        return w, [int(math.floor(1 + (m - 1) * k / (D - 2) + 1e-12)) for k in range(D - 1)]
    return w, [k % m + 1 for k in range(D - 1)]


def curve(c):
    D = c.int("D", 1, 7 if c.tier == "thorough" else 5)
    M = c.choose("M", [1, 2]) if D < 4 else c.choose("M", [1, 2] if c.tier == "thorough" else [1])
    N = c.choose("N", [4 * M * M + k for k in (1, 2, 3, 4)] + ([9, 12, 17] if M == 1 else []))
    b = sym_bounds(c, D)
    X = c.w.sample.fast_sampler.sample(problem(c, D, b), N, M=M, seed=5)
    c.prove(tuple(X.shape) == (N * D, D), "N*D rows")
    u = c.drawn_reals()
    c.prove(len(u) == D, "one random phase per block")
    w, comp = freqs(D, N, M)
    for i in range(D):
        for j in range(D):
            om = w if j == i else comp[j if j < i else j - 1]
            for k in range(N):
                if c.tier == "quick" and D > 3 and k > 4:
                    continue
                g = c.np.arcsin(c.np.sin(om * (2 * math.pi * k / N) + 2 * math.pi * u[i])) / math.pi + 0.5
                v = X[i * N + k, j]
                c.prove(c.near(v, b[j][0] + g * (b[j][1] - b[j][0]), tol=1e-8) if c.concrete else
                        c.eq(v, b[j][0] + g * (b[j][1] - b[j][0])), "block drives its own parameter along the search curve")
                if k == 1 and i == 0:
                    c.prove(c.all([v >= b[j][0] - 1e-6, v <= b[j][1] + 1e-6]), "inside the bounds")


def phases(c):
    """Scaling and seed: the same phases give the same unit curve."""
    D = c.int("D", 1, 3)
    N = 5
    kind = c.choose("dist", ["norm", "triang"])
    m, s = c.real("m", -3, 3), c.real("s", 0.1, 3)
    U = c.w.sample.fast_sampler.sample(problem(c, D), N, M=1, seed=5)
    p = problem(c, D, [[m, s] if kind == "norm" else [m, m + s, 0.25]] + [[0.0, 1.0]] * (D - 1), None, dists=[kind] + ["unif"] * (D - 1))
    X = c.w.sample.fast_sampler.sample(dict(p), N, M=1, seed=5)
    W = c.w.util.scale_samples(U.copy(), dict(p))
    c.prove_all_eq(X, W, "the unit curve is scaled by each parameter's distribution", tol=1e-6)


def rejects(c):
    M = c.int("M", 1, 6)
    N = c.choose("N", [4 * M * M, 4 * M * M - 1, 1, 4 * M * M + 1])
    D = c.int("D", 1, 2)
    f = c.w.sample.fast_sampler.sample
    if N <= 4 * M * M:
        c.prove(raises(ValueError, f, problem(c, D), N, M=M, seed=1), "N not above 4 M^2 is rejected")
    else:
        X = f(problem(c, D), N, M=M, seed=1)
        c.prove(tuple(X.shape) == (N * D, D), "N above 4 M^2 is accepted")
    if M == 4:
        c.prove(raises(ValueError, f, problem(c, D), 64, seed=1), "default interference factor is 4")
