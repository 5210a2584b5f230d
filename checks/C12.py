"""FAST analysis."""
import math

import numpy as np
from scipy.stats import norm

from vf.lib import *

BOUNDS = ("D in 1..3 parameters, M=1 with N in 5..9 (12 thorough) and M=2 with N=17 (18 thorough) points per block, all real outputs |y|<=10; confidence: "
          "D in 1..2, N=5, 2 resamples with every draw (quick: the first three draws free), and N in {9,10,12} with one free output and fixed pseudo-random draws")


def harnesses(tier):
    return [("indices", {"rng_const": True, "budget": 250}), ("confidence", {"budget": 200}), ("confidence_larger", {"rng_hash": True, "budget": 150}), ("invariance", {"rng_const": True, "budget": 150}),
            ("rejects", {"rng_const": True}), ("cosine", {"rng_const": True})]


def power(c, y, k):
    """|sum y_n exp(-2 pi i k n / N)|^2 / N^2"""
    N = len(y)
    re = im = 0.0
    for n in range(N):
        a = 2 * math.pi * ((k * n) % N) / N
        re = re + y[n] * math.cos(a)
        im = im + y[n] * math.sin(a)
    return (re * re + im * im) / (N * N)


def estimate(c, y, M):
    N = len(y)
    w = (N - 1) // (2 * M)
    P = [power(c, y, k) for k in range(1, (N + 1) // 2)]
    V = 2.0 * sum(P[1:], P[0])
    D1 = Dt = 0.0
    for h in range(1, M + 1):
        D1 = D1 + 2.0 * P[h * w - 1]
    for k in range(w // 2):
        Dt = Dt + 2.0 * P[k]
    return D1, Dt, V


def spread(c, y):
    """Away from constant blocks, where no index is defined."""
    c.assume(y[0] - y[1] >= 1)
    c.assume(y[2] - y[0] >= 0.5)


def indices(c):
    D = c.int("D", 1, 3)
    M = c.choose("M", [1, 2]) if D == 1 else 1
    N = (c.choose("N", [5, 6, 7, 8, 9] + ([10, 11, 12] if c.tier == "thorough" else [])) if D == 1 else c.choose("N", [5, 8])) if M == 1 \
        else c.choose("N", [17, 18] if c.tier == "thorough" else [17])
    Y = c.reals("Y", D * N, -10, 10)
    for i in range(D):
        spread(c, Y[i * N:(i + 1) * N])
    S = c.w.analyze.fast.analyze(problem(c, D), Y.copy(), M=M, num_resamples=2, seed=1)
    c.prove(all(len(S[k]) == D for k in ("S1", "ST", "S1_conf", "ST_conf")) and list(S["names"]) == names(D), "one value per parameter")
    for i in range(D):
        D1, Dt, V = estimate(c, [Y[i * N + k] for k in range(N)], M)
        if c.concrete:
            c.prove(c.eq(S["S1"][i], D1 / V), "S1 is the power at the driving harmonics over the variance of its block")
            c.prove(c.eq(S["ST"][i], 1.0 - Dt / V), "ST is one minus the low-frequency power over the variance of its block")
        else:
            c.prove(c.eq(S["S1"][i], D1 / V), "S1 is the power at the driving harmonics over the variance of its block")
            c.prove(c.eq(S["ST"][i], 1.0 - Dt / V), "ST is one minus the low-frequency power over the variance of its block")


def confidence(c):
    D = c.int("D", 1, 2)
    N, M, R = 5, 1, 2
    cl = c.choose("conf", [0.95, 0.5])
    c.rng_vary = 3 if c.tier == "quick" else 4
    Y = c.reals("Y", D * N, -10, 10)
    for i in range(D):
        for k in range(N - 1):
            c.assume(Y[i * N + k + 1] - Y[i * N + k] >= 0.5)
    S = c.w.analyze.fast.analyze(problem(c, D), Y.copy(), M=M, num_resamples=R, conf_level=cl, seed=1)
    dr = c.drawn_ints()
    n = 3
    c.prove(len(dr) == D * R * n and all(v == (0, N - 1) for v in c.draws.values()), "each resample draws half of the block with replacement")
    Z = float(norm.ppf(0.5 + cl / 2))
    for i in range(D):
        est = []
        for r in range(R):
            ix = dr[(i * R + r) * n:(i * R + r + 1) * n]
            if len(set(ix)) == 1:
                return
            D1, Dt, V = estimate(c, [Y[i * N + k] for k in ix], M)
            est.append((D1 / V, 1.0 - Dt / V))
        for q, key in ((0, "S1_conf"), (1, "ST_conf")):
            v = S[key][i]
            c.prove(c.near(v * v, Z * Z * var([e[q] for e in est], 1), tol=1e-7), key + " is the bootstrap spread of the same estimator")


def confidence_larger(c):
    """Resamples long enough to have power below the driving frequency."""
    D = c.int("D", 1, 2)
    N = c.choose("N", [9, 10, 12])
    n, R = -(-N // 2), 2
    cl = c.choose("conf", [0.95, 0.5])
    Y = [float((3 * k * k + 5 * k + i) % 11) for i in range(D) for k in range(N)]
    free = c.int("free", 0, N - 1) if c.tier == "thorough" else c.choose("free", [0, 4, N - 1])
    i = c.int("block", 0, D - 1)
    Y[i * N + free] = c.real("y", -10, 10)
    S = c.w.analyze.fast.analyze(problem(c, D), c.array(c.w_obj(Y)), M=1, num_resamples=R, conf_level=cl, seed=1)
    dr = c.drawn_ints()
    c.prove(len(dr) == D * R * n and all(v == (0, N - 1) for v in c.draws.values()), "each resample draws half of the block with replacement")
    if len(dr) != D * R * n:
        return
    Z = float(norm.ppf(0.5 + cl / 2))
    for i in range(D):
        est = []
        for r in range(R):
            ix = dr[(i * R + r) * n:(i * R + r + 1) * n]
            D1, Dt, V = estimate(c, [Y[i * N + k] for k in ix], 1)
            c.assume(V >= 0.01)
            est.append((D1 / V, 1.0 - Dt / V))
        for q, key in ((0, "S1_conf"), (1, "ST_conf")):
            v = S[key][i]
            c.prove(c.near(v * v, Z * Z * var([e[q] for e in est], 1), tol=1e-7), key + " is the bootstrap spread of the same estimator")


def invariance(c):
    D = c.int("D", 1, 2)
    N = c.choose("N", [5, 6]) if D == 1 else 5
    Y = c.reals("Y", D * N, -10, 10)
    for i in range(D):
        spread(c, Y[i * N:(i + 1) * N])
    s, t = c.real("scale", 0.5, 4), c.real("shift", -5, 5)
    sg = c.choose("sign", [1, -1])
    a = c.w.analyze.fast.analyze
    S = a(problem(c, D), Y.copy(), M=1, num_resamples=2, seed=1)
    Q = a(problem(c, D), Y * (s * sg) + t, M=1, num_resamples=2, seed=1)
    for k in ("S1", "ST"):
        c.prove_all_eq(Q[k], S[k], k + " unchanged by scaling and shifting the outputs", tol=1e-6)
    for i in range(D):
        c.prove(c.all([S["S1"][i] >= -1e-9, S["S1"][i] <= 1 + 1e-9, S["ST"][i] >= -1e-9, S["ST"][i] <= 1 + 1e-9]), "indices lie in [0,1]")


def rejects(c):
    D = c.int("D", 2, 4)
    n = c.int("n", 5 * D, 5 * D + D - 1)
    Y = c.reals("Y", n, -10, 10)
    if n % D:
        c.prove(raises(ValueError, c.w.analyze.fast.analyze, problem(c, D), Y, M=1, num_resamples=2), "length not a multiple of the parameter count is rejected")
    else:
        c.prove(True, "accepted")


def cosine(c):
    """A block oscillating at its driving frequency has S1 = 1; at a low frequency ST = 0."""
    N = c.choose("N", [17, 33])
    M = 2
    w = (N - 1) // (2 * M)
    a, t = c.real("amplitude", 0.5, 5), c.real("shift", -5, 5)
    h = c.int("harmonic", 1, M)
    Y = [t + a * math.cos(2 * math.pi * ((w * h * k) % N) / N) for k in range(N)] + \
        [t + a * math.sin(2 * math.pi * k / N) for k in range(N)]
    Y = c.array(c.w_obj(Y)) if not c.concrete else np.array([float(v) for v in Y])
    S = c.w.analyze.fast.analyze(problem(c, 2), Y, M=M, num_resamples=2, seed=1)
    c.prove(c.near(S["S1"][0], 1.0, tol=1e-6), "pure driving frequency gives S1 = 1")
    c.prove(c.near(S["ST"][0], 1.0, tol=1e-6), "pure driving frequency gives ST = 1")
    c.prove(c.near(S["S1"][1], 0.0, tol=1e-6), "pure low frequency gives S1 = 0")
    c.prove(c.near(S["ST"][1], 0.0, tol=1e-6), "pure low frequency gives ST = 0")
