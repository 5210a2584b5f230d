"""RBD-FAST."""
import itertools
import math

import numpy as np
from scipy.stats import norm

from vf.lib import *

BOUNDS = ("D=1: N=6 with 103 (all 720 thorough) orderings of the input and N=7 with 52 (459 thorough), M=1; D=2: every pair from 3 (6) orderings per column; "
          "N in 8..17 (21), M in {1,3} with one ordering; all real inputs (distinct) and outputs |y|<=10; confidence: N=6, 2 resamples with every draw (quick: three draws free), and N in {8,11,14} with one free output and fixed pseudo-random draws")


def harnesses(tier):
    return [("indices", {"rng_const": True, "budget": 250}), ("columns", {"rng_const": True, "budget": 150}), ("longer", {"rng_const": True}),
            ("confidence", {"budget": 150}), ("confidence_larger", {"rng_hash": True, "budget": 150}), ("invariance", {"rng_const": True, "budget": 150})]


def first(c, y, M):
    """Power at harmonics 1..M over all power of the reordered outputs (one-sided, mean removed)."""
    N = len(y)
    P = []
    for k in range(1, N // 2 + 1):
        re = im = 0.0
        for n in range(N):
            a = 2 * math.pi * ((k * n) % N) / N
            re = re + y[n] * math.cos(a)
            im = im + y[n] * math.sin(a)
        p = re * re + im * im
        P.append(p if 2 * k == N else 2 * p)
    V = sum(P[1:], P[0])
    D1 = sum(P[1:M], P[0])
    return D1 / V


def index(c, order, Y, M):
    """order: sample numbers by increasing input value."""
    N = len(order)
    up, down = order[::2], order[1::2][::-1]
    S = first(c, [Y[i] for i in up + down], M)
    lam = 2.0 * M / N
    return S - lam / (1 - lam) * (1 - S)


def ordered(c, X, j, order):
    for a, b in zip(order, order[1:]):
        c.assume(X[b, j] - X[a, j] >= 0.01)


def orders(n):
    return [list(p) for p in itertools.permutations(range(n))]


def spread(c, Y):
    c.assume(Y[0] - Y[1] >= 1)
    c.assume(Y[2] - Y[0] >= 0.5)


def indices(c):
    N = c.choose("N", [6, 7])
    M = 1
    al = orders(N)
    st = (7 if N == 6 else 97) if c.tier == "quick" else (1 if N == 6 else 11)
    o = c.choose("order", al[::st])
    X = c.reals("X", (N, 1), -10, 10)
    ordered(c, X, 0, o)
    Y = c.reals("Y", N, -10, 10)
    spread(c, Y)
    S = c.w.analyze.rbd_fast.analyze(problem(c, 1), X.copy(), Y.copy(), M=M, num_resamples=2, seed=1)
    c.prove(list(S["names"]) == names(1) and len(S["S1"]) == 1, "one value per parameter")
    c.prove(c.eq(S["S1"][0], index(c, o, Y, M)), "unskewed power ratio of the outputs reordered by the input")


def columns(c):
    N, M = 6, 1
    k = [0, 377, 601] if c.tier == "quick" else [0, 377, 601, 190, 501, 719]
    o = [c.choose("order%d" % j, [orders(N)[i] for i in k]) for j in range(2)]
    X = c.reals("X", (N, 2), -10, 10)
    for j in range(2):
        ordered(c, X, j, o[j])
    Y = c.reals("Y", N, -10, 10)
    spread(c, Y)
    S = c.w.analyze.rbd_fast.analyze(problem(c, 2), X.copy(), Y.copy(), M=M, num_resamples=2, seed=1)
    for j in range(2):
        c.prove(c.eq(S["S1"][j], index(c, o[j], Y, M)), "each parameter uses its own column's ordering")


def longer(c):
    N = c.choose("N", [8, 9, 14, 17] + ([15, 21] if c.tier == "thorough" else []))
    M = c.choose("M", [1, 3] if N > 13 else [1])
    o = [(i * 5 + 2) % N for i in range(N)] if N % 5 else list(range(N))[::-1]
    X = c.reals("X", (N, 1), -10, 10)
    ordered(c, X, 0, o)
    Y = c.reals("Y", N, -10, 10)
    spread(c, Y)
    S = c.w.analyze.rbd_fast.analyze(problem(c, 1), X.copy(), Y.copy(), M=M, num_resamples=2, seed=1)
    c.prove(c.eq(S["S1"][0], index(c, o, Y, M)), "unskewed power ratio of the outputs reordered by the input")


def confidence(c):
    N, M, R, n = 6, 1, 2, 3
    D = c.int("D", 1, 2)
    cl = c.choose("conf", [0.95, 0.5]) if D == 1 else 0.9
    c.rng_vary = 3 if c.tier == "quick" else 4
    Xc = np.array([[float(i), float((i * 5 + 1) % 6)] for i in range(N)])[:, :D]
    X = Xc if c.concrete else c.array(c.w_obj(Xc.tolist()))
    Y = c.reals("Y", N, -10, 10)
    for k in range(N - 1):
        c.assume(Y[k + 1] - Y[k] >= 0.5)
    S = c.w.analyze.rbd_fast.analyze(problem(c, D), X, Y.copy(), M=M, num_resamples=R, conf_level=cl, seed=1)
    dr = c.drawn_ints()
    c.prove(len(dr) == D * R * n and all(v == (0, N - 1) for v in c.draws.values()), "each resample draws half of the sample with replacement")
    Z = float(norm.ppf(0.5 + cl / 2))
    for j in range(D):
        est = []
        for r in range(R):
            ix = dr[(j * R + r) * n:(j * R + r + 1) * n]
            if len(set(ix)) == 1:
                return
            est.append(index(c, sorted(range(n), key=lambda q: Xc[ix[q], j]), [Y[i] for i in ix], M))
        v = S["S1_conf"][j]
        c.prove(c.near(v * v, Z * Z * var(est, 1), tol=1e-6), "S1_conf is the bootstrap spread of the same estimator")


def confidence_larger(c):
    """Resamples with more than one frequency."""
    N, R = c.choose("N", [8, 11, 14]), 2
    M = c.choose("M", [1] if N < 14 else [1, 2]) if N < 14 or c.tier == "thorough" else 1
    n = N // 2
    D = c.int("D", 1, 2)
    cl = c.choose("conf", [0.95, 0.5])
    Xc = np.array([[float(i), float((i * 3 + 1) % N)] for i in range(N)])[:, :D]
    X = Xc if c.concrete else c.array(c.w_obj(Xc.tolist()))
    Y = [float((3 * k * k + 5 * k) % 11) / 8 - 0.75 for k in range(N)]
    Y[c.int("free", 0, N - 1) if c.tier == "thorough" else c.choose("free", [0, 4, N - 1])] = c.real("y", -1, 1)
    S = c.w.analyze.rbd_fast.analyze(problem(c, D), X, c.array(c.w_obj(Y)), M=M, num_resamples=R, conf_level=cl, seed=1)
    dr = c.drawn_ints()
    c.prove(len(dr) == D * R * n and all(v == (0, N - 1) for v in c.draws.values()), "each resample draws half of the sample with replacement")
    if len(dr) != D * R * n:
        return
    Z = float(norm.ppf(0.5 + cl / 2))
    for j in range(D):
        est = []
        for r in range(R):
            ix = dr[(j * R + r) * n:(j * R + r + 1) * n]
            ys = [Y[i] for i in ix]
            c.assume(var(ys, 0) >= 0.01)
            est.append(index(c, sorted(range(n), key=lambda q: Xc[ix[q], j]), ys, M))
        c.assume(c.any([est[0] - est[1] >= 1e-3, est[1] - est[0] >= 1e-3]))
        v = S["S1_conf"][j]
        c.prove(c.near(v * v, Z * Z * var(est, 1), tol=1e-6), "S1_conf is the bootstrap spread of the same estimator")


def invariance(c):
    N, M = 6, 1
    o = c.choose("order", orders(N)[::31])
    X = c.reals("X", (N, 1), -10, 10)
    ordered(c, X, 0, o)
    Y = c.reals("Y", N, -10, 10)
    spread(c, Y)
    s, t, u = c.real("scale", 0.5, 4), c.real("shift", -5, 5), c.real("xscale", 0.5, 4)
    sg = c.choose("sign", [1, -1])
    a = c.w.analyze.rbd_fast.analyze
    S = a(problem(c, 1), X.copy(), Y.copy(), M=M, num_resamples=2, seed=1)
    Q = a(problem(c, 1), X * u + t, Y * (s * sg) + t, M=M, num_resamples=2, seed=1)
    c.prove_all_eq(Q["S1"], S["S1"], "unchanged by increasing maps of the input and affine maps of the outputs", tol=1e-6)
