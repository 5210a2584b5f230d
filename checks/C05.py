"""Sobol bootstrap confidence, parallel = serial, invariance."""
import itertools

import numpy as np
from scipy.stats import norm

from vf.lib import *

BOUNDS = ("D in 1..2 parameters, N in 2 (3 thorough) base points, 2..3 resamples with every possible draw, all real "
          "outputs |y|<=10; D up to 5 (8) parameters or groups, N up to 5 (9), 4 (7) resamples with fixed unequal draws and outputs u+a*v, every real |a|<=5; parallel: 1..5 processors or the machine's count, every completion order of <=4 tasks")


def harnesses(tier):
    return [("bootstrap", {"budget": 200}), ("bootstrap_many", {"rng_hash": True}), ("degenerate", {"rng_const": True}),
            ("parallel", {"rng_const": True, "pool_order": True, "cpus": True, "budget": 200}),
            ("parallel_wide", {"rng_const": True, "cpus": True}),
            ("invariance", {"rng_const": True})]


def rows(c, Y, D, N, second):
    step = 2 * D + 2 if second else D + 2
    A = [Y[i * step] for i in range(N)]
    B = [Y[i * step + step - 1] for i in range(N)]
    AB = [[Y[i * step + 1 + j] for i in range(N)] for j in range(D)]
    BA = [[Y[i * step + 1 + D + j] for i in range(N)] for j in range(D)] if second else None
    return A, B, AB, BA


def ests(A, B, AB, BA, m, ix, D, second):
    """All estimators on the base points ix."""
    v = var([A[i] for i in ix] + [B[i] for i in ix])
    S1 = [mean([(B[i] - m) * (AB[j][i] - A[i]) for i in ix]) / v for j in range(D)]
    ST = [mean([(A[i] - AB[j][i]) * (A[i] - AB[j][i]) for i in ix]) / v / 2 for j in range(D)]
    S2 = {}
    if second:
        for j in range(D):
            for k in range(j + 1, D):
                S2[j, k] = mean([(BA[j][i] - m) * (AB[k][i] - m) - (A[i] - m) * (B[i] - m)
                                 for i in ix]) / v - S1[j] - S1[k]
    return S1, ST, S2


def bootstrap(c):
    D = c.int("D", 1, 2)
    N = c.int("N", 2, 3 if c.tier == "thorough" and D == 1 else 2)
    R = c.int("R", 2, 3 if D == 1 and N == 2 else 2)
    second = D == 2
    step = 2 * D + 2 if second else D + 2
    Y = c.reals("Y", N * step, -10, 10)
    A, B, AB, BA = rows(c, Y, D, N, second)
    # one ordering of A,B values suffices to keep every resample non-degenerate
    for i in range(N):
        c.assume(A[i] - B[i] >= 0.1)
    cl = c.choose("conf", [0.95, 0.5]) if D == 1 and R == 2 else 0.9
    if D == 2 and c.tier == "quick":
        c.rng_vary = 2
    m = mean([Y[i] for i in range(N * step)])
    par = c.choose("parallel", [False, True])
    Si = c.w.analyze.sobol.analyze(problem(c, D), Y.copy(), calc_second_order=second, num_resamples=R, seed=3,
                                   conf_level=cl, keep_resamples=True, parallel=par, n_processors=2 if par else None)
    dr = list(getattr(c, "draws", {}).values())
    c.prove(len(dr) == N * R and all(d == (0, N - 1) for d in dr),
            "each of the resamples draws N base points with replacement from all N")
    Z = float(norm.ppf(0.5 + cl / 2))
    multis = list(itertools.combinations_with_replacement(range(N), N))
    table = [ests(A, B, AB, BA, m, ix, D, second) for ix in multis]
    match = []
    for s in range(R):
        cand = []
        for q, (S1, ST, S2) in enumerate(table):
            parts = []
            for j in range(D):
                parts.append(c.eq(Si["S1_conf_all"][s, j], S1[j]))
                parts.append(c.eq(Si["ST_conf_all"][s, j], ST[j]))
                if parts[-1] is False:
                    break
            cand.append(c.all(parts))
            if cand[-1] is True or cand[-1] is np.True_:
                match.append(q)
                break
        c.prove(c.any(cand), "kept resample = every index recomputed on one bootstrap draw of base points")
    for j in range(D):
        for k in ("S1", "ST"):
            col = [Si[k + "_conf_all"][s, j] for s in range(R)]
            c.prove(c.eq(Si[k + "_conf"][j] * Si[k + "_conf"][j], Z * Z * var(col, 1), tol=1e-6),
                    k + " confidence is quantile times std of the resampled index")
            c.prove(Si[k + "_conf"][j] >= 0, "confidence non-negative")
    if second and len(match) == R:
        col = [table[q][2][0, 1] for q in match]
        c.prove(c.eq(Si["S2_conf"][0, 1] * Si["S2_conf"][0, 1], Z * Z * var(col, 1), tol=1e-6),
                "second-order confidence comes from the same bootstrap draws")


def bootstrap_many(c):
    """More parameters, base points and resamples: given draws, outputs along a line."""
    t = c.tier == "thorough"
    D, N, R = c.choose("size", [(3, 4, 3), (4, 5, 4), (5, 3, 2)] + ([(6, 6, 5), (8, 9, 7)] if t else []))
    g = c.choose("groups", [None, ["g%d" % (k % D) for k in range(2 * D - 1)]])
    second = c.choose("second", [True, False])
    par = c.choose("parallel", [None, 2, 3])
    cl = c.choose("conf", [0.95, 0.6]) if D == 3 else 0.9
    step = 2 * D + 2 if second else D + 2
    a = c.real("a", -5, 5)
    Y = c.array(c.w_obj([((i * 7919 + 13) % 101) / 25.0 + a * (((i * 104729 + 7) % 89) / 44.0) for i in range(N * step)]))
    A, B, AB, BA = rows(c, Y, D, N, second)
    m = mean([Y[i] for i in range(N * step)])
    Si = c.w.analyze.sobol.analyze(problem(c, len(g) if g else D, None, g), Y.copy(), calc_second_order=second, num_resamples=R, seed=3,
                                   conf_level=cl, keep_resamples=True, parallel=par is not None, n_processors=par)
    d = c.drawn_ints()
    c.prove(len(d) == N * R, "each of the resamples draws N base points with replacement from all N")
    if len(d) != N * R:
        return
    Z = float(norm.ppf(0.5 + cl / 2))
    ways = [[[d[i * R + s] for i in range(N)] for s in range(R)], [d[s * N:(s + 1) * N] for s in range(R)]]
    fit = None
    for w in ways:
        E = [ests(A, B, AB, BA, m, ix, D, second) for ix in w]
        if bool(c.eq(Si["S1_conf_all"][0, 0], E[0][0][0])):
            fit = E
            break
    c.prove(fit is not None, "the first resample is recomputed on one bootstrap draw")
    if fit is None:
        return
    for j in range(D):
        for s in range(R):
            c.prove(c.eq(Si["S1_conf_all"][s, j], fit[s][0][j]), "first-order resamples use the same draws for every parameter")
            c.prove(c.eq(Si["ST_conf_all"][s, j], fit[s][1][j]), "total-order resamples use the same draws for every parameter")
        for k, q in (("S1", 0), ("ST", 1)):
            v = var([fit[s][q][j] for s in range(R)], 1)
            c.prove(c.eq(Si[k + "_conf"][j] * Si[k + "_conf"][j], Z * Z * v, tol=1e-6), k + " confidence is quantile times std of the resampled index")
        if second:
            for k in range(j + 1, D):
                v = var([fit[s][2][j, k] for s in range(R)], 1)
                c.prove(c.eq(Si["S2_conf"][j, k] * Si["S2_conf"][j, k], Z * Z * v, tol=1e-6), "second-order confidence comes from the same draws")


def degenerate(c):
    """All A and B outputs equal: no spread to report, serial and parallel alike."""
    D = c.int("D", 1, 2)
    N = 2
    second = c.choose("second", [False, True])
    step = 2 * D + 2 if second else D + 2
    Y = c.reals("Y", N * step, -10, 10)
    v = c.real("const", -5, 5)
    for i in range(N):
        Y[i * step] = v
        Y[i * step + step - 1] = v
    allc = c.choose("all_constant", [False, True])
    if allc:
        for i in range(N * step):
            Y[i] = v
    else:
        c.assume(Y[1] - v >= 0.5)
    for par in (False, True):
        Si = c.w.analyze.sobol.analyze(problem(c, D), Y.copy(), calc_second_order=second, num_resamples=2, seed=1,
                                       parallel=par, n_processors=1 if par else None)
        for k in ("S1", "ST", "S1_conf", "ST_conf"):
            c.prove_all_eq(Si[k], [0.0] * D, "constant outputs give zero " + k)
        if second and D == 2:
            c.prove(c.all([c.eq(Si["S2"][0, 1], 0.0), c.eq(Si["S2_conf"][0, 1], 0.0)]),
                    "constant outputs give zero second order")


def parallel(c):
    D = c.int("D", 1, 3 if c.tier == "thorough" else 2)
    N = 2
    second = c.choose("second", [True, False])
    step = 2 * D + 2 if second else D + 2
    Y = c.reals("Y", N * step, -10, 10)
    A, B, AB, BA = rows(c, Y, D, N, second)
    for i in range(N):
        c.assume(A[i] - B[i] >= 0.1)
    npr = c.choose("processors", [None, 1, 2, 3] + ([4, 5, 9] if c.tier == "thorough" else [7]))
    a = c.w.analyze.sobol.analyze
    S = a(problem(c, D), Y.copy(), calc_second_order=second, num_resamples=2, seed=3, keep_resamples=True)
    Q = a(problem(c, D), Y.copy(), calc_second_order=second, num_resamples=2, seed=3, keep_resamples=True,
          parallel=True, n_processors=npr)
    c.prove(sorted(S) == sorted(Q), "same tables in parallel")
    for k in S:
        if k in Q:
            c.prove_all_eq(Q[k], S[k], "parallel " + k + " equals serial")


def parallel_wide(c):
    """Task lists of many parameters (more pairs than single indices, fewer tasks than processors...)."""
    D = c.choose("D", [4, 6] + ([1, 5, 7, 8, 10] if c.tier == "thorough" else []))
    second = c.choose("second", [True, False])
    step = 2 * D + 2 if second else D + 2
    Y = c.reals("Y", 2 * step, -10, 10)
    for i in range(2):
        c.assume(Y[i * step] - Y[i * step + step - 1] >= 0.1)
    npr = c.choose("processors", [None, 2, 64] + ([1, 3, 7] if c.tier == "thorough" else []))
    a = c.w.analyze.sobol.analyze
    S = a(problem(c, D), Y.copy(), calc_second_order=second, num_resamples=2, seed=3, keep_resamples=True)
    Q = a(problem(c, D), Y.copy(), calc_second_order=second, num_resamples=2, seed=3, keep_resamples=True,
          parallel=True, n_processors=npr)
    c.prove(sorted(S) == sorted(Q), "same tables in parallel")
    for k in S:
        if k in Q:
            c.prove_all_eq(Q[k], S[k], "parallel " + k + " equals serial for many parameters")


def invariance(c):
    D = c.int("D", 1, 2)
    N = c.int("N", 1, 2)
    second = c.choose("second", [True, False])
    step = 2 * D + 2 if second else D + 2
    Y = c.reals("Y", N * step, -10, 10)
    A, B, AB, BA = rows(c, Y, D, N, second)
    for i in range(N):
        c.assume(A[i] - B[i] >= 0.1)
    s = c.real("scale", 0.5, 4)
    sg = c.choose("sign", [1, -1])
    t = c.real("shift", -5, 5)
    a = c.w.analyze.sobol.analyze
    S = a(problem(c, D), Y.copy(), calc_second_order=second, num_resamples=2, seed=3)
    Q = a(problem(c, D), Y * (s * sg) + t, calc_second_order=second, num_resamples=2, seed=3)
    for k in ("S1", "ST"):
        c.prove_all_eq(Q[k], S[k], k + " unchanged by scaling and shifting the outputs", tol=1e-6)
    if second and D == 2:
        c.prove(c.eq(Q["S2"][0, 1], S["S2"][0, 1], tol=1e-6), "S2 unchanged by scaling and shifting")
