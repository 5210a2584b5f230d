"""Morris analysis."""
import itertools

import numpy as np
from scipy.stats import norm

from vf.lib import *

BOUNDS = ("D in 1..3 parameters, every grouping, N in 1..2 trajectories (3 thorough for D=1), levels in {2,4,6,10}; every direction and order of movement "
          "(thorough: all combinations for two trajectories), all real base points, ranges and outputs |y|<=10; 2 bootstrap resamples with every draw; "
          "4..6 parameters (8 thorough), 3..5 trajectories, groups, 4 resamples with fixed unequal draws, outputs u+a*v for every real |a|<=5")


def harnesses(tier):
    return [("effects", {"rng_const": True, "budget": 250}), ("many", {"rng_hash": True}), ("confidence", {"budget": 150}), ("scaled", {"rng_const": True, "budget": 150}),
            ("roundtrip", {"rng_vary": 6, "budget": 100})]


def perms(n):
    return list(itertools.permutations(range(n)))


def design(c, D, N, mem, p, ranges=True):
    """Any valid trajectories: base point, order, direction per parameter."""
    G = len(mem)
    delta = p / (2.0 * (p - 1))
    w = [c.real("w%d" % j, 0.1, 5) if ranges else 1.0 for j in range(D)]
    X = np.empty((N * (G + 1), D), dtype=object)
    moves = []
    for t in range(N):
        free = t == 0 or (c.tier == "thorough" and D < 3)
        order = c.choose("order%d" % t, perms(G)) if free else perms(G)[-1]
        sg = [c.choose("dir%d_%d" % (t, j), [1, -1]) if free else (-1) ** (j + t) for j in range(D)]
        row = [c.real("x%d_%d" % (t, j), -3, 3) for j in range(D)]
        X[t * (G + 1)] = row
        for s in range(G):
            row = list(row)
            for j in mem[order[s]]:
                row[j] = row[j] + w[j] * (delta * sg[j])
            X[t * (G + 1) + s + 1] = row
        moves.append((order, sg))
    return c.array(X), moves, w, delta


def effect(c, Y, t, G, moves, k, j, delta):
    order, sg = moves[t]
    s = order.index(k)
    d = Y[t * (G + 1) + s + 1] - Y[t * (G + 1) + s]
    return (d if sg[j] > 0 else -d) / delta


def absv(c, v):
    return abs(v)


def effects(c):
    D = c.int("D", 1, 3)
    p = c.choose("levels", [4, 2, 6, 10]) if D == 1 else 4
    N = c.int("N", 1 if D > 1 else 2, (3 if D == 1 and c.tier == "thorough" else 2) if D < 3 else 1)
    g = group_choice(c, D, single=True)
    P = problem(c, D, None, g)
    mem = members(P)
    G = len(mem)
    if N == 1:
        # sigma needs two trajectories: repeat the design with other outputs
        N = 2
    X, moves, w, delta = design(c, D, N, mem, p, ranges=D < 3)
    Y = c.reals("Y", N * (G + 1), -10, 10)
    S = c.w.analyze.morris.analyze(P, X.copy(), Y.copy(), num_resamples=2, num_levels=p, seed=3)
    c.prove(list(S["names"]) == gnames(P), "one row per factor or group, in order of first appearance")
    for key in ("mu", "mu_star", "sigma", "mu_star_conf"):
        c.prove(len(S[key]) == G, "one value per factor or group")
    for k in range(G):
        ee = [[effect(c, Y, t, G, moves, k, j, delta) for t in range(N)] for j in mem[k]]
        c.prove(c.near(S["mu"][k], mean([mean(e) for e in ee])), "mu is the mean elementary effect")
        c.prove(c.near(S["mu_star"][k], mean([absv(c, e) for e in ee[0]])), "mu_star is the mean absolute elementary effect")
        if len(mem[k]) == 1:
            c.prove(c.all([c.near(S["sigma"][k] * S["sigma"][k], var(ee[0], 1), tol=1e-7), S["sigma"][k] >= 0]),
                    "sigma is the sample standard deviation of the elementary effects")


def many(c):
    """More parameters, trajectories and resamples; fixed trajectories and draws, outputs along a line."""
    t = c.tier == "thorough"
    D, N, R = c.choose("size", [(4, 4, 3), (6, 3, 4), (5, 5, 3)] + ([(8, 7, 6)] if t else []))
    g = c.choose("groups", [None, "mixed"])
    if g:
        g = ["b", "a", "b", "c", "a", "b", "c", "d"][:D]
    p = c.choose("levels", [4, 8])
    cl = c.choose("conf", [0.95, 0.7])
    P = problem(c, D, [[0.0, 1.0 + j] for j in range(D)], g)
    mem = members(P)
    G = len(mem)
    delta = p / (2.0 * (p - 1))
    X, moves = np.empty((N * (G + 1), D)), []
    for q in range(N):
        order = [(k * (2 if G % 2 and q % 2 else 1) + q) % G for k in range(G)]
        sg = [1 if (j * 5 + q * 3) % 4 < 2 else -1 for j in range(D)]
        row = np.array([(1.0 + j) * (0.0 if sg[j] > 0 else delta) for j in range(D)])
        X[q * (G + 1)] = row
        for s in range(G):
            for j in mem[order[s]]:
                row[j] += sg[j] * delta * (1.0 + j)
            X[q * (G + 1) + s + 1] = row
        moves.append((order, sg))
    a = c.real("a", -5, 5)
    # the sign of every step is known: v is an eighth of u
    u = [((i * 7919 + 13) % 101) / 5.0 for i in range(len(X))]
    Y = c.array(c.w_obj([u[i] + a * ((u[i] + (i * 37 % 11) / 40.0) / 8.0) for i in range(len(X))]))
    S = c.w.analyze.morris.analyze(P, c.np.array(X), Y.copy(), num_resamples=R, num_levels=p, conf_level=cl, seed=3)
    c.prove(list(S["names"]) == gnames(P) and all(len(S[k]) == G for k in ("mu", "mu_star", "sigma", "mu_star_conf")), "one value per factor or group")
    d = c.drawn_ints()
    c.prove(len(d) == D * R * N, "every resample draws N effects with replacement from all N")
    Z = float(norm.ppf(0.5 + cl / 2))
    for k in range(G):
        ee = [[effect(c, Y, q, G, moves, k, j, delta) for q in range(N)] for j in mem[k]]
        ae = [[absv(c, v) for v in e] for e in ee]
        c.prove(c.near(S["mu"][k], mean([mean(e) for e in ee])), "mu is the mean elementary effect")
        c.prove(c.near(S["mu_star"][k], mean(ae[0])), "mu_star is the mean absolute elementary effect")
        if len(mem[k]) == 1:
            c.prove(c.near(S["sigma"][k] * S["sigma"][k], var(ee[0], 1), tol=1e-7), "sigma is the sample standard deviation of the elementary effects")
        if len(d) == D * R * N and len(mem[k]) == 1:
            j = mem[k][0]
            w = d[j * R * N:(j + 1) * R * N]
            got = S["mu_star_conf"][k]
            ways = [[[w[s * N + i] for i in range(N)] for s in range(R)], [[w[i * R + s] for i in range(N)] for s in range(R)]]
            c.prove(c.any([c.near(got * got, Z * Z * var([mean([ae[0][i] for i in ix]) for ix in q], 1), tol=1e-6) for q in ways]),
                    "mu_star_conf is the normal quantile times the bootstrap deviation of the mean absolute effect")


def confidence(c):
    D = c.int("D", 1, 2)
    N, R = 2, 2
    g = c.choose("groups", [None, ["g", "g"]]) if D == 2 else None
    if D == 2 and c.tier == "quick":
        c.rng_vary = 6
    P = problem(c, D, None, g)
    mem = members(P)
    G = len(mem)
    moves = [(tuple(range(G)), [1] * D)] * N
    delta = 2 / 3.0
    X = np.empty((N * (G + 1), D), dtype=object)
    for t in range(N):
        for s in range(G + 1):
            for j in range(D):
                X[t * (G + 1) + s, j] = np.float64(delta if any(j in mem[k] for k in range(s)) else 0.0)
    X = c.array(X)
    Y = c.reals("Y", N * (G + 1), -10, 10)
    if D == 2:  # signs are D=1's business
        for s in range(G):
            c.assume(Y[s + 1] - Y[s] >= 0)
            c.assume(Y[s + 1] - Y[s] >= Y[G + 2 + s] - Y[G + 1 + s])
            c.assume(Y[G + 2 + s] - Y[G + 1 + s] >= 0)
    cl = c.choose("conf", [0.95, 0.5]) if D == 1 else 0.9
    S = c.w.analyze.morris.analyze(P, X, Y.copy(), num_resamples=R, conf_level=cl, seed=3)
    dr = list(getattr(c, "draws", {}).values())
    c.prove(len(dr) == D * R * N and all(d == (0, N - 1) for d in dr), "every resample draws N effects with replacement from all N")
    Z = float(norm.ppf(0.5 + cl / 2))
    multis = list(itertools.combinations_with_replacement(range(N), N))
    for k in range(G):
        ae = [absv(c, effect(c, Y, t, G, moves, k, mem[k][0], delta)) for t in range(N)]
        res = [mean([ae[i] for i in ix]) for ix in multis]
        got = S["mu_star_conf"][k]
        c.prove(got >= 0, "confidence non-negative")
        pairs = list(itertools.combinations_with_replacement(res, R))
        # group members resample the same absolute effects independently; their spread is averaged
        m = len(mem[k])
        if m == 1:
            c.prove(c.any([c.near(got * got, Z * Z * var(list(q), 1), tol=1e-6) for q in pairs]),
                    "mu_star_conf is the normal quantile times the bootstrap deviation of the mean absolute effect")
        else:
            sd = [Z * absv(c, a - b) / 2 ** 0.5 for a, b in pairs]
            c.prove(c.any([c.near(got, (x + y) / 2, tol=1e-6) for x in sd for y in sd]),
                    "a group's confidence averages its members'")
    for bad in (0, 1, 1.5, -0.1):
        c.prove(raises(ValueError, c.w.analyze.morris.analyze, dict(P), X, Y.copy(), conf_level=bad, num_resamples=2),
                "confidence levels outside (0,1) are rejected")


def scaled(c):
    D = c.int("D", 1, 2)
    N = 2
    g = None
    P = problem(c, D, None, g)
    mem = members(P)
    G = D
    X, moves, w, delta = design(c, D, N, mem, 4, ranges=D == 1)
    Y = c.reals("Y", N * (G + 1), -10, 10)
    flat = c.choose("flat", [None, 0])
    for t in range(N):
        if t == flat:
            for s in range(G):
                Y[t * (G + 1) + s + 1] = Y[t * (G + 1)]
        else:
            c.assume(Y[t * (G + 1)] - Y[t * (G + 1) + G] >= 0.5)
    S = c.w.analyze.morris.analyze(P, X.copy(), Y.copy(), num_resamples=2, scaled=True, seed=3)
    for k in range(G):
        ee = []
        for t in range(N):
            if t == flat:
                ee.append(0.0)
                continue
            xs = [X[t * (G + 1) + s, k] for s in range(G + 1)]
            ys = [Y[t * (G + 1) + s] for s in range(G + 1)]
            e = effect(c, Y, t, G, moves, k, k, delta) / w[k]
            ee.append(e * c.np.sqrt(var(xs)) / c.np.sqrt(var(ys)))
        c.prove(c.near(S["mu"][k], mean(ee), tol=1e-6), "scaled effects are multiplied by std(x)/std(y) of their trajectory")
        c.prove(c.near(S["mu_star"][k], mean([absv(c, e) for e in ee]), tol=1e-6), "scaled mu_star averages absolute scaled effects")


def roundtrip(c):
    """Sampler and analyser fit: a linear model's effects are its coefficients times the ranges."""
    D = c.int("D", 1, 3)
    p = c.choose("levels", [4, 6])
    g = c.choose("groups", [None] + ([["g", "g"]] if D == 2 else [["u", "v", "u"]] if D == 3 else []))
    c.rng_vary = 7 if c.tier == "quick" else 10
    b = [[-1.0, 3.0], [10.0, 12.0], [0.0, 0.5]][:D]
    P = problem(c, D, b, g)
    X = c.w.sample.morris.sample(dict(P), 2, num_levels=p, seed=7)
    a = [c.real("a%d" % j, -5, 5) for j in range(D)]
    k0 = c.real("k", -5, 5)
    Y = np.empty(len(X), dtype=object)
    for i in range(len(X)):
        v = k0
        for j in range(D):
            v = v + a[j] * float(X[i, j])
        Y[i] = v
    S = c.w.analyze.morris.analyze(dict(P), X, c.array(Y), num_resamples=2, num_levels=p, seed=1)
    if not g:
        for j in range(D):
            w = b[j][1] - b[j][0]
            c.prove(c.all([c.near(S["mu"][j], a[j] * w, tol=1e-7), c.near(S["mu_star"][j], absv(c, a[j]) * w, tol=1e-7),
                           c.near(S["sigma"][j], 0.0, tol=1e-5), c.near(S["mu_star_conf"][j], 0.0, tol=1e-5)]),
                    "a linear model's effects are its coefficients")
    else:
        for k, m in enumerate(members(P)):
            tot = 0.0
            for j in m:
                tot = tot + absv(c, a[j]) * (b[j][1] - b[j][0])
            c.prove(S["mu_star"][k] <= tot + 1e-7, "group effect bounded by its members' effects")
