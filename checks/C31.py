"""Groups across the whole pipeline: utilities, designs and analyses together."""
import itertools

import numpy as np

from vf.lib import *

BOUNDS = ("utilities: every grouping of 1..5 parameters (6 thorough) under several label orders; sampling followed by analysis (Sobol, Saltelli, Morris): every grouping of 3 parameters and a spread "
          "of groupings of 4 (all thorough), the outputs an arbitrary real function |y|<=10 of one group's columns; PAWN, RSA and discrepancy: every grouping of 3 inputs, all outputs in a fixed "
          "order; equivalence of own names, no groups and a missing entry; every too short, too long and single grouping of 2..4 parameters")
ASSUMPTIONS = ["the designs of the sample-then-analyse harnesses use fixed pseudo-random points; layout for all points is C03's and C08's business"]

POOL = ["gB", "gA", "gC", "gD", "gE", "gF"]
ORDERS = [[0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0], [2, 0, 4, 1, 5, 3]]


def harnesses(tier):
    return [("utilities", {}), ("sobol_follows", {"rng_hash": True, "rng_real_const": True}), ("morris_follows", {"rng_hash": True, "rng_real_const": True}),
            ("means", {}), ("own_names", {"rng_hash": True, "rng_real_const": True}), ("rejects", {"rng_hash": True, "rng_real_const": True}),
            ("front_ends", {})]


def labels(c, d, least=1, spread=0):
    ps = [p for p in partitions(d) if len(set(p)) >= least]
    if spread and len(ps) > spread:
        ps = ps[::max(1, len(ps) // spread)]
    p = c.choose("grouping", ps)
    o = c.choose("label order", ORDERS)
    return [POOL[o[k]] for k in p]


def utilities(c):
    D = c.int("D", 1, 6 if c.tier == "thorough" else 5)
    g = labels(c, D)
    p = problem(c, D, None, g)
    want = gnames(p)
    nm, k = c.w.util.extract_group_names(p)
    c.prove([str(v) for v in nm] == want and int(k) == len(want), "group names in order of first appearance")
    M, nm = c.w.util.compute_groups_matrix(list(g))
    c.prove([str(v) for v in nm] == want, "groups are numbered by first appearance")
    c.prove(tuple(M.shape) == (D, len(want)), "one row per parameter, one column per group")
    M = np.array([[int(M[i, j]) for j in range(len(want))] for i in range(D)])
    c.prove(all(M[i, j] == (g[i] == want[j]) for i in range(D) for j in range(len(want))), "every parameter belongs to the group at its position, and to no other")
    for q in (None, []):
        nm, k = c.w.util.extract_group_names(problem(c, D) if q is None else dict(problem(c, D), groups=q))
        c.prove([str(v) for v in nm] == names(D) and int(k) == D, "without groups every parameter stands for itself")


def respond(c, X, cols, N):
    """An arbitrary function of some columns: one real per distinct combination of their values."""
    memo, out = {}, []
    for i in range(N):
        k = tuple(round(float(X[i, j]), 9) for j in cols)
        if k not in memo:
            memo[k] = c.real("f%d" % len(memo), -10, 10)
        out.append(memo[k])
    return c.array(c.w_obj(out)), list(memo.values())


def sobol_follows(c):
    D = c.choose("D", [3, 4])
    which = c.choose("design", ["sobol", "saltelli"])
    g = labels(c, D, 2, 0 if D == 3 or c.tier == "thorough" else 7)
    p = problem(c, D, [[0.0, 2.0 + j] for j in range(D)], g)
    gn, mem = gnames(p), members(p)
    k = c.int("group", 0, len(gn) - 1)
    second = c.choose("second", [False, True] if D == 3 else [False])
    N = 2
    f = getattr(c.w.sample, which).sample
    X = f(dict(p), N, calc_second_order=second, **({"skip_values": 8, "scramble": True, "seed": 5} if which == "sobol" else {"skip_values": 8}))
    Y, vals = respond(c, X, mem[k], len(X))
    st = 2 * len(gn) + 2 if second else len(gn) + 2
    c.prove(len(X) == N * st, "one block per group")
    if len(X) != N * st:
        return
    ends = [Y[i * st + e] for i in range(N) for e in (0, st - 1)]
    c.assume(c.any([a - b >= 0.1 for a in ends for b in ends if a is not b]))
    S = c.w.analyze.sobol.analyze(p, Y.copy(), calc_second_order=second, num_resamples=2, seed=3)
    c.prove(len(S["ST"]) == len(gn), "one index per group")
    for q in range(len(gn)):
        if q != k:
            c.prove(c.near(S["ST"][q], 0.0, tol=1e-9), "a group the outputs do not depend on has no effect")
            c.prove(c.near(S["S1"][q], 0.0, tol=1e-9), "a group the outputs do not depend on has no effect")
    t, s = S.to_df()[:2]
    c.prove([str(v) for v in t.index] == gn and [str(v) for v in s.index] == gn, "rows are labelled by the groups in order of first appearance")


def morris_follows(c):
    D = c.choose("D", [3, 4])
    g = labels(c, D, 1, 0 if D == 3 or c.tier == "thorough" else 7)
    p = problem(c, D, [[0.0, 2.0 + j] for j in range(D)], g)
    gn, mem = gnames(p), members(p)
    k = c.int("group", 0, len(gn) - 1)
    N = 2
    X = c.w.sample.morris.sample(p, N, num_levels=4, seed=5)
    c.prove(len(X) == N * (len(gn) + 1), "one step per group")
    if len(X) != N * (len(gn) + 1):
        return
    Y, vals = respond(c, X, mem[k], len(X))
    c.assume(c.any([a - b >= 0.1 for a in vals for b in vals if a is not b]) if len(vals) > 1 else True)
    S = c.w.analyze.morris.analyze(p, X, Y.copy(), num_resamples=2, num_levels=4, seed=3)
    c.prove([str(v) for v in S["names"]] == gn and len(S["mu_star"]) == len(gn), "one measure per group in order of first appearance")
    for q in range(len(gn)):
        if q != k:
            c.prove(c.near(S["mu_star"][q], 0.0, tol=1e-9), "a group the outputs do not depend on has no effect")
    if len(vals) == 2 * N:
        d = [abs(vals[2 * t + 1] - vals[2 * t]) / (2 / 3.0) for t in range(N)]
        c.prove(c.near(S["mu_star"][k], mean(d), tol=1e-7), "the group that moves the outputs has their mean absolute effect")


def means(c):
    """Methods without a grouped design average the members' results."""
    D = 3
    g = labels(c, D, 2)
    p, q = problem(c, D, [[-20.0, 20.0]] * D, g), problem(c, D, [[-20.0, 20.0]] * D)
    gn, mem = gnames(p), members(p)
    k = c.choose("method", ["pawn", "rsa", "discrepancy"])
    N = 8 if k == "rsa" else 5
    xo = [list(range(N)), [(3 * i + 1) % N for i in range(N)], [(7 * i + 2) % N for i in range(N)][::-1]]
    if k == "discrepancy":
        N = 2
        X = c.w_obj([[c.real("x%d_%d" % (i, j), -10, 10) for j in range(D)] for i in range(N)])
        X = c.array(X)
        y = [c.real("y0", -5, 5)]
        Y = c.array(c.w_obj(y + [y[0] + c.real("gap", 0.1, 3)]))
        f = lambda P: c.w.analyze.discrepancy.analyze(P, X.copy(), Y.copy())
        keys = ["s_discrepancy"]
    else:
        X = columns(c, [increasing(c, "x%d" % j, xo[j]) for j in range(D)])
        Y = c.array(c.w_obj(increasing(c, "y", [(5 * i + 3) % N for i in range(N)])))
        if k == "pawn":
            f = lambda P: c.w.analyze.pawn.analyze(P, X.copy(), Y.copy(), S=2, seed=1)
            keys = ["minimum", "mean", "median", "maximum"]
        else:
            f = lambda P: c.w.analyze.rsa.analyze(P, X.copy(), Y.copy(), bins=2, seed=1)
            keys = None
    A, B = f(p), f(q)
    c.prove([str(v) for v in A["names"]] == gn, "groups are listed in order of first appearance")
    c.prove([str(v) for v in B["names"]] == names(D), "parameters are listed in their own order")
    for r, m in enumerate(mem):
        if keys is None:
            for b in range(2):
                w = sum([B[names(D)[j]][b] for j in m[1:]], B[names(D)[m[0]]][b])
                c.prove(c.near(A[gn[r]][b] * len(m), w, tol=1e-9), "a group has the mean of its members' results")
        else:
            for key in keys:
                w = sum([B[key][j] for j in m[1:]], B[key][m[0]])
                c.prove(c.near(A[key][r] * len(m), w, tol=1e-7), "a group has the mean of its members' results")


def own_names(c):
    """Naming every parameter by its own name, no groups and an empty entry are the same thing."""
    D = c.int("D", 1, 3)
    b = [[0.0, 2.0 + j] for j in range(D)]
    m = c.choose("method", ["sobol", "saltelli", "latin", "morris", "sobol analysis", "morris analysis", "pawn", "rsa", "discrepancy"])
    vs = [problem(c, D, b), problem(c, D, b, names(D)), dict(problem(c, D, b), groups=None)]
    N = 2
    if m in ("sobol", "latin", "morris", "saltelli"):
        kw = {"sobol": {"seed": 3}, "latin": {"seed": 3}, "morris": {"seed": 3, "num_levels": 4}, "saltelli": {"skip_values": 4}}[m]
        if m == "latin":
            N = 3
        R = [getattr(c.w.sample, m).sample(dict(v), N, **kw) for v in vs]
        for r in R[1:]:
            c.prove_all_eq(R[0], r, "%s: own names, None and no groups give one design" % m)
        return
    if m == "sobol analysis":
        Y = c.reals("Y", 2 * (D + 2), -10, 10)
        c.assume(c.any([Y[0] - Y[D + 1] >= 0.1, Y[D + 1] - Y[0] >= 0.1]))
        f = lambda v: c.w.analyze.sobol.analyze(v, Y.copy(), calc_second_order=False, num_resamples=2, seed=3)
        keys = ["S1", "ST"]
    elif m == "morris analysis":
        X = c.w.sample.morris.sample(problem(c, D, b), N, num_levels=4, seed=3)
        Y = c.reals("Y", len(X), -10, 10)
        f = lambda v: c.w.analyze.morris.analyze(v, X, Y.copy(), num_resamples=2, num_levels=4, seed=3)
        keys = ["mu", "mu_star", "sigma"]
    else:
        n = 8 if m == "rsa" else 4
        X = columns(c, [increasing(c, "x%d" % j, [((2 * j + 1) * i + j) % n for i in range(n)], gap=0.01, maxgap=0.1, lo=0.0, hi=0.5) for j in range(D)])
        Y = c.array(c.w_obj(increasing(c, "y", [(3 * i + 1) % n for i in range(n)])))
        kw = {"pawn": {"S": 2, "seed": 1}, "rsa": {"bins": 2, "seed": 1}, "discrepancy": {}}[m]
        f = lambda v: getattr(c.w.analyze, m).analyze(v, X.copy(), Y.copy(), **kw)
        keys = {"pawn": ["minimum", "mean", "median", "maximum"], "rsa": names(D), "discrepancy": ["s_discrepancy"]}[m]
    R = [f(v) for v in vs]
    for r in R[1:]:
        for k in keys:
            c.prove(len(r[k]) == len(R[0][k]), "%s: own names, None and no groups give one table" % m)
            c.prove_all_eq(R[0][k], r[k], "%s: own names, None and no groups give one result" % m)


def rejects(c):
    D = c.int("D", 2, 4)
    b = [[0.0, 2.0 + j] for j in range(D)]
    kind = c.choose("groups", ["single", "short", "long"])
    needs = ["sobol", "saltelli", "sobol analysis", "pawn", "rsa", "discrepancy"]
    m = c.choose("method", needs if kind == "single" else needs + ["latin", "morris", "morris analysis"])
    if kind == "single":
        g = [c.choose("label", ["g", names(D)[0]])] * D
    elif kind == "short":
        g = [POOL[k] for k in range(D - 1)] if D > 2 else ["gB"]
    else:
        g = [POOL[min(k, D - 1)] for k in range(D + 1)]
    p = problem(c, D, b, g)
    if m in ("sobol", "saltelli", "latin", "morris"):
        bad = raises(ValueError, getattr(c.w.sample, m).sample, p, 4)
    elif m == "sobol analysis":
        G = len(set(g))
        Y = c.reals("Y", 4 * (G + 2), -10, 10)
        bad = raises((ValueError, RuntimeError), c.w.analyze.sobol.analyze, p, Y, calc_second_order=False, num_resamples=2, seed=3)
    elif m == "morris analysis":
        X = c.w.sample.morris.sample(problem(c, D, b), 2, num_levels=4, seed=3)
        bad = raises((ValueError, RuntimeError), c.w.analyze.morris.analyze, p, X, c.reals("Y", len(X), -10, 10), num_resamples=2, seed=3)
    else:
        n = 8
        X = columns(c, [increasing(c, "x%d" % j, [((2 * j + 1) * i + j) % n for i in range(n)], gap=0.01, maxgap=0.1, lo=0.0, hi=0.5) for j in range(D)])
        Y = c.array(c.w_obj(increasing(c, "y", [(3 * i + 1) % n for i in range(n)])))
        kw = {"pawn": {"S": 2, "seed": 1}, "rsa": {"bins": 2, "seed": 1}, "discrepancy": {}}[m]
        bad = raises((ValueError, RuntimeError), getattr(c.w.analyze, m).analyze, p, X, Y, **kw)
    c.prove(bad, "%s: %s" % (m, "a single group is refused" if kind == "single" else "a group list of another length is refused"))


def front_ends(c):
    """Problem specifications and parameter files."""
    D = c.int("D", 2, 3)
    g = labels(c, D)
    d = problem(c, D, [[0.0, 1.0]] * D, g)
    PS = c.w.load("SALib.util.problem").ProblemSpec
    if len(set(g)) == 1:
        s = PS(d)
        s.set_samples(c.reals("X", (4, D), 0, 1)).set_results(c.reals("Y", 4, 0, 1))
        for m in ("pawn", "delta", "sobol"):
            c.prove(raises(ValueError, s.analyze, getattr(c.w.analyze, m).analyze), "analysing a problem specification with a single group is refused")
        return
    s = PS(d)
    c.prove(list(s["groups"]) == g and list(s["names"]) == names(D), "a problem specification keeps the groups at their positions")
    for q in (None, names(D)):
        s = PS(problem(c, D, [[0.0, 1.0]] * D, q))
        c.prove(not s["groups"] or list(s["groups"]) == names(D), "own names or no groups mean every parameter stands for itself")
