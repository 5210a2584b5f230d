"""Discrepancy indices."""
import numpy as np
from scipy.stats import qmc

from vf.lib import *

BOUNDS = ("1..3 inputs (4 with groups), 2..4 samples (6 thorough), all real bounds |b|<=10, all inputs within them, all outputs with a spread of orders, every grouping; the four "
          "discrepancy measures, symbolically an arbitrary positive function of (measure, points)")
ASSUMPTIONS = ["symbolically scipy's discrepancy is an arbitrary positive function of the method and the point set; concrete replays use scipy's"]

METHODS = ["WD", "CD", "MD", "L2-star"]


def harnesses(tier):
    return [("indices", {}), ("groups", {}), ("default", {}), ("rejects", {}), ("invariance", {})]


def disc(c, pts, method):
    if c.concrete:
        return float(qmc.discrepancy(np.array([[float(v) for v in r] for r in pts]), method=method))
    o = np.empty((len(pts), 2), dtype=object)
    for i, r in enumerate(pts):
        o[i, 0], o[i, 1] = r
    return c.hook_discrepancy(o, method)


def inputs(c, D, N):
    b = sym_bounds(c, D, gap=0.5)
    U = [[c.real("u%d_%d" % (i, j), 0.01, 0.99) for j in range(D)] for i in range(N)]
    X = [[b[j][0] + U[i][j] * (b[j][1] - b[j][0]) for j in range(D)] for i in range(N)]
    o = c.choose("y order", [list(range(N)), [(i + 1) % N for i in range(N)][::-1]])
    y = increasing(c, "y", o, gap=0.5)
    lo, hi = y[o[0]], y[o[-1]]
    V = [(v - lo) / (hi - lo) for v in y]
    return b, U, V, c.array(c.w_obj(X)), c.array(c.w_obj(y))


def indices(c):
    D = c.int("D", 1, 3)
    N = c.choose("N", [2, 4] if c.tier == "quick" else [2, 3, 4, 6])
    m = c.choose("method", METHODS)
    b, U, V, X, Y = inputs(c, D, N)
    S = c.w.analyze.discrepancy.analyze(problem(c, D, b), X, Y, method=m)
    d = [disc(c, [(U[i][j], V[i]) for i in range(N)], m) for j in range(D)]
    t = sum(d[1:], d[0])
    c.prove(list(S["names"]) == names(D) and len(S["s_discrepancy"]) == D, "one value per parameter in order")
    for j in range(D):
        c.prove(c.eq(S["s_discrepancy"][j] * t, d[j], tol=1e-7), "discrepancy of (input, output) over the sum of all inputs")
    s = S["s_discrepancy"]
    c.prove(c.near(sum(list(s)[1:], s[0]), 1.0, tol=1e-9), "the indices sum to one")


def groups(c):
    N = 2
    m = c.choose("method", ["WD", "CD"])
    D = c.int("D", 2, 4)
    g = group_choice(c, D, must=True)
    b, U, V, X, Y = inputs(c, D, N)
    p = problem(c, D, b, g)
    S = c.w.analyze.discrepancy.analyze(p, X, Y, method=m)
    d = [disc(c, [(U[i][j], V[i]) for i in range(N)], m) for j in range(D)]
    t = sum(d[1:], d[0])
    c.prove([str(v) for v in S["names"]] == gnames(p) and len(S["s_discrepancy"]) == len(gnames(p)), "one value per group in order of first appearance")
    for k, mem in enumerate(members(p)):
        c.prove(c.eq(S["s_discrepancy"][k] * t * len(mem), sum([d[j] for j in mem[1:]], d[mem[0]]), tol=1e-7), "mean of the members of the group")


def default(c):
    b, U, V, X, Y = inputs(c, 2, 2)
    f = c.w.analyze.discrepancy.analyze
    c.prove_all_eq(f(problem(c, 2, b), X, Y)["s_discrepancy"], f(problem(c, 2, b), X, Y, method="WD")["s_discrepancy"], "wrap-around discrepancy by default")


def rejects(c):
    N = 2
    b, U, V, X, Y = inputs(c, 2, N)
    f = c.w.analyze.discrepancy.analyze
    k = c.choose("case", ["method", "below", "above"])
    if k == "method":
        c.prove(raises(ValueError, f, problem(c, 2, b), X, Y, method="XD"), "unknown measures are rejected")
    else:
        i, j = c.int("row", 0, N - 1), c.int("column", 0, 1)
        e = c.real("distance", 0.1, 5)
        X[i, j] = b[j][0] - e if k == "below" else b[j][1] + e
        c.prove(raises(ValueError, f, problem(c, 2, b), X, Y), "inputs outside the bounds are rejected")


def invariance(c):
    """Only the position of the outputs within their range matters."""
    b, U, V, X, Y = inputs(c, 2, 3 if c.tier == "thorough" else 2)
    s, t = c.real("scale", 0.5, 3), c.real("shift", -5, 5)
    f = c.w.analyze.discrepancy.analyze
    A, B = f(problem(c, 2, b), X.copy(), Y.copy()), f(problem(c, 2, b), X.copy(), Y * s + t)
    c.prove_all_eq(A["s_discrepancy"], B["s_discrepancy"], "unchanged by shifting and scaling the outputs", tol=1e-7)
