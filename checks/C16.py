"""Fractional factorial analysis."""
from vf.lib import *

BOUNDS = "1..5 parameters (9 thorough), all real outputs |y|<=10 and all coefficients |a|<=10"


def harnesses(tier):
    return [("contrasts", {}), ("linear", {}), ("shift", {}), ("first_only", {})]


def levels(c, d):
    X = c.w.sample.ff.sample(problem(c, d, [[-1.0, 1.0]] * d))
    n, k = X.shape
    # dummies live on [0, 1]
    return [[(float(X[i, j]) if j < d else 2.0 * float(X[i, j]) - 1.0) for j in range(k)] for i in range(n)]


def run(c, d, Y, so=True):
    p = problem(c, d)
    X = c.w.sample.ff.sample(problem(c, d))
    return c.w.analyze.ff.analyze(p, X, Y, second_order=so, seed=1)


def dims(c):
    return c.int("D", 1, 9 if c.tier == "thorough" else 5)


def contrasts(c):
    d = dims(c)
    L = levels(c, d)
    n, k = len(L), len(L[0])
    Y = c.reals("Y", n, -10, 10)
    S = run(c, d, Y.copy())
    nm = list(S["names"])
    c.prove(nm[:d] == names(d) and len(nm) == k and len(set(nm)) == k, "names of the columns")
    for j in range(k):
        c.prove(c.eq(S["ME"][j], mean([Y[i] * L[i][j] for i in range(n)])), "main effect is the contrast over the number of runs")
    c.prove(len(S["interaction_names"]) == k * (k - 1) // 2 == len(S["IE"]), "one interaction per pair")
    seen = set()
    for pr, v in zip(S["interaction_names"], S["IE"]):
        a, b = nm.index(pr[0]), nm.index(pr[1])
        c.prove(a != b and frozenset((a, b)) not in seen, "every pair listed once")
        seen.add(frozenset((a, b)))
        c.prove(c.eq(v, mean([Y[i] * L[i][a] * L[i][b] for i in range(n)])), "interaction is the contrast of the product of its own pair")


def linear(c):
    d = dims(c)
    L = levels(c, d)
    n, k = len(L), len(L[0])
    a0, a = c.real("a0", -10, 10), [c.real("a%d" % j, -10, 10) for j in range(d)]
    x = c.real("interaction", -10, 10)
    pair = c.choose("pair", [(i, j) for j in range(d) for i in range(j)]) if d > 1 else None
    Y = []
    for i in range(n):
        y = a0
        for j in range(d):
            y = y + a[j] * L[i][j]
        if pair:
            y = y + x * L[i][pair[0]] * L[i][pair[1]]
        Y.append(y)
    S = run(c, d, c.array(c.w_obj(Y)))
    for j in range(k):
        c.prove(c.eq(S["ME"][j], a[j] if j < d else 0.0), "main effects are the coefficients, dummies have none")
    if pair:
        nm = names(d)
        got = [v for pr, v in zip(S["interaction_names"], S["IE"]) if set(pr) == {nm[pair[0]], nm[pair[1]]}]
        c.prove(len(got) == 1 and c.eq(got[0], x), "interaction is the coefficient of its pair")


def shift(c):
    d = c.int("D", 1, 4)
    n = len(levels(c, d))
    Y = c.reals("Y", n, -10, 10)
    t, s = c.real("shift", -10, 10), c.real("scale", -5, 5)
    S, Q = run(c, d, Y.copy()), run(c, d, Y * s + t)
    for j in range(len(S["ME"])):
        c.prove(c.eq(Q["ME"][j], S["ME"][j] * s), "effects ignore a constant and scale with the outputs")
    for u, v in zip(S["IE"], Q["IE"]):
        c.prove(c.eq(v, u * s), "interactions ignore a constant and scale with the outputs")


def first_only(c):
    d = c.int("D", 2, 4)
    n = len(levels(c, d))
    Y = c.reals("Y", n, -10, 10)
    S, Q = run(c, d, Y.copy()), run(c, d, Y.copy(), False)
    c.prove_all_eq(S["ME"], Q["ME"], "main effects do not depend on asking for interactions")
    c.prove("IE" not in Q, "no interactions unless asked for")
