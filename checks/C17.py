"""PAWN."""
import itertools
import math
from fractions import Fraction

from vf.lib import *

BOUNDS = ("1..3 inputs, 4..7 samples (8 thorough), 1..5 slices: all orders of 4 samples and a spread of orders of more, all real inputs and outputs with that order "
          "(base in [-5,5], gaps in [0.05,3]); ties in inputs and in outputs; every slice count up to 60 for three samples; every grouping of three inputs")

# no slice edge may fall on a sample except through an exactly representable quantile
SIZES = [(4, 1), (4, 2), (5, 2), (5, 4), (5, 3), (6, 3), (6, 4), (7, 4), (7, 5)]


def harnesses(tier):
    return [("order", {}), ("outputs", {}), ("groups", {}), ("ties", {}), ("columnwise", {}), ("many", {}), ("invariance", {})]


def rank(o, n):
    """rank[i] of sample i for an order given as sample numbers by increasing value."""
    r = [0] * n
    for k, i in enumerate(o):
        r[i] = k
    return r


def slices(o, S):
    """Slice members by rank: [s/S, (s+1)/S) of the sample, the last including its end."""
    n = len(o)
    out = []
    for s in range(S):
        lo, hi = Fraction(s * (n - 1), S), Fraction((s + 1) * (n - 1), S)
        out.append([o[k] for k in range(n) if lo <= k and (k < hi or (s == S - 1 and k <= hi))])
    return out


def ks(yr, sel):
    """Largest gap between the two empirical distribution functions (yr: output ranks, ties equal)."""
    n = len(yr)
    best = Fraction(0)
    for t in yr:
        best = max(best, abs(Fraction(sum(1 for i in sel if yr[i] <= t), len(sel)) - Fraction(sum(1 for v in yr if v <= t), n)))
    return best


def stats(sl, yr):
    v = sorted(ks(yr, s) for s in sl if s)
    m = sum(v, Fraction(0)) / len(v)
    k = len(v)
    med = v[k // 2] if k % 2 else (v[k // 2 - 1] + v[k // 2]) / 2
    sd = math.sqrt(sum((x - m) ** 2 for x in v) / k)
    return {"minimum": float(v[0]), "mean": float(m), "median": float(med), "maximum": float(v[-1]), "CV": sd / float(m) if m else None, "stdev": sd}


def check(c, Si, j, want, what):
    for k, w in want.items():
        if w is not None:
            c.prove(c.near(Si[k][j], w, tol=1e-9), "%s of the KS distances %s" % (k, what))


def some_orders(n, k):
    al = list(itertools.permutations(range(n)))
    return [list(al[i]) for i in range(0, len(al), max(1, len(al) // k))][:k + 1]


def order(c):
    n, S = c.choose("N,S", SIZES + ([(8, 3), (8, 5), (8, 6)] if c.tier == "thorough" else []))
    o = c.choose("order", some_orders(n, 24 if n == 4 else (12 if c.tier == "quick" else 60)))
    X = columns(c, [increasing(c, "x", o)])
    yo = [(i * (3 if n % 3 else 2) + 1) % n for i in range(n)] if n % (3 if n % 3 else 2) else list(range(n))[::-1]
    Y = c.array(c.w_obj(increasing(c, "y", yo)))
    R = c.w.analyze.pawn.analyze(problem(c, 1), X.copy(), Y.copy(), S=S, seed=1)
    c.prove(list(R["names"]) == names(1) and all(len(R[k]) == 1 for k in ("minimum", "mean", "median", "maximum", "CV")), "one row per parameter")
    check(c, R, 0, stats(slices(o, S), rank(yo, n)), "over the equal-count slices of the input")


def outputs(c):
    """Every order of the outputs, two inputs with different orders."""
    n, S = c.choose("N,S", [(4, 2), (5, 2), (5, 4)])
    D = 2
    xo = [list(range(n)), [(2 * i + 1) % n for i in range(n)] if n % 2 else [2, 0, 3, 1]]
    yo = c.choose("order", some_orders(n, 24 if n == 4 else (12 if c.tier == "quick" else 120)))
    X = columns(c, [increasing(c, "x%d" % j, xo[j]) for j in range(D)])
    Y = c.array(c.w_obj(increasing(c, "y", yo)))
    R = c.w.analyze.pawn.analyze(problem(c, D), X.copy(), Y.copy(), S=S, seed=1)
    for j in range(D):
        check(c, R, j, stats(slices(xo[j], S), rank(yo, n)), "over the equal-count slices of the input")


def groups(c):
    n, S, D = 5, 2, 3
    g = group_choice(c, D, must=True)
    xo = [[0, 1, 2, 3, 4], [1, 3, 0, 2, 4], [4, 2, 0, 1, 3]]
    yo = c.choose("order", [[0, 1, 2, 3, 4], [3, 0, 4, 2, 1]])
    X = columns(c, [increasing(c, "x%d" % j, xo[j]) for j in range(D)])
    Y = c.array(c.w_obj(increasing(c, "y", yo)))
    p = problem(c, D, None, g)
    R = c.w.analyze.pawn.analyze(p, X.copy(), Y.copy(), S=S, seed=1)
    gn, mem = gnames(p), members(p)
    c.prove(list(R["names"]) == gn and len(R["mean"]) == len(gn), "one row per group")
    for q, m in enumerate(mem):
        w = [stats(slices(xo[j], S), rank(yo, n)) for j in m]
        check(c, R, q, {k: sum(x[k] for x in w) / len(w) for k in w[0]}, "averaged over the members of the group")


def ties(c):
    """Repeated input or output values; slices by value."""
    n = 6
    S = c.choose("S", [1, 2, 4])
    xp = c.choose("x pattern", [[0, 0, 1, 1, 2, 2], [0, 2, 1, 1, 1, 0], [1, 0, 0, 0, 0, 2], [0, 1, 2, 3, 4, 5]])
    yp = c.choose("y pattern", [[0, 0, 1, 1, 2, 2], [2, 0, 1, 0, 0, 1], [0, 1, 2, 3, 4, 5]])
    a, b = increasing(c, "a", range(6)), increasing(c, "b", range(6))
    X = c.array(c.w_obj([[a[k]] for k in xp]))
    Y = c.array(c.w_obj([b[k] for k in yp]))
    R = c.w.analyze.pawn.analyze(problem(c, 1), X.copy(), Y.copy(), S=S, seed=1)
    srt = sorted(xp)
    # position of the quantile: between samples floor and ceil; compare levels instead of values
    edge = [Fraction(s * (n - 1), S) for s in range(S + 1)]

    def cmp(x, e):
        """sign of (value level x) - (quantile at position e)"""
        lo, hi = srt[math.floor(e)], srt[math.ceil(e)]
        if lo == hi:
            return (x > lo) - (x < lo)
        return 1 if x >= hi else -1
    sl = [[i for i in range(n) if cmp(xp[i], edge[s]) >= 0 and (cmp(xp[i], edge[s + 1]) < 0 or (s == S - 1 and cmp(xp[i], edge[S]) == 0))] for s in range(S)]
    c.prove(sorted(sum(sl, [])) == list(range(n)), "every sample belongs to one slice")
    check(c, R, 0, stats(sl, yp), "over the slices of an input with repeated values")


def columnwise(c):
    """Each row depends on its own input only, whatever repeated values the other inputs have."""
    n = 6
    S = c.choose("S", [2, 3, 4])
    pats = [[0, 1, 2, 3, 4, 5], [0, 0, 0, 0, 1, 1], [2, 0, 1, 1, 1, 1], [1, 0, 0, 0, 0, 2]]
    pick = [c.choose("first", pats), c.choose("second", pats), pats[1]]
    lv = [increasing(c, "a%d" % j, range(6)) for j in range(3)]
    X = columns(c, [[lv[j][k] for k in pick[j]] for j in range(3)])
    Y = c.array(c.w_obj(increasing(c, "y", [3, 0, 5, 2, 4, 1])))
    f = c.w.analyze.pawn.analyze
    R = f(problem(c, 3), X.copy(), Y.copy(), S=S)
    for j in range(3):
        Q = f(problem(c, 1), X[:, j:j + 1].copy(), Y.copy(), S=S)
        for k in ("minimum", "mean", "median", "maximum"):
            c.prove(c.near(R[k][j], Q[k][0], tol=1e-9), k + " of an input does not depend on the other inputs")


def many(c):
    """Any number of slices works and no sample is lost."""
    n = 3
    S = c.int("S", 1, 60)
    X = columns(c, [increasing(c, "x", [1, 0, 2])])
    Y = c.array(c.w_obj(increasing(c, "y", [0, 2, 1])))
    R = c.w.analyze.pawn.analyze(problem(c, 1), X.copy(), Y.copy(), S=S)
    for k in ("minimum", "mean", "median", "maximum"):
        c.prove(c.all([R[k][0] >= 0, R[k][0] <= 1 + 1e-12]), k + " lies in [0,1]")
    if S >= 3:
        check(c, R, 0, stats([[0], [1], [2]], [0, 2, 1]), "over one-sample slices")


def invariance(c):
    n, S = c.choose("N,S", [(5, 3), (6, 4)])
    X = columns(c, [increasing(c, "x", c.choose("order", some_orders(n, 4)))])
    yo = c.choose("y order", some_orders(n, 3))
    Y, Z = [c.array(c.w_obj(increasing(c, k, yo))) for k in "yz"]
    f = c.w.analyze.pawn.analyze
    A, B = f(problem(c, 1), X.copy(), Y.copy(), S=S), f(problem(c, 1), X.copy(), Z.copy(), S=S)
    for k in ("minimum", "mean", "median", "maximum"):
        c.prove(c.eq(A[k][0], B[k][0]), k + " unchanged by increasing transformations of the outputs")
        c.prove(c.all([A[k][0] >= 0, A[k][0] <= 1 + 1e-12]), k + " lies in [0,1]")
