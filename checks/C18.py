"""Regional sensitivity analysis."""
import itertools
import math
from fractions import Fraction

from vf.lib import *

BOUNDS = ("1..3 inputs, 5..8 samples (10 thorough), 2..4 bins, both targets: orders of outputs and inputs from a spread of permutations, all real values with that order "
          "(base in [-5,5], gaps in [0.05,3]); repeated outputs and inputs; every grouping of three inputs; table shape for every bin count up to 130")

# no bin edge falls on a sample except through an exactly representable quantile
SIZES = [(6, 2), (8, 3), (6, 4), (9, 4), (7, 2), (5, 2)]


def harnesses(tier):
    return [("output_bins", {}), ("input_bins", {}), ("groups", {}), ("ties", {}), ("table", {}), ("invariance", {})]


def rank(o, n):
    r = [0] * n
    for k, i in enumerate(o):
        r[i] = k
    return r


def cvm(ranks, sel):
    """Two-sample Cramer-von Mises statistic of the members against the rest (midranks)."""
    n = len(ranks)
    rest = [i for i in range(n) if i not in sel]

    def mid(i):
        lt = sum(1 for v in ranks if v < ranks[i])
        eq = sum(1 for v in ranks if v == ranks[i])
        return lt + Fraction(eq + 1, 2)
    a, b = sorted(mid(i) for i in sel), sorted(mid(i) for i in rest)
    p, q = len(a), len(b)
    U = p * sum((a[i] - (i + 1)) ** 2 for i in range(p)) + q * sum((b[i] - (i + 1)) ** 2 for i in range(q))
    return float(Fraction(U) / (p * q * (p + q)) - Fraction(4 * p * q - 1, 6 * (p + q)))


def bins_of(level, B):
    """Members of the quantile bins (q_s, q_s+1], the first including its lower end; level: ranks, ties equal."""
    n = len(level)
    srt = sorted(level)
    edge = [Fraction(s * (n - 1), B) for s in range(B + 1)]

    def above(x, e):
        lo, hi = srt[math.floor(e)], srt[math.ceil(e)]
        return x > lo if lo == hi else x >= hi
    return [[i for i in range(n) if (above(level[i], edge[s]) or (s == 0)) and not above(level[i], edge[s + 1])] for s in range(B)]


def expected(level, other, yl, B):
    out = []
    for m in bins_of(level, B):
        ok = len(m) > 0 and len(level) - len(m) > 1 and len({yl[i] for i in m}) > 1
        out.append(cvm(other, m) if ok else None)
    return out


def isnan(v):
    return v is not None and v != v


def compare(c, got, want, what):
    c.prove(len(got) == len(want), "one row per bin")
    for g, w in zip(got, want):
        if w is None:
            c.prove(bool(isnan(g)), "bins without enough or distinct data are undefined")
        else:
            c.prove(c.near(g, w, tol=1e-9), what)


def some(n, k):
    al = list(itertools.islice(itertools.permutations(range(n)), 0, 5040))
    st = max(1, len(al) // k)
    return [list(al[i]) for i in range(0, len(al), st)][:k]


def setup(c, xo, yo):
    n, D = len(yo), len(xo)
    X = columns(c, [increasing(c, "x%d" % j, xo[j]) for j in range(D)])
    Y = c.array(c.w_obj(increasing(c, "y", yo)))
    return X, Y


def turn(o, k, m):
    n = len(o)
    return [o[(m * i + k) % n] for i in range(n)]


def case(c, D):
    n, B = c.choose("N,bins", SIZES + ([(10, 4), (8, 5), (10, 2)] if c.tier == "thorough" else []))
    yo = c.choose("y order", some(n, 4 if c.tier == "quick" else 40))
    xo = [turn(list(range(n)), 1 + j, 2 + j if math.gcd(2 + j, n) == 1 else 1) for j in range(D)]
    return n, B, xo, yo


def output_bins(c):
    D = c.int("D", 1, 3)
    n, B, xo, yo = case(c, D)
    X, Y = setup(c, xo, yo)
    S = c.w.analyze.rsa.analyze(problem(c, D), X.copy(), Y.copy(), bins=B, target="Y")
    c.prove(list(S["names"]) == names(D), "one column per parameter")
    for j in range(D):
        compare(c, S[names(D)[j]], expected(rank(yo, n), rank(xo[j], n), rank(yo, n), B), "inputs inside the output bin against those outside")


def input_bins(c):
    D = c.int("D", 1, 2)
    n, B, xo, yo = case(c, D)
    X, Y = setup(c, xo, yo)
    S = c.w.analyze.rsa.analyze(problem(c, D), X.copy(), Y.copy(), bins=B, target="X")
    for j in range(D):
        compare(c, S[names(D)[j]], expected(rank(xo[j], n), rank(yo, n), rank(yo, n), B), "outputs inside the input bin against those outside")


def groups(c):
    D, n, B = 3, 6, c.choose("bins", [2, 4])
    g = group_choice(c, D, must=True)
    xo = [[0, 1, 2, 3, 4, 5], [3, 1, 5, 0, 2, 4], [5, 2, 4, 0, 1, 3]]
    yo = c.choose("y order", [[1, 0, 3, 2, 5, 4], [4, 2, 0, 5, 3, 1]])
    t = c.choose("target", ["Y", "X"])
    X, Y = setup(c, xo, yo)
    p = problem(c, D, None, g)
    S = c.w.analyze.rsa.analyze(p, X.copy(), Y.copy(), bins=B, target=t)
    gn = gnames(p)
    c.prove(list(S["names"]) == gn, "one column per group")
    for q, mem in enumerate(members(p)):
        w = [expected(*((rank(yo, n), rank(xo[j], n)) if t == "Y" else (rank(xo[j], n), rank(yo, n))), rank(yo, n), B) for j in mem]
        want = []
        for s in range(B):
            v = [x[s] for x in w if x[s] is not None]
            want.append(sum(v) / len(v) if v else None)
        compare(c, S[gn[q]], want, "mean over the members of the group")


def ties(c):
    n, B = 7, c.choose("bins", [2, 4])
    yp = c.choose("y pattern", [[0, 0, 0, 1, 1, 2, 2], [1, 1, 1, 1, 1, 0, 2], [0, 1, 1, 1, 1, 1, 1], [2, 0, 1, 2, 0, 1, 2], [3, 3, 3, 3, 3, 3, 3]])
    xp = c.choose("x pattern", [[0, 1, 2, 3, 4, 5, 6], [0, 0, 1, 1, 2, 2, 0], [5, 5, 5, 5, 5, 5, 0]])
    t = c.choose("target", ["Y", "X"])
    a, b = increasing(c, "a", range(7)), increasing(c, "b", range(7))
    X = c.array(c.w_obj([[a[k]] for k in xp]))
    Y = c.array(c.w_obj([b[k] for k in yp]))
    S = c.w.analyze.rsa.analyze(problem(c, 1), X.copy(), Y.copy(), bins=B, target=t)
    lv, ot = (yp, xp) if t == "Y" else (xp, yp)
    compare(c, S[names(1)[0]], expected(lv, ot, yp, B), "members of the bin against the rest, with repeated values")


def table(c):
    B = c.int("bins", 2, 130)
    X = columns(c, [increasing(c, "x0", [0, 2, 1]), increasing(c, "x1", [1, 0, 2])])
    Y = c.array(c.w_obj(increasing(c, "y", [0, 1, 2])))
    S = c.w.analyze.rsa.analyze(problem(c, 2), X.copy(), Y.copy(), bins=B)
    c.prove(len(S["bins"]) == B and all(len(S[k]) == B for k in names(2)), "one row per bin for every bin count")
    e = [float(v) for v in S["bins"]]
    c.prove(all(abs(e[i] - i / B) < 1e-12 for i in range(B)), "bins are labelled by their lower quantile")
    c.prove(tuple(S.to_df().shape) == (B, 2), "table of one row per bin and one column per parameter")


def invariance(c):
    n, B = c.choose("N,bins", [(6, 2), (8, 3)])
    yo = some(n, 3)[c.int("order", 0, 2)]
    xo = [turn(list(range(n)), 1, 1), turn(list(range(n)), 2, 5)]
    X, Y = setup(c, xo, yo)
    z = increasing(c, "z", [list(range(n)), list(range(n))[::-1]][c.int("other", 0, 1)])
    Z = columns(c, [z, [X[i, 1] for i in range(n)]])
    f = c.w.analyze.rsa.analyze
    a, b = f(problem(c, 2), X.copy(), Y.copy(), bins=B), f(problem(c, 2), Z.copy(), Y.copy(), bins=B)
    k = names(2)[1]
    for u, v in zip(a[k], b[k]):
        c.prove(bool(isnan(u)) == bool(isnan(v)) and (bool(isnan(u)) or c.eq(u, v)), "column j depends on input j and the outputs only")
