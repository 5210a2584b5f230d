"""Latin hypercube stratification."""
import math

from vf.lib import *

BOUNDS = ("N in 1..3 samples (4 thorough for one factor), 1..4 parameters, every grouping; every offset inside the strata, "
          "every shuffle, all bounds |b|<=10 and all non-uniform kinds through their own quantile")


def harnesses(tier):
    return [("strata", {}), ("independent", {"cover": {"relative ordering of two groups": 2}}),
            ("independent4", {"cover": {"orderings of four parameters": 16, "orderings of four groups": 16}}),
            ("independent3", {"cover": {"orderings of one parameter": 6}}), ("nonuniform", {})]


def stratum(c, x, lo, w, N, i):
    """x lies in stratum i of N of [lo, lo+w)."""
    if c.concrete:
        u = (x - lo) / w * N
        return i - 1e-7 <= u <= i + 1 + 1e-7
    return c.all([(x - lo) * N >= w * i, (x - lo) * N <= w * (i + 1)])


def perms(n):
    import itertools
    return list(itertools.permutations(range(n)))


def strata(c):
    D = c.int("D", 1, 4)
    N = 2 if D == 4 else c.int("N", 1, (4 if D == 1 else 3) if c.tier == "thorough" else (3 if D < 3 else 2))
    g = group_choice(c, D, single=True, must=D == 4)
    b = sym_bounds(c, D)
    p = problem(c, D, b, g)
    X = c.w.sample.latin.sample(p, N, seed=5)
    c.prove(tuple(X.shape) == (N, D), "shape (N, D)")
    P = perms(N)
    for j in range(D):
        lo, w = b[j][0], b[j][1] - b[j][0]
        c.prove(c.any([c.all([stratum(c, X[i, j], lo, w, N, q[i]) for i in range(N)]) for q in P]),
                "one sample in each of the N equal strata")
    for mem in members(p):
        for j in mem[1:]:
            k = mem[0]
            for i in range(N):
                c.prove(c.eq((X[i, j] - b[j][0]) * (b[k][1] - b[k][0]),
                             (X[i, k] - b[k][0]) * (b[j][1] - b[j][0])), "group members move together")


def order(c, X, j, N):
    return tuple(int(math.floor(float(X[i, j]) * N)) if c.concrete else
                 next(k for k in range(N) if bool(X[i, j] * N < k + 1)) for i in range(N))


def independent(c):
    g = c.choose("grp", [None, ["a", "b"], ["a", "b", "a"]])
    D = 3 if g and len(g) == 3 else 2
    X = c.w.sample.latin.sample(problem(c, D, None, g), 2, seed=5)
    c.prove(tuple(X.shape) == (2, D), "shape")
    if g is None:
        c.cover("relative ordering of two groups", order(c, X, 0, 2) == order(c, X, 1, 2))


def independent3(c):
    X = c.w.sample.latin.sample(problem(c, 1), 3, seed=5)
    c.prove(tuple(X.shape) == (3, 1), "shape")
    c.cover("orderings of one parameter", order(c, X, 0, 3))


def independent4(c):
    g = c.choose("grp", [None, ["b", "a", "b", "d", "c"]])
    D = 5 if g else 4
    X = c.w.sample.latin.sample(problem(c, D, None, g), 2, seed=5)
    c.prove(tuple(X.shape) == (2, D), "shape")
    cols = [0, 1, 3, 4] if g else range(4)
    c.cover("orderings of four groups" if g else "orderings of four parameters", tuple(order(c, X, j, 2) for j in cols))


def nonuniform(c):
    """Equal-probability strata: pushing the unit design through each column's own distribution."""
    N = 2
    p = problem(c, 2, [[0.0, 1.0], [0.0, 1.0]], None)
    U = c.w.sample.latin.sample(dict(p), N, seed=5)
    k = c.choose("kind", ["norm", "unif", "triang", "lognorm"])
    m, s = c.real("m", -3, 3), c.real("s", 0.1, 3)
    b = {"norm": [m, s], "lognorm": [m, s], "unif": [m, m + s], "triang": [m, m + s, 0.3]}[k]
    q = problem(c, 2, [b, [0.0, 1.0]], None, dists=[k, "unif"])
    X = c.w.sample.latin.sample(dict(q), N, seed=5)
    want = c.w.util.scale_samples(U.copy(), dict(q))
    c.prove_all_eq(X, want, "non-uniform design is the unit design through the quantile functions", tol=1e-6)
