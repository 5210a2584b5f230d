"""Morris optimal trajectories."""
import itertools

import numpy as np

from vf.lib import *

BOUNDS = ("brute force: N in 3..5 trajectories (6 thorough), every k in 2..N-1; local: N in 3..4, k in 2..3, and N=5 (6 thorough), k=4 (5) with 1 (2) arbitrary distances in 3 (6) given matrices (N=4: 3 of the 6 distances arbitrary for k=2 and 2 for k=3, thorough 6 for k=2 and 5 for k=3); every non-negative "
          "symmetric distance between different trajectories; distance values: D in 1..2 real coordinates; end-to-end: N in 3..4, D in 1..2, groups; 183 fixed trajectories, k=3 (more combinations than one chunk)")
ASSUMPTIONS = ["in 'brute' and 'local' scipy's cdist is replaced by an arbitrary symmetric non-negative distance; 'distance' checks the real one",
               "distances are exact reals (the source rounds them to float32); ties may be resolved either way"]


def harnesses(tier):
    return [("brute", {"budget": 200 if tier == "quick" else 1500}), ("local", {"budget": 200 if tier == "quick" else 3000}), ("local_large", {"budget": 120 if tier == "quick" else 1200}), ("chunks", {"budget": 200}), ("precision", {"witnesses": 64}), ("distance", {}), ("endtoend", {"budget": 250}), ("rejects", {})]


def pool(c, N, D, G, free=99, pattern=(49.0, 196.0, 121.0, 16.0)):
    """Distinct concrete trajectories and an arbitrary distance between them."""
    S = np.array([[((t * 7 + r * 3 + j) % 23) / 23.0 for j in range(D)] for t in range(N) for r in range(G + 1)])
    T = [tuple(map(tuple, S[t * (G + 1):(t + 1) * (G + 1)].tolist())) for t in range(N)]
    d = {}
    for a, b in itertools.combinations(range(N), 2):
        # an arbitrary positive distance, given by its square so that the solver sees linear scores
        v = c.real("dist%d_%d" % (a, b), 0.0001, 400) if (len(d) // 2 in free if isinstance(free, dict) else len(d) // 2 < free) else pattern[len(d) // 2 % len(pattern)]
        d[a, b] = d[b, a] = float(v) ** 0.5 if c.concrete else np.float64(v) ** 0.5 if isinstance(v, float) else c.np.sqrt(v)

    def hook(XA, XB):
        A = T.index(tuple(tuple(float(v) for v in r) for r in XA))
        B = T.index(tuple(tuple(float(v) for v in r) for r in XB))
        m = np.empty((G + 1, G + 1), dtype=object)
        for ix in np.ndindex(*m.shape):
            m[ix] = np.float64(0.0)
        if A != B:
            m[0, G] = d[A, B]
        return c.array(m)
    c.hook_cdist = hook
    return S, T, d


def picked(c, out, T, N, k, G, D):
    """Indices of the returned trajectories."""
    ok = tuple(np.shape(out)) == (k * (G + 1), D)
    c.prove(ok, "k*(G+1) rows returned")
    idx = []
    for t in range(k):
        tr = tuple(tuple(float(v) for v in out[t * (G + 1) + r]) for r in range(G + 1))
        c.prove(tr in T, "returned trajectories are unaltered originals")
        idx.append(T.index(tr))
    c.prove(len(set(idx)) == k, "returned trajectories are distinct")
    return idx


def score(d, ix):
    s = 0.0
    for a, b in itertools.combinations(ix, 2):
        s = s + d[a, b] * d[a, b]
    return s


def geq(c, a, b):
    return a >= b * (1 - 1e-5)  # the source rounds distances to float32


def brute(c):
    N = c.int("N", 3, 6 if c.tier == "thorough" else 5)
    k = c.int("k", 2, N - 1)
    G = c.choose("G", [2, 1, None] if N < 5 else [1])
    D = 2
    S, T, d = pool(c, N, D, G or D)
    B = c.w.sample.morris.brute.BruteForce()
    out = B.sample(c.array(S) if not c.concrete else S, N, D, k, G)
    ix = picked(c, out, T, N, k, G or D, D)
    best = score(d, ix)
    c.prove(c.all([geq(c, best, score(d, co)) for co in itertools.combinations(range(N), k)]),
            "brute force returns a combination of maximal total distance")


def local(c):
    N = c.int("N", 3, 4)
    k = c.int("k", 2, min(3, N - 1))
    G = c.choose("G", [2, 1] if N < 4 else [1])
    D = 2
    free = 99 if N == 3 else (3 if k == 2 else 2) if c.tier == "quick" else 6 if k == 2 else 5
    S, T, d = pool(c, N, D, G, free)
    out = c.w.sample.morris.local.LocalOptimisation().sample(c.array(S) if not c.concrete else S, N, D, k, G)
    ix = picked(c, out, T, N, k, G, D)
    best = score(d, ix)
    if k == 2:
        c.prove(c.all([geq(c, best, score(d, co)) for co in itertools.combinations(range(N), k)]),
                "the local search returns the most distant pair")
        return
    cl = []
    for r in range(N):
        others = [x for x in range(N) if x != r]
        for a, b in itertools.combinations(others, 2):
            far = c.all([c.all([d[r, a] > d[r, x] + 1e-3, d[r, b] > d[r, x] + 1e-3]) for x in others if x not in (a, b)])
            cl.append(c.any([c.not_(far), geq(c, best, score(d, (r, a, b)))]))
    c.prove(c.all(cl), "not worse than any trajectory with its farthest companions")
    cl = []
    for p, q in itertools.combinations(range(N), 2):
        top = c.all([d[p, q] > d[x, y] + 1e-3 for x, y in itertools.combinations(range(N), 2) if (x, y) != (p, q)])
        for x in range(N):
            if x not in (p, q):
                cl.append(c.any([c.not_(top), geq(c, best, score(d, (p, q, x)))]))
    c.prove(c.all(cl), "not worse than the most distant pair with its best third")


# (in the first three, the best four come from growing a pair step by step)
PATTERNS = [[16, 7, 12, 5, 6, 1, 11, 15, 10, 14, 3, 9, 2, 8, 4], [5, 14, 8, 6, 15, 1, 10, 13, 4, 16, 2, 7, 11, 3, 9],
            [2, 5, 14, 12, 4, 9, 16, 15, 8, 3, 7, 1, 11, 6, 10], [3, 8, 5, 9, 2, 7, 11, 4, 6, 10, 1, 13, 12, 15, 14],
            [14, 2, 9, 4, 13, 6, 1, 12, 8, 3, 15, 7, 5, 11, 10], [5, 13, 1, 10, 8, 15, 3, 6, 12, 2, 9, 4, 14, 7, 11]]


def local_large(c):
    """Four and more trajectories out of five and more: a concrete matrix with arbitrary entries."""
    N = c.int("N", 5, 5 if c.tier == "quick" else 6)
    k = c.int("k", 4, N - 1)
    n = N * (N - 1) // 2
    pat = [float(v * v) for v in c.choose("matrix", PATTERNS[:3] if c.tier == "quick" else PATTERNS)[:n]]
    first = c.choose("first arbitrary entry", list(range(0, n, 3 if c.tier == "quick" else 1)))
    S, T, d = pool(c, N, 2, 1, {first + i: None for i in range(1 if c.tier == "quick" else 2)}, pat)
    out = c.w.sample.morris.local.LocalOptimisation().sample(c.array(S) if not c.concrete else S, N, 2, k, 1)
    best = score(d, picked(c, out, T, N, k, 1, 2))
    cl = []
    pairs = list(itertools.combinations(range(N), 2))
    for r in range(N):
        others = [x for x in range(N) if x != r]
        for co in itertools.combinations(others, k - 1):
            far = c.all([d[r, a] > d[r, x] + 1e-3 for a in co for x in others if x not in co])
            cl.append(c.any([c.not_(far), geq(c, best, score(d, (r,) + co))]))
    c.prove(c.all(cl), "not worse than any trajectory with its farthest companions")
    top = [pq for pq in pairs if bool(c.all([d[pq] > d[xy] + 1e-3 for xy in pairs if xy != pq]))]
    if not top:
        return
    sel = set(top[0])
    while len(sel) < k:
        rest = [x for x in range(N) if x not in sel]
        far = [x for x in rest if bool(c.all([score(d, tuple(sel) + (x,)) > score(d, tuple(sel) + (y,)) + 1e-2 for y in rest if y != x]))]
        if not far:
            return
        sel.add(far[0])
    c.prove(geq(c, best, score(d, tuple(sorted(sel)))), "not worse than growing the most distant pair by the best next trajectory")


def chunks(c):
    """More combinations than are scored at once."""
    N, k = 183, 3
    far = c.choose("far", [(0, 1, 2), (5, 90, 182), (180, 181, 182)])
    X = np.array([[0.5 + 1e-4 * ((7 * i) % 11 + j)] for i in range(N) for j in range(2)])
    for t, v in zip(far, (0.0, 1.0, 0.2)):
        X[2 * t:2 * t + 2, 0] = [v, abs(v - 0.01)]
    out = c.w.sample.morris.brute.BruteForce().sample(X if c.concrete else c.array(X), N, 1, k, 1)
    rows = [round(float(v), 9) for v in c.flat(out)]
    c.prove(sorted(rows) == sorted(round(float(X[2 * t + j, 0]), 9) for t in far for j in range(2)), "the most distant trajectories are found wherever they stand")


def precision(c):
    """Nearby scores are told apart (single precision and better)."""
    which = c.choose("strategy", ["brute", "local"])
    N, k = c.choose("size", [(12, 3), (8, 4)] if which == "brute" else [(12, 2), (9, 2)])
    g = np.random.default_rng(c.int("points", 0, 7))
    near = c.choose("range", [1.0, 1e-3])
    X = g.random((2 * N, 1)) * near + (np.repeat(np.arange(N) % 3, 2)[:, None] * 0.45 if near < 1 else 0.0)
    m = c.w.sample.morris
    s = m.brute.BruteForce() if which == "brute" else m.local.LocalOptimisation()
    out = s.sample(X if c.concrete else c.array(X), N, 1, k, 1)
    V = [float(v) for v in c.flat(out)]
    T = [X[2 * t:2 * t + 2, 0] for t in range(N)]
    d = np.array([[sum(abs(a - b) for a in T[p] for b in T[q]) for q in range(N)] for p in range(N)])
    sc = lambda co: np.sqrt(sum(d[p, q] ** 2 for p, q in itertools.combinations(co, 2)))
    at = [next((t for t in range(N) if abs(T[t] - V[2 * i:2 * i + 2]).max() < 1e-12), None) for i in range(k)]
    c.prove(len(V) == 2 * k and None not in at and len(set(at)) == k, "the chosen trajectories are original ones")
    if None not in at:
        c.prove(sc(at) >= max(sc(co) for co in itertools.combinations(range(N), k)) * (1 - 1e-5), "no other choice has a higher score")


def distance(c):
    """The distance between trajectories: sum over all pairs of points of the Euclidean distance."""
    D = c.int("D", 1, 2)
    which = c.choose("strategy", ["brute", "local"])
    G = 1
    N = 3 if D == 1 else 2
    X = c.reals("x", (N * (G + 1), D), 0, 1)
    m = c.w.sample.morris
    s = m.brute.BruteForce() if which == "brute" else m.local.LocalOptimisation()
    M = s.compute_distance_matrix(X.copy(), N, D, G, local_optimization=which == "local")
    for a in range(N):
        for b in range(a):
            want = 0.0
            for p in range(G + 1):
                for q in range(G + 1):
                    if D == 1:
                        want = want + abs(X[a * 2 + p, 0] - X[b * 2 + q, 0])
                    else:
                        e = 0.0
                        for j in range(D):
                            e = e + (X[a * 2 + p, j] - X[b * 2 + q, j]) * (X[a * 2 + p, j] - X[b * 2 + q, j])
                        want = want + c.np.sqrt(e)
            same = c.all([c.eq(X[a * 2 + p, j], X[b * 2 + p, j]) for p in range(2) for j in range(D)])
            if c.concrete:
                c.prove(same or abs(float(M[a, b]) - want) < 1e-5, "distance is the sum of point distances")
                continue
            c.prove(c.any([c.eq(M[a, b], want), c.all([same, c.eq(M[a, b], 0.0)])]),
                    "distance is the sum of point distances")
            if which == "local":
                c.prove(c.eq(M[a, b], M[b, a]), "distances are symmetric")


def endtoend(c):
    D = c.int("D", 1, 2)
    N = c.int("N", 3, 4)
    k = c.int("k", 2, N - 1)
    loc = c.choose("local", [False, True])
    g = c.choose("groups", [None, ["g", "g"]] if D == 2 else [None])
    c.rng_vary = 5 if c.tier == "quick" else 8
    b = [[-1.0, 3.0], [10.0, 12.0]][:D]
    U = c.w.sample.morris.sample(problem(c, D, None, g), N, seed=7)
    X = c.w.sample.morris.sample(problem(c, D, b, g), N, optimal_trajectories=k, local_optimization=loc, seed=7)
    G = 1 if g else D
    c.prove(tuple(X.shape) == (k * (G + 1), D), "k*(G+1) rows")
    tr = [[[float(U[t * (G + 1) + r, j]) for j in range(D)] for r in range(G + 1)] for t in range(N)]
    got = [[[(float(X[t * (G + 1) + r, j]) - b[j][0]) / (b[j][1] - b[j][0]) for j in range(D)] for r in range(G + 1)]
           for t in range(k)]
    def same(a, z):
        return all(abs(x - y) < 1e-9 for p, q in zip(a, z) for x, y in zip(p, q))
    left = list(range(N))
    sel = []
    for t in got:
        m = [i for i in left if same(tr[i], t)]
        c.prove(bool(m), "each returned trajectory is one of the initial ones, used once")
        sel.append(m[0])
        left.remove(m[0])
    def dist(a, z):
        return 0.0 if same(tr[a], tr[z]) else sum(
            sum((x - y) ** 2 for x, y in zip(p, q)) ** 0.5 for p in tr[a] for q in tr[z])
    def sc(ix):
        return sum(dist(a, z) ** 2 for a, z in itertools.combinations(ix, 2))
    if k == 2 or not loc:
        c.prove(sc(sel) >= max(sc(co) for co in itertools.combinations(range(N), k)) - 1e-4,
                "the selected trajectories have maximal total distance")


def rejects(c):
    N = c.int("N", 2, 4)
    loc = c.choose("local", [False, True])
    D = c.int("D", 1, 2)
    k = c.choose("k", [1, -1, N, N + 1, 2.5])
    c.rng_vary = 0
    c.prove(raises((ValueError, AssertionError, TypeError), c.w.sample.morris.sample, problem(c, D), N, optimal_trajectories=k,
                   local_optimization=loc, seed=7), "fewer than two, not fewer than available or fractional requests are rejected")
