"""Morris trajectories."""
import itertools

from vf.lib import *

BOUNDS = ("D in 1..4 parameters (5 thorough), every grouping into at least one group, levels in {2,4,6,8} (also 10,12 thorough), N in 1..2 "
          "trajectories; every base point, direction and order of movement; all real bounds |b|<=10")
ASSUMPTIONS = ["base levels and directions stay symbolic integers; the order of movement is case-split"]


def harnesses(tier):
    return [("trajectories", {"sym_choice": True, "budget": 250}), ("scaled", {"sym_choice": True}), ("reach", {
        "cover": {"orders of movement": 6, "directions": 4, "first levels": 3, "first levels of two parameters": 4, "first levels of two trajectories": 4, "directions in a group": 4, "relation of two trajectories": 16}})]


def trajectories(c):
    D = c.int("D", 1, 5 if c.tier == "thorough" else 4)
    p = c.choose("levels", [2, 4, 6, 8] + ([10, 12] if c.tier == "thorough" and D < 4 else []) if D < 3 else [4, 6] if D < 4 else [4])
    N = c.int("N", 1, (3 if c.tier == "thorough" else 2) if D < 3 else 1)
    g = group_choice(c, D, single=True)
    P = problem(c, D, None, g)
    X = c.w.sample.morris.sample(P, N, num_levels=p, seed=7)
    mem = members({"names": names(D), "groups": g})
    G = len(mem)
    c.prove(tuple(X.shape) == (N * (G + 1), D), "N*(G+1) rows")
    delta = p / (2.0 * (p - 1))
    for t in range(N):
        r = [[X[t * (G + 1) + s, j] for j in range(D)] for s in range(G + 1)]
        opts = []
        for order in itertools.permutations(range(G)):
            parts = []
            for s in range(G):
                for k in range(G):
                    for j in mem[k]:
                        d = r[s + 1][j] - r[s][j]
                        if k == order[s]:
                            parts.append(c.any([c.near(d, delta), c.near(d, -delta)]))
                        else:
                            parts.append(c.near(d, 0.0))
            opts.append(c.all(parts))
        c.prove(c.any(opts), "each step moves exactly one group by delta, each group once")
        for s in range(G + 1):
            for j in range(D):
                c.prove(c.any([c.near(r[s][j] * (p - 1), float(k)) for k in range(p)]), "every point lies on the level grid")


def scaled(c):
    D = c.int("D", 1, 3)
    g = group_choice(c, D, single=True)
    b = sym_bounds(c, D)
    N = 2 if D < 3 else 1
    U = c.w.sample.morris.sample(problem(c, D, None, g), N, seed=7)
    X = c.w.sample.morris.sample(problem(c, D, b, g), N, seed=7)
    c.prove(tuple(X.shape) == tuple(U.shape), "shape")
    for i in range(len(X)):
        for j in range(D):
            c.prove(c.eq(X[i, j], b[j][0] + U[i, j] * (b[j][1] - b[j][0])), "points are scaled to the bounds of their column")


def reach(c):
    kind = c.choose("kind", ["order", "direction", "level", "pair", "levels", "trajectories", "group"])
    D = {"order": 3, "level": 1, "trajectories": 1}.get(kind, 2)
    if kind == "order":
        c.rng_vary = 3
    N = 2 if kind in ("pair", "trajectories") else 1
    X = c.w.sample.morris.sample(problem(c, D, None, ["g", "g"] if kind == "group" else None), N,
                                 num_levels={"level": 6, "levels": 4, "trajectories": 4}.get(kind, 2), seed=7)
    if kind == "group":
        c.cover("directions in a group", (bool(X[1, 0] > X[0, 0]), bool(X[1, 1] > X[0, 1])))
        c.prove(True, "reached")
        return
    X = [[float(X[i, j]) for j in range(D)] for i in range(N * (D + 1))]
    def order(t):
        return tuple(next(j for j in range(D) if abs(X[t * (D + 1) + s + 1][j] - X[t * (D + 1) + s][j]) > 0.1)
                     for s in range(D))
    def direction(t):
        return tuple(X[t * (D + 1) + D][j] > X[t * (D + 1)][j] for j in range(D))
    if kind == "order":
        c.cover("orders of movement", order(0))
    elif kind == "direction":
        c.cover("directions", direction(0))
    elif kind == "level":
        c.cover("first levels", round(min(X[0][0], X[1][0]) * 5))
    elif kind == "levels":
        c.cover("first levels of two parameters", tuple(round(min(r[j] for r in X) * 3) for j in range(2)))
    elif kind == "trajectories":
        c.cover("first levels of two trajectories", tuple(round(min(X[2 * t][0], X[2 * t + 1][0]) * 3) for t in range(2)))
    else:
        c.cover("relation of two trajectories", (order(0), order(1), direction(0)[0], direction(1)[1]))
    c.prove(True, "reached")
