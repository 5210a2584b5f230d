"""Fractional factorial design."""
import copy

from vf.lib import *

BOUNDS = ("1..6 parameters (10 thorough) with all real bounds |b|<=10; the exponent for every count up to 40 and around every power of two up to 2048; "
          "distributions: uniform and triangular columns (bounded ones)")


def harnesses(tier):
    return [("design", {}), ("distributions", {}), ("sizes", {}), ("padding", {})]


def levels(c, X, lo, hi):
    """Matrix of +1/-1 levels, None where a value is neither bound."""
    out = []
    for i in range(X.shape[0]):
        row = []
        for j in range(X.shape[1]):
            if bool(c.eq(X[i, j], hi[j])):
                row.append(1)
            elif bool(c.eq(X[i, j], lo[j])):
                row.append(-1)
            else:
                row.append(None)
        out.append(row)
    return out


def pow2(d):
    k = 1
    while k < d:
        k *= 2
    return k


def check_design(c, X, b, d):
    K = pow2(d)
    c.prove(tuple(X.shape) == (2 * K, K), "2*2^k rows and 2^k columns for the smallest 2^k not below the parameter count")
    lo = [b[j][0] if j < d else 0.0 for j in range(K)]
    hi = [b[j][1] if j < d else 1.0 for j in range(K)]
    L = levels(c, X, lo, hi)
    c.prove(all(v is not None for r in L for v in r), "every value is the lower or the upper bound of its own column")
    if any(v is None for r in L for v in r):
        return
    c.prove(all(L[i][j] == -L[i + K][j] for i in range(K) for j in range(K)), "the second half exchanges the levels of the first")
    c.prove(all(sum(L[i][j] for i in range(2 * K)) == 0 for j in range(K)), "every column is balanced")
    c.prove(all(sum(L[i][j] * L[i][k] for i in range(2 * K)) == 0 for j in range(K) for k in range(j)), "columns are orthogonal")
    c.prove(len(set(map(tuple, L))) == 2 * K, "no run is repeated")


def unchanged(c, p, q):
    p = {k: v for k, v in p.items() if k != "sample_scaled"}
    ok = set(p) == set(q) and p["names"] == q["names"] and p["num_vars"] == q["num_vars"] and len(p["bounds"]) == len(q["bounds"]) \
        and p.get("groups") == q.get("groups") and p.get("dists") == q.get("dists")
    c.prove(ok, "the caller's problem keeps its size, names, groups and distributions")


def design(c):
    d = c.int("D", 1, 10 if c.tier == "thorough" else 6)
    b = sym_bounds(c, d)
    g = c.choose("groups", [None, ["gA"] * (d - 1) + ["gB"]]) if d > 1 else None
    p = problem(c, d, [list(r) for r in b], g)
    q = {k: (list(v) if isinstance(v, list) else v) for k, v in p.items()}
    X = c.w.sample.ff.sample(p, seed=3)
    check_design(c, X, b, d)
    unchanged(c, p, q)
    c.prove(c.all([c.eq(p["bounds"][j][k], b[j][k]) for j in range(d) for k in (0, 1)]), "the caller's bounds are unchanged")
    Z = c.w.sample.ff.sample(p, seed=3)
    c.prove_all_eq(Z, X, "sampling again from the same problem gives the same design")


def distributions(c):
    d = c.choose("D", [2, 3, 5])
    k = c.int("triangular column", 0, d - 1)
    b = sym_bounds(c, d)
    bb = [list(r) + ([0.3] if j == k else []) for j, r in enumerate(b)]
    p = problem(c, d, bb, None, dists=["triang" if j == k else "unif" for j in range(d)])
    q = {k: (list(v) if isinstance(v, list) else v) for k, v in p.items()}
    X = c.w.sample.ff.sample(p, seed=3)
    check_design(c, X, b, d)
    unchanged(c, p, q)


def sizes(c):
    d = c.choose("D", list(range(1, 41)) + [64, 65, 128, 129, 256, 257, 511, 512, 513, 600, 1024, 1025, 2048])
    p = problem(c, d)
    K = pow2(d)
    q = c.w.sample.ff.extend_bounds(p)
    c.prove(q["num_vars"] == K and len(q["names"]) == K and len(q["bounds"]) == K, "extended to the smallest power of two")
    c.prove(list(q["names"][:d]) == names(d) and len(set(q["names"])) == K, "own parameters first, every name distinct")
    if K <= 64:
        C = c.w.sample.ff.generate_contrast(p)
        c.prove(tuple(C.shape) == (2 * K, K), "contrast has 2*2^k rows")


def padding(c):
    """The analysis names exactly the columns of the design."""
    d = c.int("D", 1, 6)
    p = problem(c, d)
    X = c.w.sample.ff.sample(p)
    Y = c.reals("Y", len(X), -10, 10)
    S = c.w.analyze.ff.analyze(p, X, Y)
    nm = list(S["names"])
    c.prove(len(nm) == X.shape[1] and len(S["ME"]) == X.shape[1] and nm[:d] == names(d), "one effect per column, own parameters first")
    c.prove(p["names"] == names(d) and p["num_vars"] == d and len(p["bounds"]) == d, "the caller's problem is not extended by the analysis")
