from vf import world
from vf.lib import *

BOUNDS = ("N in 1..3 base points (5 thorough), 1..4 parameters (5 thorough), every partition into groups (and no groups), "
          "second order on/off, scramble on/off, skip in {0,1,2,3,4} (Sobol) / {None,0,1,2,4,5} (Saltelli); "
          "all base points in [0,1), all bounds with |b|<=10")
ASSUMPTIONS = ["the low-discrepancy generator is a stub returning an arbitrary point in [0,1)^2D as a "
               "function of (scramble seed, dimension, position)"]


def harnesses(tier):
    hs = [("sobol_layout", {}), ("saltelli_layout", {}), ("bad_skip", {})]
    return hs


def expect_rows(c, base, p, second):
    """Documented block layout for one base point (a, b)."""
    D = p["num_vars"]
    rows = []
    for a, b in base:
        rows.append(list(a))
        for g in members(p):
            rows.append([b[j] if j in g else a[j] for j in range(D)])
        if second:
            for g in members(p):
                rows.append([a[j] if j in g else b[j] for j in range(D)])
        rows.append(list(b))
    return [[lo + (hi - lo) * v for v, (lo, hi) in zip(r, p["bounds"])] for r in rows]


def check(c, X, base, p, second, tag):
    want = expect_rows(c, base, p, second)
    G = len(members(p))
    c.prove(tuple(X.shape) == (len(base) * ((2 * G if second else G) + 2), p["num_vars"]), tag + ": shape")
    c.prove_all_eq(X, want, tag + ": rows are A, AB_1..AB_k, (BA_1..BA_k), B of each base point")


def mk(c):
    D = c.int("D", 1, 5 if c.tier == "thorough" else 4)
    N = c.int("N", 1, 5 if c.tier == "thorough" else 3 if D < 4 else 2)
    g = group_choice(c, D)
    second = c.choose("second", [True, False])
    b = sym_bounds(c, D)
    return D, N, problem(c, D, b, g), second


def sobol_layout(c):
    D, N, p, second = mk(c)
    skip = c.choose("skip", [0, 1, 2, 3, 4] if c.tier == "thorough" or D < 4 else [0, 1])
    scr = c.choose("scramble", [True, False])
    X = c.w.sample.sobol.sample(dict(p), N, calc_second_order=second, scramble=scr,
                                skip_values=skip, seed=7)
    e = world.SobolEngine(2 * D, scramble=scr, seed=7).fast_forward(skip).random(N)
    base = [([e[i, j] for j in range(D)], [e[i, j + D] for j in range(D)]) for i in range(N)]
    check(c, X, base, p, second, "sobol")


def saltelli_layout(c):
    D, N, p, second = mk(c)
    skip = c.choose("skip", [None, 0, 1, 2, 4, 5] if c.tier == "thorough" or D < 4 else [None, 1])
    seq = {}

    def val(i, j):
        return c.memo_real("base[%d,%d]" % (i, j), 0, 1)

    def stub(n, d):
        c.prove(d == 2 * D, "saltelli: base sequence dimension")
        return c.array(c.w_obj([[val(i, j) if i >= lo0 else 0.0 for j in range(d)] for i in range(n)]))
    c.w.load("SALib.sample.sobol_sequence")
    s0 = 16 if skip is None else skip
    lo0 = s0
    c.w.mods["SALib.sample.sobol_sequence"].sample = stub
    X = c.w.sample.saltelli.sample(dict(p), N, calc_second_order=second, skip_values=skip)
    base = [([val(s0 + i, j) for j in range(D)], [val(s0 + i, j + D) for j in range(D)])
            for i in range(N)]
    check(c, X, base, p, second, "saltelli")


def bad_skip(c):
    D, N = 2, 2
    p = problem(c, D)
    s = c.int("skip", -3, -1)
    which = c.choose("which", ["sobol", "saltelli"])
    f = getattr(c.w.sample, which).sample
    c.prove(raises((ValueError, AssertionError), f, dict(p), N, skip_values=s), "negative skip rejected")
