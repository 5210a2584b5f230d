"""The Sobol' sequence generator is a digital net with the documented recurrence."""
import z3

from vf import bv
from vf.lib import *

BOUNDS = ("sequences of up to 32 points (64 thorough) with every table entry of degree <=5 (6 thorough): all odd initial direction "
          "numbers m_j < 2^j and all coefficient words; the direction numbers of degree 6..18 with the points in between left out; every index below 2^12; every row of the shipped table")
ASSUMPTIONS = ["integers are 48-bit vectors (no value of the generator exceeds 31 bits)"]
ONE = 1 << 31


def harnesses(tier):
    return [("net", {"timeout": 60000}), ("degrees", {"timeout": 60000}), ("lowest_zero", {}), ("table", {"timeout": 120000}), ("limits", {})]


def word(c, x):
    """The 31-bit word behind one coordinate."""
    if isinstance(x, bv.Fix):
        c.prove(x.den == ONE, "coordinates are multiples of 2^-31")
        return x.bv
    v = int(round(float(x) * ONE))
    return v


def net(c):
    s = c.int("degree", 1, 6 if c.tier == "thorough" else 5)
    L = c.int("L", 0, 6 if c.tier == "thorough" else 5)
    a = bv.new(c, "a", (1 << (s - 1)) - 1)
    m = []
    for j in range(1, s + 1):
        v = bv.new(c, "m%d" % j, (1 << j) - 1)
        c.assume((v & 1) == 1)
        m.append(v)
    row = tuple([a] + m)
    c.w.load("SALib.sample.sobol_sequence")
    mod = c.w.mods["SALib.sample.sobol_sequence"]
    mod.directions = (row, row)
    D = c.int("D", 1, 3)
    N = 1 << L
    X = mod.sample(N, D)
    c.prove(tuple(X.shape) == (N, D), "shape")
    P = [[word(c, X[i, d]) for d in range(D)] for i in range(N)]
    # reference direction words
    for d in range(D):
        if d == 0:
            V = [None] + [1 << (31 - j) for j in range(1, L + 1)]
        else:
            mm = [None] + m
            for j in range(s + 1, L + 1):
                t = (mm[j - s] << s) ^ mm[j - s]
                for k in range(1, s):
                    t = t ^ (((a >> (s - 1 - k)) & 1) * (mm[j - k] << k))
                mm.append(t)
            V = [None] + [mm[j] << (31 - j) for j in range(1, L + 1)]
        c.prove(P[0][d] == 0, "the first point is the origin")
        for i in range(1, N):
            z = 1
            while (i - 1) >> (z - 1) & 1:
                z += 1
            c.prove((P[i][d] ^ P[i - 1][d]) == V[z],
                    "steps use the direction number of the lowest zero bit, continued by the recurrence")
        for i in range(N):
            c.prove(P[i][d] < ONE, "coordinates below one")
        for k in range(1, L + 1):
            for b in range(0, N, 1 << k):
                cells = [P[i][d] >> (31 - k) for i in range(b, b + (1 << k))]
                if c.concrete or not any(isinstance(x, bv.BV) for x in cells):
                    c.prove(len(set(int(x) for x in cells)) == len(cells), "one point per elementary cell")
                else:
                    at = frozenset().union(*[bv.lift(x).at for x in cells])
                    c.prove(bv.SymBool(z3.Distinct(*[bv.lift(x).z for x in cells]), at),
                            "one point per elementary cell")
    # prefixes
    if N > 1:
        n2 = c.choose("prefix", sorted({1, N // 2 + 1, N - 1}))
        Q = mod.sample(n2, D)
        c.prove(c.all([word(c, Q[i, d]) == P[i][d] for i in range(n2) for d in range(D)]),
                "asking for more points extends the earlier output")
    if D > 1:
        Q = mod.sample(N, D - 1)
        c.prove(c.all([word(c, Q[i, d]) == P[i][d] for i in range(N) for d in range(D - 1)]),
                "asking for more dimensions extends the earlier output")


class Count:
    """The number of points 2^L where the numbers are made, but a short run of the points themselves."""
    symlike = False

    def __init__(self, n, L):
        self.n, self.L = n, L

    def __index__(self):
        return self.n

    def __float__(self):
        return float(1 << self.L)


def degrees(c):
    """Direction numbers of every degree in the table: with each point changing one more direction number, the
    words between consecutive points are the direction numbers themselves."""
    s = c.int("degree", 6, 18)
    L = min(s + c.int("extra", 1, 2 if c.tier == "quick" else 6), 22)
    a = bv.new(c, "a", (1 << (s - 1)) - 1)
    m = [None]
    for j in range(1, s + 1):
        v = bv.new(c, "m%d" % j, (1 << j) - 1)
        c.assume((v & 1) == 1)
        m.append(v)
    row = tuple([a] + m[1:])
    c.w.load("SALib.sample.sobol_sequence")
    mod = c.w.mods["SALib.sample.sobol_sequence"]
    mod.directions = (row, row)
    if c.concrete:
        L = min(L, 20)
        X = mod.sample(1 << L, 2)
        got = [None] + [word(c, X[1 << (j - 1), 1]) ^ word(c, X[(1 << (j - 1)) - 1, 1]) for j in range(1, L + 1)]
    else:
        mod.index_of_least_significant_zero_bit = lambda i: int(i) + 1
        X = mod.sample(Count(L + 1, L), 2)
        w = [word(c, X[i, 1]) for i in range(L + 1)]
        got = [None] + [w[j] ^ w[j - 1] for j in range(1, L + 1)]
    for j in range(s + 1, L + 1):
        t = (m[j - s] << s) ^ m[j - s]
        for k in range(1, s):
            t = t ^ (((a >> (s - 1 - k)) & 1) * (m[j - k] << k))
        m.append(t)
    for j in range(1, L + 1):
        c.prove(got[j] == (m[j] << (31 - j)), "direction numbers of every degree continue by the recurrence")


def lowest_zero(c):
    v = bv.new(c, "value", (1 << 12) - 1)
    f = c.w.sample.sobol_sequence.index_of_least_significant_zero_bit
    r = int(f(v))
    c.prove(((v >> (r - 1)) & 1) == 0, "that bit is zero")
    low = (1 << (r - 1)) - 1
    c.prove((v & low) == low, "all lower bits are one")


def table(c):
    """Every row of the shipped table: odd initial numbers m_j < 2^j, coefficient word in range."""
    import numpy as np
    t = c.w.sample.directions.directions
    row = c.symint("row", 0, len(t) - 1)
    if c.concrete:
        r = t[row]
        s = len(r) - 1
        ok = s >= 1 and 0 <= r[0] < (1 << max(s - 1, 0)) and all(
            r[j] % 2 == 1 and 0 < r[j] < (1 << j) for j in range(1, s + 1))
        c.prove(ok, "table row is a valid set of initial direction numbers")
        return
    z = z3.Int("in:row")
    bad = []
    for i, r in enumerate(t):
        s = len(r) - 1
        if s < 1 or not 0 <= r[0] < (1 << max(s - 1, 0)) or any(
                r[j] % 2 == 0 or not 0 < r[j] < (1 << j) for j in range(1, s + 1)):
            bad.append(z == i)
    at = c.inputs["row"][1]
    c.prove(bv.SymBool(z3.Not(z3.Or(*bad)) if bad else z >= 0, frozenset([at.id])),
            "table row is a valid set of initial direction numbers")
    keys = set((len(r) - 1, r[0]) for r in t)
    c.prove(len(keys) == len(t), "no two dimensions share a primitive polynomial")


def limits(c):
    f = c.w.sample.sobol_sequence
    D = c.int("extra", 0, 2)
    n = len(f.directions) if hasattr(f, "directions") else 0
    c.prove(raises(ValueError, f.sample, 2, n + 2 + D), "more dimensions than the table supports are rejected")
