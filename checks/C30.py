"""The bundled test functions compute their published formulas row by row."""
import math

import numpy as np

from vf.lib import *

BOUNDS = ("1..3 rows (thorough 4); all real inputs and coefficients; Sobol-G with 1..3 parameters (and the default 8), every delta in [0,1], curvatures from "
          "{1/2, 1, 2, 3} in the formula and arbitrary positive in the analytic indices; linear models with 1..6 and 5 columns; Oakley-O'Hagan with 1..3 inputs; "
          "lake recurrence with exponents 2, 3, 4")
ASSUMPTIONS = ["sin, cos and non-integer powers are uninterpreted functions (equal arguments give equal values)"]


def harnesses(tier):
    return [("ishigami", {}), ("sobol_g", {}), ("sobol_g_default", {}), ("sobol_g_rejects", {}), ("sobol_g_indices", {}),
            ("linear", {}), ("oakley", {}), ("lake", {}), ("lake_run", {}), ("lake_outputs", {"rng_real_const": True})]


def model(c, name):
    return c.w.load("SALib.test_functions." + name)


def rows(c, n, d, lo=-5, hi=5):
    return [[c.real("x%d_%d" % (i, j), lo, hi) for j in range(d)] for i in range(n)]


def nrows(c):
    return c.choose("rows", [1, 2, 3] + ([4] if c.tier == "thorough" else []))


def check(c, Y, want, what):
    c.prove(tuple(Y.shape) == (len(want),), what + ": one value per row")
    c.prove_all_eq(list(Y), want, what)


def ishigami(c):
    n = nrows(c)
    x = rows(c, n, 3)
    np_ = c.w.np
    k = {}
    A, B = 7.0, 0.1
    if c.choose("coefficients", [False, True]):
        A, B = c.real("A", -20, 20), c.real("B", -5, 5)
        k = {"A": A, "B": B}
    Y = model(c, "Ishigami").evaluate(c.array(c.w_obj(x)), **k)
    check(c, Y, [np_.sin(r[0]) + A * np_.sin(r[1]) * np_.sin(r[1]) + B * r[2] * r[2] * r[2] * r[2] * np_.sin(r[0]) for r in x],
          "sin x1 + A sin^2 x2 + B x3^4 sin x1")


def power(c, v, al):
    if al == 0.5:
        return c.w.np.sqrt(v)
    out = v
    for _ in range(int(al) - 1):
        out = out * v
    return out


def g_value(c, r, a, d, al):
    out = 1.0
    for x, ai, di, l in zip(r, a, d, al):
        s = x + di
        # s lies in [0, 2]: the integral part is 0, 1 or 2
        if bool(s >= 2):
            f = s - 2
        elif bool(s >= 1):
            f = s - 1
        else:
            f = s
        v = 2 * f - 1
        v = v if bool(v >= 0) else -v
        out = out * (((1 + l) * power(c, v, l) + ai) / (1 + ai))
    return out


def sobol_g(c):
    D, n = c.choose("size", [(1, 2), (2, 1), (3, 1)] if c.tier == "quick" else [(1, 3), (2, 2), (3, 2)])
    x = rows(c, n, D, 0, 1)
    a = [c.real("a%d" % j, 0, 100) for j in range(D)]
    k = {"a": c.array(c.w_obj(a))}
    mode = c.choose("mode", ["plain", "delta", "alpha", "both"])
    d, al = [0.0] * D, [1] * D
    if mode in ("delta", "both"):
        d = [c.real("delta%d" % j, 0, 1) for j in range(D)]
        k["delta"] = c.array(c.w_obj(d))
    if mode in ("alpha", "both"):
        al = [[2, 0.5, 3], [1, 2, 0.5]][c.choose("alpha", [0, 1])][:D]
        k["alpha"] = c.w.np.array([float(v) for v in al])
    Y = model(c, "Sobol_G").evaluate(c.array(c.w_obj(x)), **k)
    check(c, Y, [g_value(c, r, a, d, al) for r in x], "product of ((1+alpha)|2 frac(x+delta)-1|^alpha+a)/(1+a)")


def sobol_g_default(c):
    free = c.choose("symbolic inputs", [(0, 3), (2, 3), (7, 3)] if c.tier == "quick" else [(i, j) for i in range(8) for j in range(i)])
    x = [[c.real("x%d" % j, 0, 1) if j in free else 0.3 + 0.05 * j for j in range(8)]]
    Y = model(c, "Sobol_G").evaluate(c.array(c.w_obj(x)))
    check(c, Y, [g_value(c, r, [0, 1, 4.5, 9, 99, 99, 99, 99], [0.0] * 8, [1] * 8) for r in x], "default coefficients 0, 1, 4.5, 9, 99, 99, 99, 99")


def sobol_g_rejects(c):
    f = model(c, "Sobol_G").evaluate
    what = c.choose("what", ["values", "delta", "alpha", "types"])
    x = rows(c, 2, 2, -1, 2) if what == "values" else [[0.2, 0.4], [0.6, 0.8]]
    X = c.array(c.w_obj(x))
    k = {"a": c.w.np.array([0.0, 1.0])}
    if what == "types":
        c.prove(raises(TypeError, f, [[0.1, 0.2]], **k), "a list of samples is refused")
        c.prove(raises(TypeError, f, X, delta=[0.1, 0.2], **k) and raises(TypeError, f, X, alpha=[1.0, 2.0], **k), "lists of shifts or curvatures are refused")
        return
    bad = [v < 0 for r in x for v in r] + [v > 1 for r in x for v in r] if what == "values" else None
    if what == "delta":
        d = [c.real("delta%d" % j, -1, 2) for j in range(2)]
        k["delta"] = c.array(c.w_obj(d))
        bad = [v < 0 for v in d] + [v > 1 for v in d]
    elif what == "alpha":
        al = [c.real("alpha%d" % j, -1, 1) for j in range(2)]
        k["alpha"] = c.array(c.w_obj(al))
        bad = [v <= 0 for v in al]
    isbad = bool(c.any(bad))
    if what == "alpha" and not isbad:
        return      # non-integer powers: covered by sobol_g
    c.prove(raises(ValueError, f, X, **k) == isbad, "rejected iff %s out of range" % what)


def sobol_g_indices(c):
    m = model(c, "Sobol_G")
    D = c.choose("D", [1, 2, 3] if c.tier == "quick" else [1, 2, 3, 4])
    a = [c.real("a%d" % j, 0, 100) for j in range(D)]
    al = None
    if c.choose("alpha", [False, True]):
        al = [c.real("alpha%d" % j, 0.01, 10) for j in range(D)]
    as_list = c.choose("a as a list", [False, True])
    A = list(a) if as_list else c.array(c.w_obj(a))
    L = c.array(c.w_obj(al)) if al else None
    ll = al or [1] * D
    V = [l * l / ((1 + 2 * l) * (1 + x) * (1 + x)) for x, l in zip(a, ll)]
    tot = 1
    for v in V:
        tot = tot * (1 + v)
    tot = tot - 1
    s1 = m.sensitivity_index(A, L) if al else m.sensitivity_index(A)
    st = m.total_sensitivity_index(A, L) if al else m.total_sensitivity_index(A)
    rest = []
    for i in range(D):
        p = V[i]
        for j in range(D):
            if j != i:
                p = p * (1 + V[j])
        rest.append(p)
    c.prove(len(s1) == D and len(st) == D, "one index per coefficient")
    c.prove_all_eq([v * tot for v in s1], V, "first-order index is V_i / V")
    c.prove_all_eq([v * tot for v in st], rest, "total index is V_i prod(1+V_j) / V")


def linear(c):
    n = nrows(c)
    which = c.choose("model", [1, 2])
    D = c.choose("D", [1, 2, 5, 6]) if which == 1 else 5
    x = rows(c, n, D, None, None)
    Y = model(c, "linear_model_%d" % which).evaluate(c.array(c.w_obj(x)))
    w = [1] * D if which == 1 else [5, 4, 3, 2, 1]
    want = []
    for r in x:
        s = 0
        for k, v in zip(w, r):
            s = s + k * v
        want.append(s)
    check(c, Y, want, "weighted sum of the row")


def oakley(c):
    n, D = nrows(c), c.choose("D", [1, 2, 3])
    x = rows(c, n, D)
    A = [[c.real("a%d_%d" % (i, j), -3, 3) for j in range(D)] for i in range(3)]
    M = [[c.real("m%d_%d" % (i, j), -3, 3) for j in range(D)] for i in range(D)]
    np_ = c.w.np
    Y = model(c, "oakley2004").evaluate(c.array(c.w_obj(x)), c.array(c.w_obj(A)), c.array(c.w_obj(M)))
    want = []
    for r in x:
        s = 0
        for j in range(D):
            s = s + A[0][j] * r[j] + A[1][j] * np_.sin(r[j]) + A[2][j] * np_.cos(r[j])
            for k in range(D):
                s = s + r[j] * M[j][k] * r[k]
        want.append(s)
    check(c, Y, want, "a1.x + a2.sin x + a3.cos x + x'Mx")


def lake(c):
    n = nrows(c)
    q = c.choose("q", [2, 3, 4])
    f = model(c, "lake_problem").lake_problem
    X = [c.real("P%d" % i, 0, 5) for i in range(n)]
    k = c.choose("given", ["all", "defaults", "arrays"])
    if k == "defaults":
        a, b, eps, q = [0.1] * n, [0.42] * n, [0.02] * n, 2
        Y = f(c.array(c.w_obj(X)))
    else:
        a, b, eps = ([c.real("%s%d" % (s, i if k == "arrays" else 0), 0, 1) for i in range(n)] if k == "arrays" else [c.real(s, 0, 1)] * n for s in ("a", "b", "eps"))
        arr = lambda v: c.array(c.w_obj(v)) if k == "arrays" else v[0]
        Y = f(c.array(c.w_obj(X)), arr(a), q, arr(b), arr(eps))
    want = []
    for i in range(n):
        p = power(c, X[i], q)
        want.append(X[i] + a[i] + p / (1 + p) - b[i] * X[i] + eps[i])
    check(c, Y, want, "X + a + X^q/(1+X^q) - bX + eps")


def lake_run(c):
    """The simulated lakes: every step applies the recurrence to the step before, starting from an empty lake."""
    n = c.choose("scenarios", [2] if c.tier == "quick" else [2, 3])
    mean, std = 0.03, 0.0025
    a, b = [c.real("a%d" % i, 0, 0.1) for i in range(n)], [c.real("b%d" % i, 0.1, 0.45) for i in range(n)]
    Y = model(c, "lake_problem").evaluate_lake(c.array(c.w_obj([[a[i], 2, b[i], mean, std] for i in range(n)])), seed=11)
    c.prove(tuple(Y.shape) == (n, n), "one step per row, one scenario per column")
    eps = c.w.np.random.default_rng(11).lognormal(np.full(n, math.log(mean ** 2 / math.sqrt(std ** 2 + mean ** 2))),
                                                  np.full(n, math.sqrt(math.log(1 + std ** 2 / mean ** 2))), size=n)
    X = [0.0] * n
    for t in range(n):
        X = [X[i] + a[i] + X[i] * X[i] / (1 + X[i] * X[i]) - b[i] * X[i] + eps[i] for i in range(n)]
        c.prove_all_eq(list(Y[t]), X, "every step follows from the step before", tol=1e-7)


def lake_outputs(c):
    """Utility is the discounted benefit; a row's outputs depend on that row alone."""
    m = model(c, "lake_problem")
    n = c.choose("rows", [1, 2])
    T = c.choose("decisions", [1, 2, 4])
    base = [[0.05, 2.0, 0.42, 0.02, 0.0017], [0.01, 3.0, 0.2, 0.04, 0.003]]
    d, al = [c.real("delta%d" % i, 0.9, 0.99) for i in range(n)], [c.real("alpha%d" % i, 0.1, 2) for i in range(n)]
    V = [base[i] + [d[i], al[i]] for i in range(n)]
    Y = m.evaluate(c.array(c.w_obj(V)), nvars=T, seed=5)
    c.prove(tuple(Y.shape) == (n, 4), "four outputs per row")
    for i in range(n):
        u, f = 0.0, 1.0
        for _ in range(T):
            u = u + al[i] * base[i][0] * f
            f = f * d[i]
        c.prove(c.eq(Y[i, 1], u), "utility is alpha * a * sum of delta^t")
        top = max(float(v) for v in m.evaluate_lake(c.np.array(np.array(base[i])), seed=5).ravel())
        c.prove(c.near(Y[i, 0], top, tol=1e-9), "the highest pollution of the simulation of this row")
        Z = m.evaluate(c.array(c.w_obj([V[i]])), nvars=T, seed=5)
        c.prove_all_eq(list(Y[i]), list(Z[0]), "a row's outputs depend on that row alone")
