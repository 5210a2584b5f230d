"""HDMR."""
import itertools

import numpy as np

from vf.hdmrlib import *

BOUNDS = ("whole analyses of 300 samples (up to 330 with bootstrap): 2 and 3 inputs, orders 1..3, 1..3 spline intervals, 1..3 backfitting sweeps, 1 or 2 bootstrap subsamples; inputs of a fixed pattern under any "
          "symbolic shift and positive scale per input, outputs u + a*v for fixed vectors and all real a in a range; the decomposition alone for 2..3 arbitrary components over 3..4 samples; splines for "
          "every position in the range; every out-of-range option")
ASSUMPTIONS = ["the subsample draws are fixed pseudo-random numbers"]


def harnesses(tier):
    return [("fit", {"rng_hash": True, "rng_real_const": True, "budget": 400}), ("bootstrap", {"rng_hash": True, "rng_real_const": True, "budget": 300}), ("scaling", {"rng_hash": True, "rng_real_const": True}),
            ("decomposition", {}), ("basis", {}), ("emulator", {"rng_hash": True, "rng_real_const": True}), ("options", {"rng_hash": True, "rng_real_const": True})]


def kernel(t):
    """Cardinal cubic B-spline."""
    t = np.abs(t)
    return np.where(t < 1, 2 / 3 - t * t + t ** 3 / 2, np.where(t < 2, (2 - t) ** 3 / 6, 0.0))


def splines(U, m):
    u = (U - U.min(0)) / (U.max(0) - U.min(0))
    return np.stack([kernel(m * u - k) for k in range(-1, m + 2)], axis=1) * m ** 3


def components(B, D, mo, Y, sweeps, lam):
    """Reference fit (linear in the outputs): ridge regression of every input on its own, then
    backfitting sweeps; higher orders fit what the lower ones leave."""
    m1 = B.shape[1]
    Y = Y - Y.mean()
    T = [np.linalg.solve(B[:, :, j].T @ B[:, :, j] + lam * np.eye(m1), B[:, :, j].T) for j in range(D)]
    F = [B[:, :, j] @ (T[j] @ Y) for j in range(D)]
    for _ in range(sweeps):
        for j in range(D):
            F[j] = B[:, :, j] @ (T[j] @ (Y - sum(F[z] for z in range(D) if z != j)))
    res = Y - sum(F)
    for o in range(2, mo + 1):
        new = []
        for t in itertools.combinations(range(D), o):
            P = B[:, :, t[0]]
            for j in t[1:]:
                P = (P[:, :, None] * B[:, None, :, j]).reshape(len(P), -1)
            G = P.T @ P
            s = np.linalg.svd(G)[1]
            new.append(P @ np.linalg.solve(G + lam * np.eye(G.shape[0]), P.T @ res) if s.all() else 0 * res)
        F += new
        res = res - sum(new)
    return np.array(F).T


def fit(c):
    D, mo, m, it, al = c.choose("case", [(2, 1, 1, 1, 0.95), (2, 2, 2, 3, 0.9), (3, 1, 3, 2, 0.95), (3, 2, 1, 1, 0.5), (3, 3, 1, 2, 0.95)])
    N, lam = 300, c.choose("lambda", [0.01, 1.0]) if D == 2 else 0.05
    U = design(N, D)
    V, k, Y = outputs(c, U)
    S = c.w.analyze.hdmr.analyze(problem(c, D), c.np.array(U), Y, maxorder=mo, maxiter=it, m=m, K=1, alpha=al, lambdax=lam, seed=1)
    B = splines(U, m)
    F = np.array([components(B, D, mo, v, it, lam) for v in V])
    L = Lin(k)
    for t in range(F.shape[2]):
        for i in (0, 17, 299):
            c.prove(c.near(S["Y_em"][i, t], L.val(F[:, :, t], i), tol=1e-6), "component functions are the regularised spline fits")
    for i in (0, 150, 299):
        c.prove(c.near(S["Em"]["Y_e"][i, 0], L.val(F.sum(2) + V.mean(1, keepdims=True), i), tol=1e-6), "the emulated output is the mean plus all components")
    r = V - V.mean(1, keepdims=True) - F.sum(2)
    c.prove(c.near(S["Em"]["RMSE"][0] * S["Em"]["RMSE"][0] * N, sum_sq(L, r), tol=1e-6), "RMSE compares emulated and given outputs")
    select(c, S["Em"]["select"][:, 0], D, mo, lambda o: (m + 3) ** o, L, F, V, al, N)
    for t in range(F.shape[2]):
        c.prove(c.eq(S["select"][t], S["Em"]["select"][t, 0]), "select counts the subsamples in which the term is significant")
    indices(c, S, D, mo, L, [F], [V], N, al, "one sample")


def bootstrap(c):
    D, mo, m, R = c.choose("case", [(2, 2, 1, None), (3, 1, 2, 300), (2, 1, 1, 300)])
    N, K, al = 330, 2, 0.9
    U = design(N, D)
    V, k, Y = outputs(c, U)
    S = c.w.analyze.hdmr.analyze(problem(c, D), c.np.array(U), Y, maxorder=mo, maxiter=1, m=m, K=K, R=R, alpha=al, seed=1)
    idx = np.array([[int(v) for v in r] for r in S["idx"]])
    n = R or N // 2
    c.prove(idx.shape == (n, K) and all(len(set(idx[:, q])) == n for q in range(K)) and idx.min() >= 0 and idx.max() < N, "subsamples of the requested size, without repetition")
    c.prove(not np.array_equal(np.sort(idx[:, 0]), np.sort(idx[:, 1])), "subsamples are drawn independently")
    B = splines(U, m)
    F = [np.array([components(B[idx[:, q]], D, mo, v[idx[:, q]], 1, 0.01) for v in V]) for q in range(K)]
    L = Lin(k)
    for q in range(K):
        c.prove(c.near(S["Em"]["f0"][q], mean([L.val(V, i) for i in idx[:, q]]), tol=1e-7), "f0 is the mean of the subsample")
        select(c, S["Em"]["select"][:, q], D, mo, lambda o: (m + 3) ** o, L, F[q], V[:, idx[:, q]], al, n)
    indices(c, S, D, mo, L, F, [V[:, idx[:, q]] for q in range(K)], n, al, "subsamples")


def scaling(c):
    """Inputs enter through their position within their own range."""
    D = 2
    N = 300
    U = design(N, D)
    sc = [c.real("scale%d" % j, 0.1, 10) for j in range(D)]
    sh = [c.real("shift%d" % j, -5, 5) for j in range(D)]
    X = c.array(c.w_obj([[float(U[i, j]) * sc[j] + sh[j] for j in range(D)] for i in range(N)]))
    Y = c.np.array(1 + U[:, 0] + 2 * U[:, 1] ** 2)
    f = lambda X: c.w.analyze.hdmr.analyze(problem(c, D), X, Y.copy(), maxorder=1, maxiter=1, m=2, K=1, seed=1)
    A, B = f(X), f(c.np.array(U))
    for k in ("S", "Sa", "Sb", "ST"):
        c.prove_all_eq(A[k], B[k], "indices do not depend on scale and position of an input", tol=1e-6)


def decomposition(c):
    n, R = c.choose("terms,samples", [(2, 3), (3, 3), (2, 4)] if c.tier == "quick" else [(2, 3), (3, 3), (2, 4), (3, 4), (4, 3)])
    E = [[c.real("e%d_%d" % (i, t), -5, 5) for t in range(n)] for i in range(R)]
    y = [c.real("y%d" % i, -5, 5) for i in range(R)]
    V = c.real("V", 0.1, 50)
    S, Sa, Sb = c.w.analyze.hdmr.ancova(c.array(c.w_obj(y)), c.array(c.w_obj(E)), c.array(c.w_obj([V])), n, R)
    co = lambda x, z: sum([x[i] * (z[i] - mean(z)) for i in range(1, R)], x[0] * (z[0] - mean(z))) / (R - 1)
    for t in range(n):
        f = [E[i][t] for i in range(R)]
        g = [sum([E[i][q] for q in range(n) if q != t], 0.0) for i in range(R)]
        for k in (S, Sa, Sb):
            c.prove(len(k) == n, "one value per component")
        c.prove(c.near(S[t] * V, co(f, y), tol=1e-7), "S is the covariance of component and outputs")
        c.prove(c.near(Sa[t] * V, co(f, f), tol=1e-7), "Sa is the variance of the component")
        c.prove(c.near(Sb[t] * V, co(f, g), tol=1e-7), "Sb is the covariance of the component and the others")


def basis(c):
    """Splines at any position in the range."""
    m = c.choose("m", [1, 2, 3, 5, 10])
    d = 2
    k0 = c.int("interval", 0, m - 1)
    x = (float(k0) + c.real("position", 0, 1)) / float(m)
    X = c.array(c.w_obj([[0.0, 1.0], [1.0, 0.0], [x, 1.0 - x]]))
    B = c.w.analyze.hdmr.B_spline(X, m, d)
    c.prove(tuple(B.shape) == (3, m + 3, d), "m + 3 splines per input")
    for i in range(3):
        for j in range(d):
            s = B[i, 0, j]
            for k in range(m + 3):
                c.prove(B[i, k, j] >= -1e-9, "splines are non-negative")
                s = s + B[i, k, j] if k else s
            c.prove(c.near(s, float(m ** 3), tol=1e-6), "splines sum to the same constant everywhere")
    # cubic pieces at the symbolic position
    p = x * float(m) - float(k0)
    w = [(1 - p) * (1 - p) * (1 - p) / 6, 2 / 3 - p * p + p * p * p / 2, 1 / 6 + p / 2 + p * p / 2 - p * p * p / 2, p * p * p / 6]
    for q in range(4):
        c.prove(c.near(B[2, k0 + q, 0], w[q] * float(m ** 3), tol=1e-6), "the four splines around a position are the cubic B-splines")
        c.prove(c.near(B[2, m + 2 - k0 - q, 1], w[q] * float(m ** 3), tol=1e-6), "splines are symmetric, each from its own column")


def emulator(c):
    D, mo = c.choose("case", [(2, 1), (3, 2)] if c.tier == "quick" else [(2, 1), (2, 2), (3, 2), (3, 3)])
    N = 300
    U = design(N, D)
    V, k, Y = outputs(c, U)
    S = c.w.analyze.hdmr.analyze(problem(c, D), c.np.array(U), Y, maxorder=mo, maxiter=1, m=1, K=1, seed=1)
    rows = c.choose("rows", [[0, 5, 9], [7]])
    S.emulate(c.np.array(U[rows]))
    c.prove(len(S["emulated"]) == len(rows), "one prediction per row")
    for q, i in enumerate(rows):
        c.prove(c.near(S["emulated"][q], S["Em"]["Y_e"][i, 0], tol=1e-6), "new inputs get the prediction the analysis gave the same inputs")
    t = c.choose("test outputs", [False, True])
    if t:
        S.emulate(c.np.array(U[rows]), c.reals("T", len(rows), -5, 5))
        for q, i in enumerate(rows):
            c.prove(c.near(S["emulated"][q], S["Em"]["Y_e"][i, 0], tol=1e-6), "predictions do not depend on the outputs to compare with")


def options(c):
    D, N = 2, 300
    U = design(N, D)
    k = c.choose("option", ["maxorder", "maxiter", "m", "K", "R", "alpha", "lambdax", "columns", "samples", "outputs", "order", "none"])
    kw = dict(maxorder=1, maxiter=1, m=1, K=1, seed=1)
    X, Y = U, U.sum(axis=1)
    if k == "maxorder":
        kw[k] = c.choose("value", [0, 4, -1])
    elif k == "maxiter":
        kw[k] = c.choose("value", [0, 1001, -3])
    elif k == "m":
        kw[k] = c.choose("value", [0, 11, -1])
    elif k == "K":
        kw[k] = c.choose("value", [0, 101, -1])
    elif k == "R":
        kw.update(K=2, R=c.choose("value", [299, 301, 0]))
    elif k == "alpha":
        a = c.real("value", -1, 3)
        c.assume(c.any([a < 0.5, a > 1]))
        kw[k] = a
    elif k == "lambdax":
        a = c.real("value", -20, 30)
        c.assume(c.any([a < 0, a > 10]))
        kw[k] = a
    elif k == "columns":
        X, D = U[:, :1], 1
    elif k == "samples":
        X, Y = U[:299], Y[:299]
    elif k == "outputs":
        Y = Y[:c.choose("value", [299, 150])]
    elif k == "order":
        kw["maxorder"] = 3
    f = c.w.analyze.hdmr.analyze
    if k == "none":
        c.prove(len(f(problem(c, D), c.np.array(X), c.np.array(Y), **kw)["S"]) == D, "accepted options are used")
    else:
        c.prove(raises(RuntimeError, f, problem(c, D), c.np.array(X), c.np.array(Y), **kw), "options and data out of range are refused")
