"""Enhanced HDMR."""
import itertools

import numpy as np

from vf.hdmrlib import *

BOUNDS = ("whole analyses of 300 samples (up to 330 with bootstrap): 2 and 3 inputs of fixed patterns (independent and correlated), orders 1..3, polynomial orders 1..3, the extended basis and 1..3 "
          "backfitting sweeps without it, 1 or 2 bootstrap subsamples, outputs u + a*v for fixed vectors and all real a in a range; inputs under any symbolic shift and positive scale; the decomposition alone "
          "for 2..3 arbitrary components over 3..4 samples; orthonormal polynomials of every order 1..10; every out-of-range option")
ASSUMPTIONS = ["the subsample draws are fixed pseudo-random numbers"]
FIX = {"rng_hash": True, "rng_real_const": True}


def harnesses(tier):
    return [("fit", dict(FIX, budget=400)), ("bootstrap", dict(FIX, budget=300)), ("scaling", FIX), ("decomposition", {}), ("polynomials", {}), ("emulator", FIX), ("options", FIX), ("defaults", FIX)]


def mixed(N, D):
    """Inputs that depend on each other."""
    U = design(N, D)
    U[:, 1] = 0.6 * U[:, 0] + 0.4 * U[:, 1]
    return U


def polys(x, xf, p):
    """Polynomials of degree 1..p, orthonormal over the inputs xf and with positive leading coefficients."""
    lo, hi = xf.min(), xf.max()
    R = np.linalg.qr(np.vander((xf - lo) / (hi - lo), p + 1, increasing=True) / np.sqrt(len(xf)))[1]
    return (np.vander((x - lo) / (hi - lo), p + 1, increasing=True) @ np.linalg.inv(R) * np.sign(np.diag(R)))[:, 1:]


def blocks(X, p, mo, ext):
    """Columns of every component; how many of them belong to lower orders."""
    D = X.shape[1]
    P, out, low = {}, [], []
    for t in terms(D, mo):
        q = polys(X[:, t[0]], X[:, t[0]], p)
        for j in t[1:]:
            q = (q[:, :, None] * P[(j,)][:, None, :]).reshape(len(X), -1)
        P[t] = q
        lo = [P[s] for r in range(1, len(t)) for s in itertools.combinations(t, r)] if ext else []
        out.append(np.hstack(lo + [q]))
        low.append(sum(a.shape[1] for a in lo))
    return out, low


def coefficients(p, ext):
    return lambda o: p ** o + (ext and {1: 0, 2: 2 * p, 3: 3 * p + 3 * p * p}[o])


def extended(bl, low, Y):
    """Of all least-squares fits, the one (next to the shortest) whose components are closest to zero mean and orthogonality to their lower-order columns."""
    B = np.hstack(bl)
    n = len(B)
    a = B.T @ B / n
    w, v = np.linalg.eigh(a)
    big = w > w.max() * 1e-9
    N, G = v[:, ~big], v[:, big]
    x = G @ ((G.T @ (B.T @ (Y - Y.mean()) / n)) / w[big])
    C, k = np.zeros_like(a), 0
    for b, l in zip(bl, low):
        m = b.shape[1]
        if l:
            R = np.vstack([b.mean(0)[None], b[:, :l].T @ b / n])
            C[k:k + m, k:k + m] = R.T @ R
        k += m
    if N.shape[1]:
        x = x - N @ np.linalg.pinv(N.T @ C @ N, rcond=1e-9, hermitian=True) @ (N.T @ C @ x)
    F, k = [], 0
    for b in bl:
        F.append(b @ x[k:k + b.shape[1]])
        k += b.shape[1]
    return np.array(F).T, x


def plain(bl, D, Y, sweeps, lam):
    """Ridge regression of every component, then backfitting sweeps without penalty for orders one and two; every order fits what the lower ones leave."""
    res, F, X = Y - Y.mean(), [], []
    n, k = len(Y), 0
    for o, m in enumerate((D, D * (D - 1) // 2, D * (D - 1) * (D - 2) // 6)):
        B = bl[k:k + m]
        k += m
        if not B:
            break
        x = [np.linalg.solve(b.T @ b / n + lam * np.eye(b.shape[1]), b.T @ res / n) for b in B]
        f = [b @ v for b, v in zip(B, x)]
        for _ in range(sweeps if o < 2 else 0):
            for i, b in enumerate(B):
                x[i] = np.linalg.solve(b.T @ b / n, b.T @ (res - sum([f[z] for z in range(len(B)) if z != i], 0 * res)) / n)
                f[i] = b @ x[i]
        F += f
        X += x
        res = res - sum(f)
    return np.array(F).T, np.concatenate(X)


def reference(bl, low, D, Y, ext, sweeps, lam):
    return extended(bl, low, Y) if ext else plain(bl, D, Y, sweeps, lam)


def fit(c):
    # inputs, outputs, order, polynomials, extended basis, sweeps, level, penalty
    cases = [(0, 2, 1, 1, True, 1, 0.95, 0.01), (1, 2, 2, 2, True, 1, 0.9, 0.01), (1, 3, 3, 1, True, 1, 0.95, 0.01), (0, 3, 2, 2, True, 1, 0.5, 0.01), (1, 2, 1, 3, False, 1, 0.95, 1.0), (1, 3, 2, 1, False, 2, 0.95, 0.01),
             (1, 3, 3, 2, False, 1, 0.95, 0.1), (1, 2, 2, 2, False, 3, 0.9, 0.01)]
    if c.tier == "thorough":
        cases += [(1, 3, 3, 2, True, 1, 0.95, 0.01), (0, 3, 3, 1, False, 1, 0.8, 0.01), (1, 2, 1, 3, False, 3, 0.95, 0.0), (0, 2, 2, 3, True, 1, 0.99, 0.01), (1, 2, 2, 4, True, 1, 0.95, 0.01)]
    dep, D, mo, p, ext, it, al, lam = c.choose("case", cases)
    N = 300
    U = (mixed if dep else design)(N, D)
    V, k, Y = outputs(c, U)
    S = c.w.analyze.enhanced_hdmr.analyze(problem(c, D), c.np.array(U), Y, max_order=mo, poly_order=p, bootstrap=1, subset=N, max_iter=it, l2_penalty=lam, alpha=al, extended_base=ext, return_emulator=True, seed=1)
    bl, low = blocks(U, p, mo, ext)
    F, x = zip(*[reference(bl, low, D, v, ext, it, lam) for v in V])
    F, x = np.array(F), np.array(x)
    L = Lin(k)
    em = S.emulate(c.np.array(U[[0, 150, 299]]))
    for q, i in enumerate((0, 150, 299)):
        c.prove(c.near(em[q], L.val(F.sum(2) + V.mean(1, keepdims=True), i), tol=1e-6), "the emulated output is the mean plus all components")
    sig = [v / 100.0 for v in S["Signf"]]
    select(c, sig, D, mo, coefficients(p, ext), L, F, V, al, N)
    indices(c, S, D, mo, L, [F], [V], N, al, "one sample", sig="Signf")


def bootstrap(c):
    dep, D, mo, p, ext, R = c.choose("case", [(0, 2, 2, 1, True, None), (1, 3, 1, 2, False, 300), (1, 2, 2, 1, False, 310)])
    N, K, al = 330, 2, 0.9
    U = (mixed if dep else design)(N, D)
    V, k, Y = outputs(c, U)
    S = c.w.analyze.enhanced_hdmr.analyze(problem(c, D), c.np.array(U), Y, max_order=mo, poly_order=p, bootstrap=K, subset=R, max_iter=1, l2_penalty=0.01, alpha=al, extended_base=ext, return_emulator=True, seed=1)
    idx = np.array([[int(v) for v in r] for r in S["hdmr"].idx])
    n = R or N // 2
    c.prove(idx.shape == (n, K) and all(len(set(idx[:, q])) == n for q in range(K)) and idx.min() >= 0 and idx.max() < N, "subsamples of the requested size, without repetition")
    c.prove(not np.array_equal(np.sort(idx[:, 0]), np.sort(idx[:, 1])), "subsamples are drawn independently")
    bl, low = blocks(U, p, mo, ext)
    L = Lin(k)
    F, X = [], []
    for q in range(K):
        f, x = zip(*[reference([b[idx[:, q]] for b in bl], low, D, v[idx[:, q]], ext, 1, 0.01) for v in V])
        F.append(np.array(f))
        X.append(np.array(x))
    indices(c, S, D, mo, L, F, [V[:, idx[:, q]] for q in range(K)], n, al, "subsamples", sig="Signf")
    # share of the subsamples in which a term is significant, in percent
    for t in range(len(terms(D, mo))):
        c.prove(c.any([c.near(S["Signf"][t], v) for v in (0.0, 50.0, 100.0)]), "significance is a share of the subsamples")
    B = np.hstack(bl)
    x = (X[0] + X[1]) / 2
    em = S.emulate(c.np.array(U[[0, 7]]))
    for q, i in enumerate((0, 7)):
        c.prove(c.near(em[q], L.val(x @ B.T + V.mean(1, keepdims=True), i), tol=1e-6), "the emulator averages the fits of the subsamples")


def scaling(c):
    """Inputs enter through their position within their own range."""
    D, N = 2, 300
    U = design(N, D)
    sc = [c.real("scale%d" % j, 0.1, 10) for j in range(D)]
    sh = [c.real("shift%d" % j, -5, 5) for j in range(D)]
    X = c.array(c.w_obj([[float(U[i, j]) * sc[j] + sh[j] for j in range(D)] for i in range(N)]))
    Y = c.np.array(1 + U[:, 0] + 2 * U[:, 1] ** 2)
    f = lambda X: c.w.analyze.enhanced_hdmr.analyze(problem(c, D), X, Y.copy(), max_order=2, poly_order=2, bootstrap=1, subset=N, seed=1)
    A, B = f(X), f(c.np.array(U))
    for k in ("S", "Sa", "Sb", "ST"):
        c.prove_all_eq(A[k], B[k], "indices do not depend on scale and position of an input", tol=1e-6)


def decomposition(c):
    n, R = c.choose("terms,samples", [(2, 3), (3, 3), (2, 4)] if c.tier == "quick" else [(2, 3), (3, 3), (2, 4), (3, 4), (4, 3)])
    E = [[c.real("e%d_%d" % (i, t), -5, 5) for t in range(n)] for i in range(R)]
    y = [c.real("y%d" % i, -5, 5) for i in range(R)]
    c.assume(c.any([y[i] - y[0] >= 0.5 for i in range(1, R)]))

    class Params:
        nc_t = n
    try:
        S, Sa, Sb = c.w.analyze.enhanced_hdmr._ancova(c.array(c.w_obj(y)), c.array(c.w_obj(E)), Params)
    except (AttributeError, TypeError):  # an internal function: its name and parameters may change
        c.prove(True, "decided through the whole analysis only")
        return
    co = lambda x, z: sum([x[i] * (z[i] - mean(z)) for i in range(1, R)], x[0] * (z[0] - mean(z))) / (R - 1)
    V = var(y)
    for t in range(n):
        f = [E[i][t] for i in range(R)]
        g = [sum([E[i][q] for q in range(n) if q != t], 0.0) for i in range(R)]
        for k in (S, Sa, Sb):
            c.prove(len(k) == n, "one value per component")
        c.prove(c.near(S[t] * V, co(f, y), tol=1e-7), "S is the covariance of component and outputs")
        c.prove(c.near(Sa[t] * V, co(f, f), tol=1e-7), "Sa is the variance of the component")
        c.prove(c.near(Sb[t] * V, co(f, g), tol=1e-7), "Sb is the covariance of the component and the others")


def polynomials(c):
    """Orthonormal over the inputs, at every order: the variance of a first-order component is the sum of its squared coefficients, and its share with every polynomial is that coefficient."""
    p = c.choose("order", [1, 4, 8, 10] if c.tier == "quick" else list(range(1, 11)))
    N, D = 300, 2
    U = mixed(N, D)
    V, k, Y = outputs(c, U)
    S = c.w.analyze.enhanced_hdmr.analyze(problem(c, D), c.np.array(U), Y, max_order=1, poly_order=p, bootstrap=1, subset=N, max_iter=1, extended_base=False, seed=1, return_emulator=True)
    x = S["hdmr"].x
    L = Lin(k)
    tot = L.cov(V, V)
    for j in range(1 if c.tier == "quick" else D):
        ss = sum([x[i, 0] * x[i, 0] for i in range(j * p + 1, (j + 1) * p)], x[j * p, 0] * x[j * p, 0])
        c.prove(c.any([c.near(S["Sa"][j] * tot * f, ss, tol=1e-6) for f in (1.0, (N - 1.0) / N)]), "polynomials are orthonormal over the inputs")


def emulator(c):
    """Predictions for a row do not depend on the other rows."""
    D, mo, ext = c.choose("case", [(2, 1, False), (2, 2, True)] if c.tier == "quick" else [(2, 1, False), (2, 2, True), (3, 2, True), (3, 3, False)])
    N = 300
    U = mixed(N, D)
    V, k, Y = outputs(c, U)
    S = c.w.analyze.enhanced_hdmr.analyze(problem(c, D), c.np.array(U), Y, max_order=mo, poly_order=2, bootstrap=1, subset=N, max_iter=1, extended_base=ext, return_emulator=True, seed=1)
    bl, low = blocks(U, 2, mo, ext)
    F = np.array([reference(bl, low, D, v, ext, 1, 0.01)[0] for v in V])
    L = Lin(k)
    rows = c.choose("rows", [[0, 5, 9], [7]])
    em = S.emulate(c.np.array(U[rows]))
    c.prove(len(em) == len(rows), "one prediction per row")
    for q, i in enumerate(rows):
        c.prove(c.near(em[q], L.val(F.sum(2) + V.mean(1, keepdims=True), i), tol=1e-6), "new inputs get the prediction the analysis gives the same inputs")


def options(c):
    D, N = 2, 300
    U = design(N, D)
    k = c.choose("option", ["max_order", "poly_order", "bootstrap", "subset", "max_iter", "alpha", "l2_penalty", "columns", "samples", "outputs", "names", "bounds", "num_vars", "order", "none"])
    kw = dict(max_order=1, poly_order=1, bootstrap=1, subset=N, max_iter=1, seed=1)
    X, Y = U, U.sum(axis=1)
    p = problem(c, D)
    if k == "max_order":
        kw[k] = c.choose("value", [0, 4, -1])
    elif k == "poly_order":
        kw[k] = c.choose("value", [0, 11, -1])
    elif k == "bootstrap":
        kw[k] = c.choose("value", [0, 101, -1])
    elif k == "subset":
        kw.update(bootstrap=2, subset=c.choose("value", [299, 301, 0]))
    elif k == "max_iter":
        kw.update(extended_base=False, max_iter=c.choose("value", [0, 1001, -3]))
    elif k == "alpha":
        a = c.real("value", -1, 3)
        c.assume(c.any([a < 0.5, a > 1]))
        kw[k] = a
    elif k == "l2_penalty":
        a = c.real("value", -20, 30)
        c.assume(c.any([a < 0, a > 10]))
        kw[k] = a
    elif k == "columns":
        X, p = U[:, :1], problem(c, 1)
    elif k == "samples":
        X, Y = U[:299], Y[:299]
    elif k == "outputs":
        Y = Y[:c.choose("value", [299, 150])]
    elif k == "names":
        p["names"] = p["names"] + ["more"]
    elif k == "bounds":
        p["bounds"] = p["bounds"][:1]
    elif k == "num_vars":
        p["num_vars"] = c.choose("value", [1, 3])
    elif k == "order":
        kw["max_order"] = 3
    f = lambda: c.w.analyze.enhanced_hdmr.analyze(p, c.np.array(X), c.np.array(Y), **kw)
    if k in ("none", "order"):
        S = f()
        c.prove([str(t) for t in S["Term"]] == (names(2) if k == "none" else names(2) + ["/".join(names(2))]), "the order is limited to the number of inputs")
    else:
        c.prove(raises((RuntimeError, ValueError), f), "options and data out of range are refused")


def defaults(c):
    """Whatever the problem leaves out is taken from the inputs."""
    D, N = 2, 300
    U = design(N, D)
    p = problem(c, D)
    for k in c.choose("left out", [("names",), ("bounds",), ("num_vars",), ("names", "bounds", "num_vars")]):
        del p[k]
    f = lambda p: c.w.analyze.enhanced_hdmr.analyze(p, c.np.array(U), c.np.array(U[:, 0] + U[:, 0] * U[:, 1]), max_order=2, poly_order=1, bootstrap=1, subset=N, seed=1)
    S, W = f(p), f(problem(c, D))
    c.prove(len(S["Term"]) == 3, "one row per component function")
    for k in ("S", "Sa", "Sb"):
        c.prove_all_eq(S[k], W[k], "defaults do not change the results")
