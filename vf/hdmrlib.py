"""Shared by the checks of the two HDMR analyses."""
import itertools

import numpy as np
from scipy import stats

from vf.lib import *


def design(N, D):
    i = np.arange(N)
    return np.stack([(7 * i % N + 0.5) / N, (i + 0.5) / N, (11 * i % N + 0.25) / N], axis=1)[:, :D]


def terms(D, mo):
    return [t for o in range(1, mo + 1) for t in itertools.combinations(range(D), o)]


class Lin:
    """Vectors v0 + a*v1: covariances as polynomials of the symbolic coefficients."""

    def __init__(self, k):
        self.k = k

    def cov(self, x, y):
        x, y = x - x.mean(1, keepdims=True), y - y.mean(1, keepdims=True)
        G = x @ y.T / x.shape[1]
        s = 0.0
        for i, p in enumerate(self.k):
            for j, q in enumerate(self.k):
                s = s + float(G[i, j]) * (p * q)
        return s

    def val(self, x, i):
        s = 0.0
        for p, v in zip(self.k, x[:, i]):
            s = s + float(v) * p
        return s


def outputs(c, U):
    D = U.shape[1]
    a = c.real("a", 1, 1.25)
    V = np.array([1 + U[:, 0] + 2 * U[:, 1] * U[:, D - 1] - np.cos(7 * U[:, 0]) * (1 + U[:, 1]), U[:, D - 1] ** 2 + np.sin(5 * U[:, 0])])
    return V, (1.0, a), c.array(c.w_obj([float(V[0, i]) + a * float(V[1, i]) for i in range(len(U))]))


def spread(c, got, mult, vals, what):
    """got = mult * population standard deviation of vals."""
    v = var(vals)
    c.prove(c.all([got >= 0, c.near(got * got, mult * mult * v, tol=1e-7)]), what)


def indices(c, S, D, mo, L, comps, Ys, n, alpha, tag, sig="select"):
    """comps/Ys: components and outputs of every subsample."""
    T = terms(D, mo)
    nm = names(D)
    c.prove([str(t) for t in S["Term"]] == ["/".join(nm[j] for j in t) for t in T], "%s: terms are named by the parameters they depend on" % tag)
    c.prove(all(len(S[k]) == len(T) for k in ("S", "Sa", "Sb", "S_conf", "Sa_conf", "Sb_conf", sig)), "%s: one row per component function" % tag)
    K = len(comps)
    A, B_, C = [], [], []
    for F, Y in zip(comps, Ys):
        V = L.cov(Y, Y)
        tot = F.sum(2)
        A.append([L.cov(F[:, :, t], F[:, :, t]) / V for t in range(len(T))])
        B_.append([L.cov(F[:, :, t], tot - F[:, :, t]) / V for t in range(len(T))])
        C.append([L.cov(F[:, :, t], Y) / V for t in range(len(T))])
    mult = float(stats.norm.ppf(alpha + (1 - alpha) / 2))
    # variances may be taken per sample or per degree of freedom, alike for all three
    k = None
    for f in (1.0, n / (n - 1.0)):
        if k is None and bool(c.near(S["Sa"][0], mean([A[q][0] for q in range(K)]) * f, tol=1e-6)):
            k = f
    if k is None:
        c.prove(False, "%s: Sa is the variance of the component over the variance of the outputs" % tag)
        return
    for t in range(len(T)):
        for key, W, what in (("Sa", A, "Sa is the variance of the component over the variance of the outputs"), ("Sb", B_, "Sb is its covariance with the other components over that variance"),
                             ("S", C, "S is its covariance with the outputs over that variance")):
            w = [W[q][t] * k for q in range(K)]
            c.prove(c.near(S[key][t], mean(w), tol=1e-6), "%s: %s" % (tag, what))
            spread(c, S[key + "_conf"][t], mult, w, "%s: %s_conf is the normal quantile times the spread over the subsamples" % (tag, key))
    for key, W in (("Sa", A), ("Sb", B_), ("S", C)):
        w = [sum(W[q][1:], W[q][0]) * k for q in range(K)]
        c.prove(c.near(S[key + "_sum"], mean(w), tol=1e-6), "%s: %s_sum sums the terms" % (tag, key))
        spread(c, S[key + "_sum_conf"], mult, w, "%s: %s_sum_conf is the spread of the sum" % (tag, key))
    for j in range(D):
        w = [sum([C[q][t] for t in range(len(T)) if j in T[t]][1:], C[q][j]) * k for q in range(K)]
        c.prove(c.near(S["ST"][j], mean(w), tol=1e-6), "%s: the total index of a parameter sums the terms that contain it" % tag)
        spread(c, S["ST_conf"][j], mult, w, "%s: ST_conf is the spread of the total" % tag)
    for t in range(D, len(T)):
        c.prove(c.eq(S["ST"][t], float("nan")), "%s: interactions have no total" % tag)


def sum_sq(L, r):
    G = r @ r.T
    s = 0.0
    for i, p in enumerate(L.k):
        for j, q in enumerate(L.k):
            s = s + float(G[i, j]) * (p * q)
    return s


def select(c, got, D, mo, size, L, F, V, al, n):
    """size: number of coefficients of a component, by its order."""
    V0 = V - V.mean(1, keepdims=True)
    s0 = sum_sq(L, V0)
    for t, tt in enumerate(terms(D, mo)):
        p = size(len(tt))
        s1 = sum_sq(L, V0 - F[:, :, t])
        if n <= p:
            continue
        crit = float(stats.f.ppf(al, p, n - p))
        d = (s0 - s1) * (n - p)
        lim = s1 * p * crit
        yes = c.near(got[t], 1.0)
        c.prove(c.any([yes, c.near(got[t], 0.0)]), "a term is significant or not")
        c.prove(c.any([c.all([yes, d >= lim * (1 - 1e-6)]), c.all([c.not_(yes), d <= lim * (1 + 1e-6)])]),
                "a term is significant exactly if it passes the F-test with its own number of coefficients")
