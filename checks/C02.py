"""Non-uniform scaling: column j is the inverse CDF of its own declared distribution."""
import numpy as np
import scipy.special as sc
import scipy.stats as st

from vf import sym as S
from vf.lib import *

BOUNDS = ("2 samples x 1..2 parameters (3 thorough), every ordered combination of the seven distributions, "
          "unit samples in [0.02,0.98], all real distribution parameters in [-5,5] (positive where required)")
ASSUMPTIONS = ["the standard quantile functions of scipy.stats are uninterpreted (monotone, inside their support); "
               "location and scale are applied exactly"]
KINDS = ["unif", "logunif", "triang", "triang2", "norm", "truncnorm", "lognorm", "weibull", "weibull2"]


def harnesses(tier):
    return [("columns", {}), ("pairs", {}), ("rejected", {}), ("mismatch", {})] + \
        ([("triples", {})] if tier == "thorough" else [])


def std(c, name, u, *sh):
    """Quantile of the standardised distribution (reference)."""
    if any(S.is_sym(x) for x in (u,) + sh):
        return S.ctx().uf_atom("mono_ppf_" + name, [S.Sym.of(u)] + [S.Sym.of(s) for s in sh])
    u = float(u)
    if name == "norm":
        return sc.ndtri(u)
    if name == "triang":
        p, = sh
        return np.sqrt(p * u) if u < p else 1 - np.sqrt((1 - p) * (1 - u))
    if name == "weibull_min":
        return (-np.log1p(-u)) ** (1 / sh[0])
    if name == "loguniform":
        return np.exp(np.log(sh[0]) + u * (np.log(sh[1]) - np.log(sh[0])))
    if name == "truncnorm":
        a, b = sc.ndtr(sh[0]), sc.ndtr(sh[1])
        return sc.ndtri(a + u * (b - a))


def spec(c, k, tag):
    """Symbolic parameters of kind k: (dist name, bounds entry, reference quantile)."""
    r = lambda n, lo=-5, hi=5: c.real(tag + n, lo, hi)
    if k == "unif":
        a, b = r("a"), r("b")
        c.assume(b - a >= 0.01)
        return "unif", [a, b], lambda u: a + (b - a) * u
    if k == "logunif":
        a, b = r("a", 0.01), r("b", 0.01, 9)
        c.assume(b - a >= 0.01)
        return "logunif", [a, b], lambda u: std(c, "loguniform", u, a, b)
    if k == "triang":
        a, b, p = r("a"), r("b"), r("p", 0.01, 0.99)
        c.assume(b - a >= 0.01)
        return "triang", [a, b, p], lambda u: a + (b - a) * std(c, "triang", u, p)
    if k == "triang2":
        b, p = r("b", 0.01), r("p", 0.01, 0.99)
        return "triang", [b, p], lambda u: b * std(c, "triang", u, p)
    if k == "norm":
        m, s = r("m"), r("s", 0.01)
        return "norm", [m, s], lambda u: m + s * std(c, "norm", u)
    if k == "truncnorm":
        a, b, m, s = r("a"), r("b"), r("m"), r("s", 0.5)
        c.assume(b - a >= 0.1)
        if c.concrete:
            c.assume(abs(a - m) < 4 * s and abs(b - m) < 4 * s)
        return "truncnorm", [a, b, m, s], lambda u: m + s * std(c, "truncnorm", u, (a - m) / s, (b - m) / s)
    if k == "lognorm":
        m, s = r("m"), r("s", 0.01, 3)
        return "lognorm", [m, s], lambda u: c.np.exp(m + s * std(c, "norm", u))
    if k == "weibull":
        sh, s, l = r("k", 0.2), r("s", 0.01), r("l")
        return "weibull", [sh, s, l], lambda u: l + s * std(c, "weibull_min", u, sh)
    sh, s = r("k", 0.2), r("s", 0.01)
    return "weibull", [sh, s], lambda u: s * std(c, "weibull_min", u, sh)


def go(c, d, n):
    sp = [spec(c, c.choose("kind%d" % j, KINDS), "c%d" % j) for j in range(d)]
    u = c.reals("u", (n, d), 0.02, 0.98)
    u0 = u.copy()
    p = problem(c, d, [b for _, b, _ in sp], None, dists=[k for k, _, _ in sp])
    r = c.w.util.scale_samples(u, p)
    c.prove(tuple(r.shape) == (n, d), "shape kept")
    for j in range(d):
        for i in range(n):
            c.prove(c.eq(r[i, j], sp[j][2](u0[i, j]), tol=1e-6),
                    "column %d is the inverse CDF of its own distribution" % j)


def columns(c):
    go(c, 1, 2)


def pairs(c):
    go(c, 2, 1)


def triples(c):
    go(c, 3, 1)


def rejected(c):
    """Rejected exactly when outside the documented domain."""
    k = c.choose("kind", ["unif", "logunif", "triang", "triang2", "norm", "truncnorm", "lognorm", "weibull",
                          "weibull2", "nonsense"])
    v = [c.real("p%d" % i, -3, 3) for i in range(4)]
    if k in ("unif",):
        b, ok = v[:2], v[0] < v[1]
    elif k == "logunif":
        b, ok = v[:2], c.all([v[0] > 0, v[0] < v[1]])
    elif k == "triang":
        b, ok = v[:3], c.all([v[0] < v[1], v[2] >= 0, v[2] < 1])
    elif k == "triang2":
        b, ok = v[:2], c.all([v[0] > 0, v[1] >= 0, v[1] < 1])
    elif k == "truncnorm":
        b, ok = v, c.all([v[0] < v[1], v[3] > 0])
    elif k == "weibull":
        b, ok = v[:3], c.all([v[0] > 0, v[1] > 0])
    elif k == "weibull2":
        b, ok = v[:2], c.all([v[0] > 0, v[1] > 0])
    elif k == "nonsense":
        b, ok = v[:2], False
    else:
        b, ok = v[:2], v[1] > 0
    pos = c.int("pos", 0, 1)
    other = [[0.0, 1.0], [0.25, 0.75]]
    bounds, dists = [other[0]], ["norm"]
    bounds[0] = [0.0, 1.0]
    bounds.insert(pos, b)
    dists.insert(pos, k.rstrip("2"))
    p = problem(c, 2, bounds, None, dists=dists)
    u = c.np.array([[0.3, 0.6]])
    r = raises(ValueError, c.w.util.scale_samples, u, p)
    c.prove(c.not_(ok) if r else ok, "rejected iff outside the documented domain of " + k)


def mismatch(c):
    d, m = c.int("d", 1, 3), c.int("m", 1, 3)
    p = problem(c, d, [[0.0, 1.0]] * max(d, m), None, dists=["unif", "norm", "unif"][:m])
    u = c.reals("u", (1, d), 0.1, 0.9)
    r = raises(ValueError, c.w.util.scale_samples, u, p)
    c.prove(r == (d != m), "number of distributions must match the number of columns")
