"""Loads SALib's current source into a private module world.

mode "sym":  the source runs against the numpy look-alike of arr.py.
mode "conc": the same source runs against the real numpy/scipy/pandas; only the
             environment (random numbers, process pools, CPU count) is replaced,
             by stubs replaying the solver's values.
Nothing is cached between runs: the source is read from /repo on every start.
"""
import builtins
import importlib
import itertools
from fractions import Fraction
import math
import os
import sys
import types

import numpy as np
import pandas as pd
import scipy
import scipy.stats
import scipy.linalg
import scipy.signal
import scipy.special
import scipy.interpolate
import scipy.spatial.distance
import scipy.optimize

from . import arr as A
from . import poly as P
from . import sym as S
from .sym import Sym, SymBool, Unsupported, is_sym

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

_CODE = {}


def source_code(path):
    c = _CODE.get(path)
    if c is None:
        with open(path, "rb") as f:
            c = compile(f.read(), path, "exec", dont_inherit=True)
        _CODE[path] = c
    return c


# --------------------------------------------------------------- random numbers
class Bits:
    """Contract of a pseudo random stream: values are a function of (seed, position)."""

    fresh = itertools.count()

    @staticmethod
    def key(seed):
        if seed is None:
            return "os%d" % S.ctx().bump("osrng")
        if isinstance(seed, (bool, np.bool_)):
            return "seed%d" % int(seed)
        if isinstance(seed, (int, np.integer)):
            return "seed%d" % int(seed)
        if is_sym(seed):
            return "seedsym%r" % (hash(seed),)
        if isinstance(seed, np.random.SeedSequence):
            return "ss%r%r" % (seed.entropy, seed.spawn_key)
        if isinstance(seed, (list, tuple, np.ndarray)):
            return "seq%r" % ([int(x) for x in seed],)
        return "obj%d" % id(seed)


class StubRNG:
    """numpy Generator: every draw is an arbitrary value of its documented range."""

    def __init__(self, key):
        self.key = key if isinstance(key, str) else "bitgen"
        self.pos = 0
        self.nspawn = 0
        self.bit_generator = self

    # -- plumbing
    def _nm(self, kind):
        self.pos += 1
        return "rng(%s)@%d.%s" % (self.key, self.pos, kind)

    def spawn(self, n):
        out = []
        for _ in range(n):
            out.append(type(self)("%s/%d" % (self.key, self.nspawn)))
            self.nspawn += 1
        return out

    def _shape(self, size):
        if size is None:
            return None
        if isinstance(size, (tuple, list)):
            return tuple(int(x) for x in size)
        return (int(size),)

    def _reals(self, kind, size, lo, hi, f=None):
        c = S.ctx()
        nm = self._nm(kind)
        sh = self._shape(size)
        if sh is None:
            v = c.memo_real(nm, lo, hi)
            return f(v) if f else v
        o = np.empty(sh, dtype=object)
        for ix in np.ndindex(*sh):
            v = c.memo_real("%s[%s]" % (nm, ",".join(map(str, ix))), lo, hi)
            o[ix] = f(v) if f else v
        return c.array(o)

    def random(self, size=None, dtype=None, out=None):
        return self._reals("u", size, 0, 1)

    random_sample = random

    def rand(self, *shape):
        return self._reals("u", shape or None, 0, 1)

    def uniform(self, low=0.0, high=1.0, size=None):
        if isinstance(low, np.ndarray) or isinstance(high, np.ndarray):
            u = self._reals("u", size if size is not None else np.broadcast(
                np.asarray(low), np.asarray(high)).shape, 0, 1)
            return low + (high - low) * u
        if not is_sym(low) and not is_sym(high):
            if low == 0 and high == 1:
                return self._reals("u", size, 0, 1)
        return self._reals("u", size, 0, 1, lambda v: low + (high - low) * v)

    def normal(self, loc=0.0, scale=1.0, size=None):
        z = self._reals("n", size, None, None)
        return loc + scale * z

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        if A.has_sym([mean, sigma]):
            raise Unsupported("lognormal with symbolic parameters")
        c = S.ctx()
        nm = self._nm("ln")
        mean, sigma = np.asarray(A.tonative(mean), float), np.asarray(A.tonative(sigma), float)
        sh = np.broadcast(mean, sigma).shape if size is None else self._shape(size)
        mean, sigma = np.broadcast_to(mean, sh), np.broadcast_to(sigma, sh)
        o = np.empty(sh, dtype=object)
        for ix in np.ndindex(*sh):
            o[ix] = c.memo_real("%s[%s](%.9g,%.9g)" % (nm, ",".join(map(str, ix)), mean[ix], sigma[ix]), 0, 100)
        return c.array(o) if sh else o[()]

    def standard_normal(self, size=None, *a, **k):
        return self._reals("n", size, None, None)

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        return self._ints(low, high, size)

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        return self._ints(low, high, size)

    def _ints(self, low, high, size):
        c = S.ctx()
        low, high = int(low), int(high)
        if high <= low:
            raise ValueError("low >= high")
        nm = self._nm("i")
        sh = self._shape(size)
        if sh is None:
            return np.int64(c.memo_int(nm, low, high - 1))
        o = np.empty(sh, dtype=object)
        for ix in np.ndindex(*sh):
            o[ix] = np.int64(c.memo_int("%s[%s]" % (nm, ",".join(map(str, ix))), low, high - 1))
        return c.array(o)

    def _perm(self, n):
        c = S.ctx()
        nm = self._nm("p")
        left = list(range(n))
        out = []
        for i in range(n):
            out.append(left.pop(c.memo_int("%s.%d" % (nm, i), 0, len(left) - 1)))
        return out

    def permutation(self, x, axis=0):
        c = S.ctx()
        if isinstance(x, (int, np.integer)):
            return c.array(np.array([np.int64(i) for i in self._perm(int(x))], dtype=object))
        x = c.np.array(x)
        return x[self._perm(len(x))]

    permuted = permutation

    def shuffle(self, x, axis=0):
        p = self._perm(len(x))
        if isinstance(x, np.ndarray):
            x[...] = x.copy()[p]
        else:
            y = [x[i] for i in p]
            for i, v in enumerate(y):
                x[i] = v

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        c = S.ctx()
        if isinstance(a, (int, np.integer)):
            a = list(range(int(a)))
            pop = c.array(np.array([np.int64(i) for i in a], dtype=object)) if a else None
        else:
            pop = a if isinstance(a, np.ndarray) else c.np.array(a)
        n = len(a)
        if n == 0:
            raise ValueError("a cannot be empty unless no samples are taken")
        if p is not None:
            raise Unsupported("choice(p=)")
        sh = self._shape(size)
        nm = self._nm("c")
        if sh is None:
            return pop[c.memo_int(nm, 0, n - 1)]
        tot = int(np.prod(sh))
        if replace and n > 1 and c.opts.get("sym_choice") and not c.concrete:
            vals = A.tonative(pop)
            if vals.ndim == 1 and vals.dtype.kind in "if":
                st = (float(vals[-1]) - float(vals[0])) / (n - 1)
                if all(abs(float(vals[0]) + i * st - float(vals[i])) <= 1e-12 for i in range(n)):
                    o = np.empty(tot, dtype=object)
                    for i in range(tot):
                        o[i] = c.memo_symint("%s.%d" % (nm, i), 0, n - 1) * Fraction(st) + Fraction(float(vals[0]))
                    r = c.array(o)
                    return r.reshape(sh) if len(sh) > 1 else r
        if not replace:
            if tot > n:
                raise ValueError("Cannot take a larger sample than population when replace is False")
            left = list(range(n))
            ix = [left.pop(c.memo_int("%s.%d" % (nm, i), 0, len(left) - 1)) for i in range(tot)]
        else:
            ix = [c.memo_int("%s.%d" % (nm, i), 0, n - 1) for i in range(tot)]
        r = pop[np.array(ix, dtype=int)]
        return r.reshape(sh + r.shape[1:]) if len(sh) > 1 else r

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("random draw %r" % n)


class _GenMeta(type):
    def __call__(cls, *a, **k):
        if a and isinstance(a[0], StubRNG):
            return a[0]
        return StubRNG(Bits.key(a[0] if a else None))

    def __instancecheck__(cls, x):
        return isinstance(x, (StubRNG, np.random.Generator))


class GeneratorShim(metaclass=_GenMeta):
    pass


def make_random(world):
    m = types.ModuleType("numpy.random")
    m.Generator = GeneratorShim
    m.BitGenerator = np.random.BitGenerator
    m.SeedSequence = np.random.SeedSequence
    m.PCG64 = np.random.PCG64
    m.MT19937 = np.random.MT19937

    def default_rng(seed=None):
        if isinstance(seed, StubRNG):
            return seed
        return StubRNG(Bits.key(seed))

    m.default_rng = default_rng

    def RandomState(seed=None):
        return StubRNG("rs" + Bits.key(seed))

    m.RandomState = RandomState

    def glob():
        c = S.ctx()
        if getattr(c, "global_rng", None) is None:
            c.global_rng = StubRNG("global")
        return c.global_rng

    def seed(s=None):
        c = S.ctx()
        c.global_rng = StubRNG("g" + Bits.key(s))

    m.seed = seed
    m.get_state = lambda *a, **k: glob()
    for n in ("rand", "random", "random_sample", "randint", "choice", "shuffle", "permutation",
              "uniform", "normal", "standard_normal"):
        def mk(n):
            def f(*a, **k):
                return getattr(glob(), n)(*a, **k)
            return f
        setattr(m, n, mk(n))
    m.mtrand = m
    return m


# ------------------------------------------------------------------------ scipy
class SobolEngine:
    """scipy.stats.qmc.Sobol: points are arbitrary in [0,1), a function of
    (scramble seed, dimension count, position)."""

    def __init__(self, d, *, scramble=True, bits=None, seed=None, rng=None, optimization=None):
        self.d = d
        if scramble:
            s = seed if seed is not None else rng
            if isinstance(s, StubRNG):
                k = s._nm("sobol")
            else:
                k = Bits.key(s)
            self.k = "%s,d%d" % (k, d)
        else:
            self.k = "plain"
        self.i = 0
        self.num_generated = 0

    def fast_forward(self, n):
        self.i += int(n)
        self.num_generated += int(n)
        return self

    def reset(self):
        self.i = 0
        return self

    def random(self, n=1, workers=1):
        c = S.ctx()
        o = np.empty((int(n), self.d), dtype=object)
        for r in range(int(n)):
            for j in range(self.d):
                o[r, j] = c.memo_real("qmc(%s)[%d,%d]" % (self.k, self.i + r, j), 0, 1)
        self.i += int(n)
        self.num_generated += int(n)
        return c.array(o)

    def random_base2(self, m):
        return self.random(2 ** int(m))


class _Spline:
    """A spline evaluated piecewise at symbolic positions."""

    def __init__(self, b):
        self.b = b

    def __call__(self, x, *a, **k):
        if not A.has_sym(x):
            return A.rewrap(self.b(A.tonative(x), *a, **k))
        if a or k:
            raise Unsupported("spline options at symbolic positions")
        b = self.b
        deg, t = b.k, b.t
        pp = scipy.interpolate.PPoly.from_spline(b)
        lo, hi = deg, len(t) - deg - 1      # base interval t[lo]..t[hi]
        inner = [float(v) for v in t[lo + 1:hi]]
        x = A.wrap(np.asarray(x.view_nd() if isinstance(x, A.SymArray) else x, dtype=object))
        o = np.empty(x.shape, dtype=object)
        for ix in np.ndindex(*x.shape):
            v = x[ix]
            if not S.is_sym(v):
                o[ix] = np.float64(b(float(v)))
                continue
            q = 0
            while q < len(inner) and not (v < inner[q]):
                q += 1
            left = float(t[lo + q])
            j = int(np.searchsorted(pp.x, left, side="right") - 1)
            d = v - float(pp.x[j])
            r = float(pp.c[0, j])
            for cc in pp.c[1:, j]:
                r = r * d + float(cc)
            o[ix] = r
        return S.ctx().array(o)


class BSplineShim:
    basis_element = staticmethod(lambda t, *a, **k: _Spline(scipy.interpolate.BSpline.basis_element(A.tonative(t), *a, **k)))

    def __new__(cls, *a, **k):
        return _Spline(scipy.interpolate.BSpline(*A.tonative(list(a)), **A.tonative(k)))


def ppf_loc_scale(name, nshape):
    """loc + scale * standard quantile; the standard quantile is uninterpreted,
    increasing in q and inside the support of the distribution."""
    def f(q, *args, loc=0, scale=1, **kw):
        args = list(args)
        shapes = args[:nshape]
        rest = args[nshape:]
        if rest:
            loc = rest.pop(0)
        if rest:
            scale = rest.pop(0)
        names = {"triang": ["c"], "weibull_min": ["c"], "truncnorm": ["a", "b"],
                 "loguniform": ["a", "b"], "reciprocal": ["a", "b"]}.get(name, [])
        for n in names[len(shapes):]:
            shapes.append(kw.pop(n))
        if kw:
            raise Unsupported("ppf args %r" % list(kw))

        def one(q, loc, scale, *sh):
            c = S.ctx()
            for v in sh:
                pass
            if not any(is_sym(x) for x in (q, loc, scale) + sh):
                return np.float64(getattr(scipy.stats, name).ppf(q, *sh, loc=loc, scale=scale))
            if name == "uniform":
                return loc + scale * q
            if not any(is_sym(x) for x in (q,) + sh):
                v = float(getattr(scipy.stats, name).ppf(q, *sh))
                if math.isfinite(v):
                    return loc + scale * v
            u = S.Sym.of(S.ctx().uf_atom("mono_ppf_" + name, [Sym.of(q)] + [Sym.of(s) for s in sh]))
            if name == "triang":
                c.axiom(S.sand(u >= 0, u <= 1))
            elif name == "weibull_min":
                c.axiom(u >= 0)
            elif name in ("truncnorm", "loguniform", "reciprocal"):
                c.axiom(S.sand(u >= sh[0], u <= sh[1]))
            return loc + scale * u
        return A.fin(A.emap(one, q, loc, scale, *shapes))
    return f


class DistProxy:
    NSHAPE = {"norm": 0, "uniform": 0, "triang": 1, "weibull_min": 1, "truncnorm": 2,
              "loguniform": 2, "reciprocal": 2, "expon": 0}

    def __init__(self, name, real):
        self._n = name
        self._r = real

    def __getattr__(self, m):
        real = getattr(self._r, m)

        def f(*a, **k):
            if not A.has_sym(list(a)) and not A.has_sym(k):
                return A.rewrap(real(*A.tonative(list(a)), **A.tonative(k)))
            if m == "ppf" and self._n in self.NSHAPE:
                return ppf_loc_scale(self._n, self.NSHAPE[self._n])(*a, **k)

            def one(*v):
                return S.ufun("stats_%s_%s" % (self._n, m), *v)
            if k:
                loc, sc = k.pop("loc", 0), k.pop("scale", 1)
                if k:
                    raise Unsupported("stats.%s.%s kwargs" % (self._n, m))
                a = ((a[0] - loc) / sc,) + tuple(a[1:])
            return A.fin(A.emap(one, *a))
        return f

    def __call__(self, *a, **k):
        if A.has_sym(list(a)) or A.has_sym(k):
            outer = self

            class Frozen:
                def __getattr__(s, m):
                    return lambda q: getattr(outer, m)(q, *a, **k)
            return Frozen()
        return self._r(*a, **k)


def sym_rankdata(a, method="average", *, axis=None, **k):
    if not A.has_sym(a):
        return A.rewrap(scipy.stats.rankdata(A.tonative(a), method=method, axis=axis))
    v = list(A.boxed(a).ravel())
    n = len(v)
    out = np.empty(n, dtype=object)
    for i in range(n):
        lt = sum(1 for j in range(n) if j != i and bool(v[j] < v[i]))
        eq = sum(1 for j in range(n) if j != i and bool(v[j] == v[i]))
        if method == "average":
            out[i] = np.float64(lt + 1 + eq / 2)
        elif method == "min":
            out[i] = np.int64(lt + 1)
        elif method == "max":
            out[i] = np.int64(lt + 1 + eq)
        elif method == "ordinal":
            out[i] = np.int64(lt + 1 + sum(1 for j in range(i) if bool(v[j] == v[i])))
        else:
            raise Unsupported("rankdata " + method)
    return A.fin(out)


class TestResult:
    def __init__(self, statistic, pvalue):
        self.statistic = statistic
        self.pvalue = pvalue

    def __iter__(self):
        return iter((self.statistic, self.pvalue))

    def __getitem__(self, i):
        return (self.statistic, self.pvalue)[i]


def sym_ks_2samp(x, y, *a, **k):
    if not A.has_sym([x, y]):
        return scipy.stats.ks_2samp(A.tonative(x), A.tonative(y), *a, **k)
    X, Y = list(A.boxed(x).ravel()), list(A.boxed(y).ravel())
    if not X or not Y:
        raise ValueError("Data passed to ks_2samp must not be empty")
    best = np.float64(0)
    for t in X + Y:
        f = A.vsum([A._b2n(A.npb(SymBool.of(v <= t))) for v in X]) / len(X)
        g = A.vsum([A._b2n(A.npb(SymBool.of(v <= t))) for v in Y]) / len(Y)
        best = S.smax(best, abs(f - g))
    return TestResult(best, S.ctx().fresh_real("ks_p", 0, 1))


def sym_cvm_2samp(x, y, *a, **k):
    if not A.has_sym([x, y]):
        return scipy.stats.cramervonmises_2samp(A.tonative(x), A.tonative(y), *a, **k)
    X, Y = list(A.boxed(x).ravel()), list(A.boxed(y).ravel())
    nx, ny = len(X), len(Y)
    if nx <= 1 or ny <= 1:
        raise ValueError("x and y must contain at least two observations.")
    xs = [X[i] for i in A.vsorted_ix(X)]
    ys = [Y[i] for i in A.vsorted_ix(Y)]
    z = A.make_obj(xs + ys)
    r = list(A.base(sym_rankdata(A.wrap(z))))
    u = nx * sum((r[i] - (i + 1)) ** 2 for i in range(nx)) + \
        ny * sum((r[nx + j] - (j + 1)) ** 2 for j in range(ny))
    kk, N = nx * ny, nx + ny
    t = u / (kk * N) - (4 * kk - 1) / (6 * N)
    return TestResult(t, S.ctx().fresh_real("cvm_p", 0, 1))


class SymKDE:
    """gaussian_kde with Scott's rule on one-dimensional data: the density is a
    non-negative uninterpreted function of (data multiset, evaluation point)."""

    def __init__(self, dataset, bw_method=None, weights=None):
        d = A.boxed(dataset)
        if d.ndim > 1 and d.shape[0] != 1:
            raise Unsupported("multi-dimensional kde")
        self.v = list(d.ravel())
        self.bw = bw_method
        self.n = len(self.v)
        if self.n < 2:
            raise ValueError("`dataset` input should have multiple elements.")

    def __call__(self, pts):
        c = S.ctx()
        key = ("kde", repr(self.bw), tuple(sorted(
            (repr((sorted(v.n.t.items()), sorted((sorted(f.t.items()), p) for f, p in v.d.items())))
             for v in map(Sym.of, self.v)))))
        cache = c.__dict__.setdefault("kdecache", {})

        def one(p):
            p = Sym.of(p)
            k = (key, p.n.key(), frozenset((f.key(), q) for f, q in p.d.items()))
            a = cache.get(k)
            if a is None:
                # one free non-negative value per (data multiset, point)
                a = cache[k] = P.TABLE.new(None, "kde")
                a.defs = [a.z >= 0]
                a.lo = None
            return Sym(P.Poly.atom(a))
        return A.fin(A.emap(one, A.f_asarray(pts).reshape(-1)))

    evaluate = __call__
    pdf = __call__


def kde_factory(dataset, *a, **k):
    if not A.has_sym(dataset):
        r = scipy.stats.gaussian_kde(A.tonative(dataset), *a, **k)

        def f(p):
            if A.has_sym(p):
                raise Unsupported("kde at symbolic point")
            return A.rewrap(r(A.tonative(p)))
        return f
    return SymKDE(dataset, *a, **k)


def sym_periodogram(x, fs=1.0, window="boxcar", nfft=None, detrend="constant",
                    return_onesided=True, scaling="density", axis=-1):
    if not A.has_sym(x):
        return A.rewrap(scipy.signal.periodogram(A.tonative(x), fs, window, nfft, detrend,
                                                 return_onesided, scaling, axis))
    if window not in ("boxcar", None) or nfft not in (None, len(x)) or not return_onesided:
        raise Unsupported("periodogram options")
    v = list(A.boxed(x).ravel())
    n = len(v)
    if detrend == "constant":
        m = A.vmean(v)
        v = [a - m for a in v]
    elif detrend:
        raise Unsupported("periodogram detrend")
    F = A.dft(v)[: n // 2 + 1]
    sc = 1.0 / (fs * n) if scaling == "density" else 1.0 / n ** 2
    out = []
    for i, z in enumerate(F):
        p = (z.re * z.re + z.im * z.im) * sc
        if i > 0 and not (n % 2 == 0 and i == n // 2):
            p = p * 2
        out.append(p)
    return A.wrap(np.fft.rfftfreq(n, 1 / fs)), A.wrap(A.make_obj(out))


def conc_cdist(XA, XB, metric="euclidean", **k):
    h = getattr(S.ctx(), "hook_cdist", None)
    if h is not None:
        return h(XA, XB)
    return scipy.spatial.distance.cdist(XA, XB, metric, **k)


def sym_cdist(XA, XB, metric="euclidean", **k):
    h = getattr(S.ctx(), "hook_cdist", None)
    if h is not None:
        return h(XA, XB)
    if not A.has_sym([XA, XB]):
        return A.rewrap(scipy.spatial.distance.cdist(A.tonative(XA), A.tonative(XB), metric, **k))
    X, Y = A.boxed(XA), A.boxed(XB)
    out = np.empty((len(X), len(Y)), dtype=object)
    for i in range(len(X)):
        for j in range(len(Y)):
            if metric == "euclidean":
                s = np.float64(0)
                for a, b in zip(X[i], Y[j]):
                    s = s + (a - b) * (a - b)
                out[i, j] = s.sqrt() if is_sym(s) else np.sqrt(s)
            elif metric == "cityblock":
                s = np.float64(0)
                for a, b in zip(X[i], Y[j]):
                    s = s + abs(a - b)
                out[i, j] = s
            elif metric == "sqeuclidean":
                s = np.float64(0)
                for a, b in zip(X[i], Y[j]):
                    s = s + (a - b) * (a - b)
                out[i, j] = s
            else:
                raise Unsupported("cdist " + str(metric))
    return A.fin(out)


def qmc_discrepancy(sample, *, iterative=False, method="CD", workers=1):
    if not A.has_sym(sample):
        return A.rewrap(scipy.stats.qmc.discrepancy(A.tonative(sample), iterative=iterative,
                                                    method=method, workers=workers))
    s = A.boxed(sample)
    if s.ndim != 2:
        raise ValueError("Sample is not a 2D array")
    ctx = S.ctx()
    for v in s.ravel():
        if bool(S.sor(v < 0, v > 1)):
            raise ValueError("Sample is not in unit hypercube")
    if method not in ("CD", "WD", "MD", "L2-star"):
        raise ValueError("%r is not a valid method" % (method,))
    return ctx.hook_discrepancy(s, method)


def qmc_scale(sample, l_bounds, u_bounds, *, reverse=False):
    """scipy.stats.qmc.scale."""
    if not A.has_sym([sample, l_bounds, u_bounds]):
        return A.rewrap(scipy.stats.qmc.scale(A.tonative(sample), A.tonative(l_bounds), A.tonative(u_bounds), reverse=reverse))
    x = A.f_asarray(sample)
    if x.ndim != 2:
        raise ValueError("Sample is not a 2D array")
    d = x.shape[1]
    lo = A.f_rt_broadcast(l_bounds, d)
    hi = A.f_rt_broadcast(u_bounds, d)
    for a, b in zip(lo, hi):
        if not bool(a < b):
            raise ValueError("Bounds are not consistent 'l_bounds' < 'u_bounds'")
    for r in A.boxed(x):
        for v, a, b in zip(r, lo if reverse else [0.0] * d, hi if reverse else [1.0] * d):
            if not (bool(v <= b) and bool(v >= a)):
                raise ValueError("Sample is out of bounds" if reverse else "Sample is not in unit hypercube")
    lo, hi = A.f_asarray(lo), A.f_asarray(hi)
    return (x - lo) / (hi - lo) if reverse else x * (hi - lo) + lo


class PlainShim(A.ShimModule):
    """Real module; functions get native arguments and return boxed arrays."""

    def __getattr__(self, n):
        d = self.__dict__
        if n in d["_over"]:
            return d["_over"][n]
        v = getattr(d["_real"], n)
        if isinstance(v, types.ModuleType) or isinstance(v, type) or not callable(v):
            return v
        if isinstance(v, (scipy.stats.rv_continuous, scipy.stats.rv_discrete)):
            return DistProxy(n, v)

        def f(*a, **k):
            if A.has_sym(list(a)) or A.has_sym(k):
                raise Unsupported("%s.%s on symbolic values" % (self.__name__, n))
            return A.rewrap(v(*A.tonative(list(a)), **A.tonative(k)))
        f.__name__ = n
        return f


class _DFMeta(type):
    def __call__(cls, data=None, *a, **k):
        def conv(x):
            if isinstance(x, A.SymArray):
                return A.native(x) if not A.has_sym(x) else np.array(x.view_nd())
            if isinstance(x, dict):
                return {kk: conv(v) for kk, v in x.items()}
            if isinstance(x, list):
                return [conv(v) for v in x]
            return x
        return pd.DataFrame(conv(data), *[conv(x) for x in a], **{kk: conv(v) for kk, v in k.items()})

    def __instancecheck__(cls, x):
        return isinstance(x, pd.DataFrame)

    def __getattr__(cls, n):
        return getattr(pd.DataFrame, n)


class DFShim(metaclass=_DFMeta):
    pass


def pd_unique(v):
    if isinstance(v, A.SymArray):
        return A.rewrap(pd.unique(A.native(v)))
    return pd.unique(v)


# -------------------------------------------------------------- process pools
def isolate(x):
    """What crosses a process boundary is a copy."""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, list):
        return [isolate(v) for v in x]
    if isinstance(x, tuple):
        return tuple(isolate(v) for v in x) if not hasattr(x, "_fields") else x
    if type(x) is dict:
        return {k: isolate(v) for k, v in x.items()}
    return x


class PoolStub:
    """Workers may complete in any order; map keeps the submission order."""

    def __init__(self, processes=None, *a, **k):
        self.n = processes

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def _run(self, f, items, star=False):
        items = list(items)
        order = S.ctx().completion_order(len(items))
        res = [None] * len(items)
        for i in order:
            it = isolate(items[i])
            res[i] = isolate(f(*it) if star else f(it))
        return res, order

    def map(self, f, it, chunksize=None):
        return self._run(f, it)[0]

    def imap(self, f, it, chunksize=None):
        return iter(self._run(f, it)[0])

    def imap_unordered(self, f, it, chunksize=None):
        r, o = self._run(f, it)
        return iter([r[i] for i in o])

    uimap = imap_unordered

    def starmap(self, f, it, chunksize=None):
        return self._run(f, it, star=True)[0]

    def apply(self, f, args=(), kwds={}):
        return f(*isolate(tuple(args)), **kwds)

    class _Async:
        def __init__(self, v):
            self.v = v

        def get(self, timeout=None):
            return self.v

        def wait(self, *a):
            pass

        def ready(self):
            return True

    def map_async(self, f, it, *a, **k):
        return PoolStub._Async(self.map(f, it))

    def starmap_async(self, f, it, *a, **k):
        return PoolStub._Async(self.starmap(f, it))

    amap = map_async

    def apply_async(self, f, args=(), kwds={}, callback=None, **k):
        v = self.apply(f, args, kwds)
        if callback:
            callback(v)
        return PoolStub._Async(v)

    def close(self):
        pass

    join = terminate = clear = restart = close


class PPPool(PoolStub):
    """pathos.pp.ParallelPythonPool: map over one or more iterables."""

    def map(self, f, *its, **k):
        return self._run(lambda t: f(*t), list(zip(*its)))[0]


def make_mp(name):
    m = types.ModuleType(name)
    m.Pool = PoolStub

    def cpu_count():
        return S.ctx().cpu_count()

    m.cpu_count = cpu_count
    m.current_process = lambda: types.SimpleNamespace(name="MainProcess")
    m.get_context = lambda *a: m
    m.pool = types.SimpleNamespace(Pool=PoolStub, ThreadPool=PoolStub)
    return m


def make_argparse():
    """The real argparse; an int option given as a placeholder stands for ctx.int_texts' value."""
    import argparse
    m = types.ModuleType("argparse")
    m.__dict__.update({k: v for k, v in argparse.__dict__.items() if not k.startswith("__")})

    class ArgumentParser(argparse.ArgumentParser):
        def parse_known_args(self, *a, **k):
            ns, rest = super().parse_known_args(*a, **k)
            ints = S.ctx().int_texts if S.ctx() is not None else {}
            for key, v in list(vars(ns).items()):
                if type(v) is int and v in ints:
                    setattr(ns, key, ints[v])
            return ns, rest
    m.ArgumentParser = ArgumentParser
    return m


# ------------------------------------------------------------------------ world
class World:
    def __init__(self, mode):
        self.mode = mode
        self.mods = {}
        self.stubs = {}
        rnd = make_random(self)
        self.shims = {}
        sh = self.shims
        if mode == "sym":
            npm, lin, fft = A.make_numpy(rnd)
            self.np = npm
            sh["numpy"] = npm
            sh["numpy.linalg"] = lin
            sh["numpy.fft"] = fft
            sh["numpy.ma"] = A.MA
            sh["math"] = A.ShimMath()
            qmc = PlainShim("scipy.stats.qmc", scipy.stats.qmc,
                            {"Sobol": SobolEngine, "discrepancy": qmc_discrepancy, "scale": qmc_scale})
            stats = PlainShim("scipy.stats", scipy.stats, {
                "qmc": qmc, "rankdata": sym_rankdata, "ks_2samp": sym_ks_2samp,
                "cramervonmises_2samp": sym_cvm_2samp, "gaussian_kde": kde_factory})
            sig = PlainShim("scipy.signal", scipy.signal, {"periodogram": sym_periodogram})
            lin2 = PlainShim("scipy.linalg", scipy.linalg,
                             {"solve": lambda a, b, **k: A.f_solve(a, b), "inv": A.f_inv})
            dist = PlainShim("scipy.spatial.distance", scipy.spatial.distance, {"cdist": sym_cdist})
            spatial = PlainShim("scipy.spatial", scipy.spatial, {"distance": dist})
            special = PlainShim("scipy.special", scipy.special)
            interp = PlainShim("scipy.interpolate", scipy.interpolate, {"BSpline": BSplineShim})
            opt = PlainShim("scipy.optimize", scipy.optimize)
            sp = PlainShim("scipy", scipy, {"stats": stats, "signal": sig, "linalg": lin2,
                                            "spatial": spatial, "special": special,
                                            "interpolate": interp, "optimize": opt})
            sh.update({"scipy": sp, "scipy.stats": stats, "scipy.stats.qmc": qmc, "scipy.signal": sig,
                       "scipy.linalg": lin2, "scipy.spatial": spatial,
                       "scipy.spatial.distance": dist, "scipy.special": special,
                       "scipy.interpolate": interp, "scipy.optimize": opt})
            sh["pandas"] = PlainShim("pandas", pd, {"DataFrame": DFShim, "unique": pd_unique})
        else:
            npc = types.ModuleType("numpy")
            npc.__dict__["_r"] = np

            class NP(types.ModuleType):
                def __getattr__(s, n):
                    return getattr(np, n)
            npc = NP("numpy")
            npc.random = rnd
            self.np = npc
            sh["numpy"] = npc

            class QMC(types.ModuleType):
                def __getattr__(s, n):
                    return getattr(scipy.stats.qmc, n)
            q = QMC("scipy.stats.qmc")
            q.Sobol = SobolEngine

            class ST(types.ModuleType):
                def __getattr__(s, n):
                    return getattr(scipy.stats, n)
            st = ST("scipy.stats")
            st.qmc = q

            class DI(types.ModuleType):
                def __getattr__(s, n):
                    return getattr(scipy.spatial.distance, n)
            di = DI("scipy.spatial.distance")
            di.cdist = conc_cdist

            class SPA(types.ModuleType):
                def __getattr__(s, n):
                    return getattr(scipy.spatial, n)
            spa = SPA("scipy.spatial")
            spa.distance = di

            class SP(types.ModuleType):
                def __getattr__(s, n):
                    return getattr(scipy, n)
            sp = SP("scipy")
            sp.stats = st
            sp.spatial = spa
            sh.update({"scipy.spatial": spa, "scipy.spatial.distance": di, "scipy": sp, "scipy.stats": st, "scipy.stats.qmc": q})
        sh["numpy.random"] = rnd
        self.random = rnd
        sh["multiprocess"] = make_mp("multiprocess")
        sh["multiprocessing"] = make_mp("multiprocessing")
        pp = types.ModuleType("pathos.pp")
        pp.ParallelPythonPool = PPPool
        pp.stats = lambda *a, **k: None
        par = types.ModuleType("pathos.parallel")
        par.stats = lambda *a, **k: None
        pm = types.ModuleType("pathos")
        pm.pp, pm.parallel, pm.__path__ = pp, par, []
        sh.update({"pathos": pm, "pathos.pp": pp, "pathos.parallel": par})
        if mode == "sym":
            sh["argparse"] = make_argparse()
        imp = types.ModuleType("importlib")
        imp.__dict__.update({k: v for k, v in importlib.__dict__.items() if not k.startswith("__")})

        def import_module(name, package=None):
            if name.startswith("."):
                name = importlib.util.resolve_name(name, package)
            if name == "SALib" or name.startswith("SALib."):
                return self.load(name)
            if name in sh:
                return sh[name]
            return importlib.import_module(name, package)
        imp.import_module = import_module
        sh["importlib"] = imp
        self.builtins = dict(builtins.__dict__)
        self.builtins["__import__"] = self._import
        if mode == "sym":
            self.builtins["float"] = A.FloatShim

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            base = pkg.rsplit(".", level - 1)[0] if level > 1 else pkg
            full = base + ("." + name if name else "")
        else:
            full = name
        if full == "SALib" or full.startswith("SALib."):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f == "*":
                        continue
                    if not hasattr(m, f) and hasattr(m, "__path__"):
                        try:
                            self.load(full + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(full.split(".")[0])
        if full in self.shims:
            if fromlist:
                m = self.shims[full]
                return m
            top = full.split(".")[0]
            return self.shims.get(top) or builtins.__import__(top)
        top = full.split(".")[0]
        if top in self.shims and fromlist:
            m = self.shims[top]
            try:
                for part in full.split(".")[1:]:
                    m = getattr(m, part)
                return m
            except AttributeError:
                pass
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.load(parent)
            m = self.mods.get(name)
            if m is not None:
                return m
        path = os.path.join(SRC, *name.split("."))
        m = types.ModuleType(name)
        if os.path.isdir(path):
            f = os.path.join(path, "__init__.py")
            m.__path__ = [path]
            m.__package__ = name
        else:
            f = path + ".py"
            m.__package__ = parent
        if not os.path.exists(f):
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m.__file__ = f
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        try:
            if name == "SALib.sample.directions":
                # a pure table of integers: shared, never executed symbolically
                exec(source_code(f), m.__dict__)
            else:
                exec(source_code(f), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if parent:
            setattr(self.mods[parent], leaf, m)
        return m

    def variant(self, name, extra):
        """The module executed anew with other modules importable."""
        saved = {k: self.shims.get(k) for k in extra}
        self.load(name)
        old = self.mods.pop(name)
        self.shims.update(extra)
        try:
            return self.load(name)
        finally:
            for k, v in saved.items():
                if v is None:
                    self.shims.pop(k)
                else:
                    self.shims[k] = v
            self.mods[name] = old
            parent, _, leaf = name.rpartition(".")
            setattr(self.mods[parent], leaf, old)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return Ns(self, "SALib." + n)


class Ns:
    """w.sample.saltelli -> module; attribute access loads on demand."""

    def __init__(self, w, name):
        self.__dict__["_w"] = w
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        w, nm = self.__dict__["_w"], self.__dict__["_n"]
        full = nm + "." + n
        p = os.path.join(SRC, *full.split("."))
        if os.path.exists(p + ".py"):
            w.load(full)
            return w.mods[full]
        if os.path.isdir(p):
            return Ns(w, full)
        return getattr(w.load(nm), n)
