"""Exact multivariate polynomials over symbolic atoms.

An atom is one SMT variable (a symbolic input, a square root, the value of an
uninterpreted function, an indicator 0/1, a case-split value).  Terms are kept
in polynomial normal form so that the questions handed to the solver are
already expanded; every question is still decided by the solver (see core.py).
"""
from fractions import Fraction
import math

import z3

_RCACHE = {}


def rat(x):
    """Idealise one concrete number as a rational (floats are read as reals)."""
    t = type(x)
    if t is int:
        return x
    if t is Fraction:
        return x.numerator if x.denominator == 1 else x
    if t is bool:
        return int(x)
    r = _RCACHE.get(x)
    if r is not None:
        return r
    xf = float(x)
    if xf != xf or xf in (math.inf, -math.inf):
        raise ValueError("not finite")
    if xf == int(xf) and abs(xf) < 2**70:
        r = int(xf)
    else:
        ex = Fraction(xf)
        r = ex
        for lim in (1000, 10**6):
            f = ex.limit_denominator(lim)
            if f != 0 and abs(f - ex) <= abs(ex) * Fraction(1, 2 * 10**15):
                r = f
                break
        if r.denominator == 1:
            r = r.numerator
    _RCACHE[x] = r
    return r


class Atom:
    __slots__ = ("id", "name", "z", "kind", "defs", "deps", "square", "lo", "hi", "info")

    def __init__(self, id, name, z, kind, defs=(), deps=(), square=None, info=None):
        self.id = id
        self.name = name
        self.z = z
        self.kind = kind  # input, sqrt, uf, ind, ite
        self.defs = list(defs)
        self.deps = frozenset(deps)
        self.square = square  # Poly: this atom squared (sqrt, ind)
        self.info = info
        self.lo = self.hi = None


class AtomTable:
    def __init__(self):
        self.atoms = []
        self.byname = {}
        self.squares = {}
        self.mono = {}

    def new(self, name, kind, z=None, defs=(), deps=(), square=None, info=None):
        i = len(self.atoms)
        if name is None:
            name = "%s!%d" % (kind, i)
        if z is None:
            z = z3.Real(name)
        a = Atom(i, name, z, kind, defs, deps, square, info)
        self.atoms.append(a)
        self.byname[name] = a
        if square is not None:
            self.squares[i] = square
        return a


TABLE = AtomTable()


def interval(p, limit=60):
    """(lo, hi) of a polynomial from its atoms' declared ranges, None when unknown."""
    if len(p.t) > limit and (len(p.t) > 50 * limit or len({c > 0 for c in p.t.values()}) > 1):
        return None
    L = U = Fraction(0)
    at = TABLE.atoms
    for m, c in p.t.items():
        l = h = c
        k = 0
        n = len(m)
        while k < n:
            a = at[m[k]]
            if a.lo is None or a.hi is None:
                return None
            if k + 1 < n and m[k + 1] == m[k]:
                q = max(a.lo * a.lo, a.hi * a.hi)
                r = Fraction(0) if a.lo <= 0 <= a.hi else min(a.lo * a.lo, a.hi * a.hi)
                k += 2
            else:
                r, q = a.lo, a.hi
                k += 1
            v = (l * r, l * q, h * r, h * q)
            l, h = min(v), max(v)
        L += l
        U += h
    return L, U


def reset_table():
    TABLE.__init__()


class TooBig(Exception):
    pass


MAXTERMS = 60000


_NUMS = {}
_CTX = z3.main_ctx()
_CREF = _CTX.ref()


def _num(c):
    r = _NUMS.get(c)
    if r is None:
        r = z3.RealVal(c) if type(c) is int else z3.RatVal(c.numerator, c.denominator)
        if len(_NUMS) > 100000:
            _NUMS.clear()
        _NUMS[c] = r
    return r


def _nary(mk, args):
    arr = (z3.Ast * len(args))(*[a.ast for a in args])
    return z3.ArithRef(mk(_CREF, len(args), arr), _CTX)


class Poly:
    __slots__ = ("t", "_z", "_h")

    def __init__(self, t):
        self.t = t  # {tuple(sorted atom ids): coefficient}
        self._z = None
        self._h = None

    @staticmethod
    def const(c):
        c = rat(c)
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def atom(a):
        return Poly({(a.id,): 1})

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const_value(self):
        return self.t.get((), 0)

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def __eq__(self, o):
        return self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def __add__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = -c
            else:
                v = v - c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def denom(self):
        l = 1
        for c in self.t.values():
            if type(c) is not int:
                d = c.denominator
                if l % d:
                    l = l * d // math.gcd(l, d)
        return l

    def divint(self, d):
        r = {}
        for m, c in self.t.items():
            if type(c) is int:
                q, rem = divmod(c, d)
                r[m] = q if not rem else Fraction(c, d)
            else:
                r[m] = rat(c / d)
        return Poly(r)

    def scale(self, c):
        if c == 0:
            return Poly({})
        if c == 1:
            return self
        return Poly({m: rat(v * c) for m, v in self.t.items()})

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        if len(self.t) * len(o.t) > 40 * MAXTERMS:
            raise TooBig("polynomial product of %d x %d terms" % (len(self.t), len(o.t)))
        sq = TABLE.squares
        if len(self.t) * len(o.t) > 24:
            d1, d2 = self.denom(), o.denom()
            if d1 != 1 or d2 != 1:
                a = self if d1 == 1 else Poly({m: int(c * d1) for m, c in self.t.items()})
                b = o if d2 == 1 else Poly({m: int(c * d2) for m, c in o.t.items()})
                return (a * b).divint(d1 * d2)
        r = {}
        extra = []
        if self.t is o.t and not any(i in sq for i in self.atoms()):
            items = list(self.t.items())
            for k, (m1, c1) in enumerate(items):
                m = tuple(sorted(m1 + m1))
                v = r.get(m)
                r[m] = c1 * c1 if v is None else v + c1 * c1
                c1 = 2 * c1
                for m2, c2 in items[k + 1:]:
                    m = tuple(sorted(m1 + m2))
                    v = r.get(m)
                    r[m] = c1 * c2 if v is None else v + c1 * c2
            r = Poly({m: (c if type(c) is int else rat(c)) for m, c in r.items() if c})
            if len(r.t) > MAXTERMS:
                raise TooBig("polynomial of %d terms" % len(r.t))
            return r
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                c = c1 * c2
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                if sq and m1 and m2:
                    hit = None
                    for i in m1:
                        if i in sq and i in m2:
                            hit = i
                            break
                    if hit is not None:
                        l = list(m)
                        l.remove(hit)
                        l.remove(hit)
                        extra.append((c, tuple(l), hit))
                        continue
                v = r.get(m)
                r[m] = c if v is None else v + c
        r = Poly({m: (c if type(c) is int else rat(c)) for m, c in r.items() if c})
        if extra:
            by = {}
            for c, m, hit in extra:
                d = by.setdefault(hit, {})
                d[m] = d.get(m, 0) + c
            for hit, d in by.items():
                rest = reduce_squares(Poly({m: rat(c) for m, c in d.items() if c}))
                r = r + rest * sq[hit]
        if len(r.t) > MAXTERMS:
            raise TooBig("polynomial of %d terms" % len(r.t))
        return r

    def pow(self, n):
        r = Poly({(): 1})
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def to_z3(self):
        if self._z is None:
            terms = []
            mono = TABLE.mono
            atoms = TABLE.atoms
            for m, c in self.t.items():
                if not m:
                    terms.append(_num(c))
                    continue
                p = mono.get(m)
                if p is None:
                    p = atoms[m[0]].z if len(m) == 1 else _nary(z3.Z3_mk_mul, [atoms[i].z for i in m])
                    mono[m] = p
                terms.append(p if c == 1 else _nary(z3.Z3_mk_mul, [_num(c), p]))
            if not terms:
                self._z = z3.RealVal(0)
            elif len(terms) == 1:
                self._z = terms[0]
            else:
                self._z = _nary(z3.Z3_mk_add, terms)
        return self._z

    def content(self):
        """Leading coefficient used to normalise a factor."""
        lead = self.t[max(self.t)]
        if len(self.t) > 400:
            return lead
        g, l = 0, 1
        for c in self.t.values():
            if type(c) is int:
                g = math.gcd(g, c)
            else:
                g = math.gcd(g, c.numerator)
                l = l * c.denominator // math.gcd(l, c.denominator)
                if l > 10**12:
                    return lead
        r = rat(Fraction(g, l))
        return -r if lead < 0 else r

    def maxabs(self):
        return max((abs(c) for c in self.t.values()), default=0)

    def drop_noise(self, scale, rel=Fraction(1, 10**11)):
        lim = scale * rel
        return Poly({m: c for m, c in self.t.items() if abs(c) > lim})

    def eval(self, env):
        """Numeric value with env: atom id -> number."""
        s = 0
        for m, c in self.t.items():
            p = c
            for i in m:
                p = p * env[i]
            s = s + p
        return s


def reduce_squares(p):
    sq = TABLE.squares
    if not sq:
        return p
    for m in p.t:
        for i in range(len(m) - 1):
            if m[i] == m[i + 1] and m[i] in sq:
                break
        else:
            continue
        break
    else:
        return p
    out = Poly({})
    for m, c in p.t.items():
        q = Poly({(): c})
        for i in m:
            q = q * Poly({(i,): 1})
        out = out + q
    return out


ZERO = Poly({})
ONE = Poly({(): 1})


def try_divide(p, q):
    """Exact quotient p / q when p is a scalar multiple of q, else None."""
    if len(p.t) != len(q.t):
        return None
    it = iter(q.t.items())
    m, c = next(it)
    v = p.t.get(m)
    if v is None:
        return None
    k = Fraction(v) / c
    for m, c in it:
        v = p.t.get(m)
        if v is None or v != k * c:
            return None
    return rat(k)
