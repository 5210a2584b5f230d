"""Symbolic scalars: real-valued rational functions over atoms, and booleans."""
from fractions import Fraction
import math
import numbers
import operator

import numpy as np
import z3

from . import poly as P
from .poly import Poly, rat, TABLE, interval


class Unsupported(BaseException):
    """The engine cannot encode an operation (never seen by the code under test)."""


class PathEnd(BaseException):
    """The current path is infeasible or abandoned."""


class Box:
    """Current context (symbolic or concrete)."""
    ctx = None


def ctx():
    return Box.ctx


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_, Fraction))


def is_sym(x):
    return isinstance(x, (Sym, SymBool, SymComplex))


NOISE = Fraction(1, 10**11)


class SymBool:
    __slots__ = ("z", "at", "_ind")
    __array_ufunc__ = None

    def __init__(self, z, at):
        self.z = z
        self.at = frozenset(at)
        self._ind = None

    def __bool__(self):
        return ctx().branch(self)

    def ind(self):
        return ctx().indicator(self)

    @staticmethod
    def of(x):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, Sym):
            return x != 0
        return bool(x)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return sand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return sor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return snot(self)

    def __xor__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return sxor(self, o)

    __rxor__ = __xor__

    def logical_not(self):
        return snot(self)

    def astype(self, t, **k):
        if t in (bool, np.bool_):
            return self
        return self.ind()

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self.ind()

    def item(self):
        return self

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __hash__(self):
        return id(self)

    dtype = np.dtype(bool)
    shape = ()
    ndim = 0
    size = 1


def _boolarith(name):
    def f(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return getattr(self.ind(), name)(o)

    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow",
           "lt", "le", "gt", "ge"):
    setattr(SymBool, "__%s__" % _n, _boolarith("__%s__" % _n))


def _booleq(self, o):
    if isinstance(o, np.ndarray):
        return NotImplemented
    if isinstance(o, (bool, np.bool_)):
        return self if o else snot(self)
    if isinstance(o, SymBool):
        return snot(sxor(self, o))
    return self.ind() == o


def _boolne(self, o):
    r = _booleq(self, o)
    return r if r is NotImplemented else snot(r)


SymBool.__eq__ = _booleq
SymBool.__ne__ = _boolne
SymBool.__neg__ = lambda s: -s.ind()


def snot(a):
    if isinstance(a, SymBool):
        return SymBool(z3.Not(a.z), a.at)
    if isinstance(a, Sym):
        return a == 0
    return not a


def sand(*xs):
    zs, at = [], set()
    for x in xs:
        x = SymBool.of(x)
        if isinstance(x, SymBool):
            zs.append(x.z)
            at |= x.at
        elif not x:
            return False
    if not zs:
        return True
    if len(zs) == 1:
        return SymBool(zs[0], at)
    return SymBool(z3.And(*zs), at)


def sor(*xs):
    zs, at = [], set()
    for x in xs:
        x = SymBool.of(x)
        if isinstance(x, SymBool):
            zs.append(x.z)
            at |= x.at
        elif x:
            return True
    if not zs:
        return False
    if len(zs) == 1:
        return SymBool(zs[0], at)
    return SymBool(z3.Or(*zs), at)


def sxor(a, b):
    a, b = SymBool.of(a), SymBool.of(b)
    if not isinstance(a, SymBool):
        return snot(b) if a else b
    if not isinstance(b, SymBool):
        return snot(a) if b else a
    return SymBool(z3.Xor(a.z, b.z), a.at | b.at)


def implies(a, b):
    return sor(snot(a), b)


def _poly_of_bool(b):
    return b.ind().n


class Sym:
    """num / prod(factor**power); real-valued."""
    __slots__ = ("n", "d", "isint")
    __array_ufunc__ = None
    dtype = np.dtype(float)
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, n, d=None, isint=False):
        self.n = n
        self.d = d or {}
        self.isint = isint

    # -- construction -----------------------------------------------------
    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return x.ind()
        if isinstance(x, (bool, np.bool_)):
            return Sym(Poly.const(int(x)), isint=True)
        if isinstance(x, (int, np.integer)):
            return Sym(Poly.const(int(x)), isint=True)
        if isinstance(x, (float, np.floating)):
            return Sym(Poly.const(x))
        if isinstance(x, Fraction):
            return Sym(Poly.const(x))
        raise TypeError("not a number: %r" % (type(x),))

    def is_const(self):
        return not self.d and self.n.is_const()

    def simp(self):
        """Collapse constants to concrete numbers."""
        if not self.d and self.n.is_const():
            v = self.n.const_value()
            if self.isint and (type(v) is int):
                return np.int64(v) if abs(v) < 2**62 else v
            return np.float64(v)
        return self

    def atoms(self):
        s = self.n.atoms()
        for f in self.d:
            s |= f.atoms()
        return s

    def den(self):
        r = P.ONE
        for f, p in self.d.items():
            r = r * f.pow(p)
        return r

    def __format__(self, spec):
        return repr(self)

    def __repr__(self):
        return "Sym(%d terms%s)" % (len(self.n.t), "/%d" % len(self.d) if self.d else "")

    # -- arithmetic -------------------------------------------------------
    def __add__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o  # inf / nan
        if isinstance(o, SymComplex):
            return NotImplemented
        return _add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return np.float64(-o)
        if isinstance(o, SymComplex):
            return NotImplemented
        return _add(self, Sym(-o.n, o.d, o.isint))

    def __rsub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o
        if isinstance(o, SymComplex):
            return NotImplemented
        return _add(o, Sym(-self.n, self.d, self.isint))

    def __mul__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return _mulinf(self, o)
        if isinstance(o, SymComplex):
            return NotImplemented
        return _mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return np.float64(0.0) if o == o else o
        return _div(self, o)

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            if o != o:
                return o
            if bool(self == 0):
                return o
            return _mulinf(self, o)
        return _div(o, self)

    def __neg__(self):
        return Sym(-self.n, self.d, self.isint)

    def __pos__(self):
        return self

    def __pow__(self, e):
        if isinstance(e, Sym):
            e = e.simp()
            if isinstance(e, Sym):
                return ufun("pow", self, e)
        if isinstance(e, np.ndarray):
            return NotImplemented
        if e == int(e):
            e = int(e)
            if e >= 0:
                if not self.d:
                    return Sym(self.n.pow(e), None, self.isint).simp()
                r = Sym.of(1)
                for _ in range(e):
                    r = _mul(Sym.of(r), self)
                return r
            return _div(Sym.of(1), Sym.of(self ** (-e)))
        if e == 0.5:
            return ssqrt(self)
        return ufun("pow", self, Sym.of(e))

    def __rpow__(self, b):
        return ufun("pow", Sym.of(b), self)

    def __abs__(self):
        return sabs(self)

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return Sym.of(Sym.of(o) / self).floor()

    def __mod__(self, o):
        q = self / o
        q = q.floor() if isinstance(q, Sym) else np.floor(q)
        return self - q * o

    def __rmod__(self, o):
        return Sym.of(o) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    # -- comparison -------------------------------------------------------
    def __lt__(self, o):
        return _cmp(self, o, "<")

    def __le__(self, o):
        return _cmp(self, o, "<=")

    def __gt__(self, o):
        return _cmp(self, o, ">")

    def __ge__(self, o):
        return _cmp(self, o, ">=")

    def __eq__(self, o):
        return _cmp(self, o, "==")

    def __ne__(self, o):
        r = _cmp(self, o, "==")
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        return hash((self.n, frozenset(self.d.items())))

    def __bool__(self):
        return bool(self != 0)

    # -- conversions ------------------------------------------------------
    def __float__(self):
        raise Unsupported("float() of a symbolic value at a C boundary")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def __int__(self):
        return ctx().concretise_int(self.trunc_sym())

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ctx().concretise_int(self)

    def trunc_sym(self):
        if self.isint:
            return self
        k = ctx().floor_int(self)
        # int() truncates towards zero
        if k < 0 and bool(self != k):
            k += 1
        return Sym.of(k)

    def floor(self):
        if self.isint:
            return self
        return np.float64(ctx().floor_int(self))

    def ceil(self):
        return -((-self).floor())

    def rint(self):
        if self.isint:
            return self
        k = ctx().floor_int(self + Fraction(1, 2))
        if k % 2 and bool(self == Fraction(2 * k - 1, 2)):
            k -= 1
        return np.float64(k)

    def __round__(self, nd=None):
        if nd:
            return (self * 10**nd).rint() / 10**nd
        r = self.rint()
        return int(r) if nd is None and not isinstance(r, Sym) else r

    def __floor__(self):
        return int(self.floor())

    def __ceil__(self):
        return int(self.ceil())

    def __trunc__(self):
        return int(self)

    def trunc(self):
        return np.float64(int(self))

    # -- numpy object-array method protocol --------------------------------
    def sqrt(self):
        return ssqrt(self)

    def square(self):
        return _mul(self, self)

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return np.float64(0.0)

    def exp(self):
        return ufun("exp", self)

    def log(self):
        return ufun("log", self)

    def log2(self):
        return ufun("log2", self)

    def log10(self):
        return ufun("log10", self)

    def sin(self):
        return ufun("sin", self)

    def cos(self):
        return ufun("cos", self)

    def tan(self):
        return ufun("tan", self)

    def tanh(self):
        return ufun("tanh", self)

    def arcsin(self):
        return ufun("arcsin", self)

    def absolute(self):
        return sabs(self)

    fabs = absolute

    def isnan(self):
        return np.bool_(False)

    def isinf(self):
        return np.bool_(False)

    def isfinite(self):
        return np.bool_(True)

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def mean(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    min = max

    def flatten(self):
        from . import arr
        return arr.wrap([self])

    ravel = flatten

    def reshape(self, *s):
        return self.flatten().reshape(*s)

    def astype(self, t, **k):
        if t in (int, np.int64, np.int32) or (isinstance(t, np.dtype) and t.kind in "iu"):
            return self.trunc_sym()
        if t in (bool, np.bool_):
            return self != 0
        return self

    def is_integer(self):
        return self.isint

    @property
    def T(self):
        return self


numbers.Number.register(Sym)
numbers.Real.register(Sym)
numbers.Number.register(SymBool)


class SymComplex:
    __slots__ = ("re", "im")
    __array_ufunc__ = None
    dtype = np.dtype(complex)
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def of(x):
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SymComplex(np.float64(x.real), np.float64(x.imag))
        return SymComplex(x, np.float64(0.0))

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = SymComplex.of(o)
        return SymComplex(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = SymComplex.of(o)
        return SymComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return SymComplex.of(o) - self

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = SymComplex.of(o)
        return SymComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, SymComplex) or isinstance(o, complex):
            o = SymComplex.of(o)
            m = o.re * o.re + o.im * o.im
            return self * SymComplex(o.re / m, -o.im / m)
        return SymComplex(self.re / o, self.im / o)

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __pow__(self, e):
        r = self
        for _ in range(int(e) - 1):
            r = r * self
        return r

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __abs__(self):
        return ssqrt(self.re * self.re + self.im * self.im)

    absolute = __abs__

    def square(self):
        return self * self


def _coerce(o):
    """A Sym, a concrete inf/nan float, or NotImplemented."""
    if isinstance(o, Sym):
        return o
    if isinstance(o, np.ndarray):
        return NotImplemented
    if isinstance(o, SymComplex) or isinstance(o, complex):
        if isinstance(o, SymComplex):
            return o
        return SymComplex.of(o)
    if isinstance(o, SymBool):
        return o.ind()
    if isinstance(o, (float, np.floating)) and not math.isfinite(o):
        return np.float64(o)
    try:
        return Sym.of(o)
    except TypeError:
        return NotImplemented


def _listwise(base, refl):
    name = "__%s%s__" % ("r" if refl else "", base)
    f, op = getattr(Sym, name), getattr(operator, base)

    def g(self, o):
        # numpy's float64 scalars treat a list operand as an array
        if type(o) in (list, tuple):
            from . import arr
            a = arr.f_asarray(o)
            return op(a, self) if refl else op(self, a)
        return f(self, o)
    g.__name__ = name
    return g


for _n in ("add", "sub", "mul", "truediv"):
    for _p in (False, True):
        setattr(Sym, "__%s%s__" % ("r" if _p else "", _n), _listwise(_n, _p))


def _mulinf(s, o):
    if o != o:
        return np.float64(o)
    if bool(s == 0):
        return np.float64("nan")
    return np.float64(o) if bool(s > 0) else np.float64(-o)


def _normden(n, d):
    """Replace squares of sqrt atoms in the denominator; cancel equal factors."""
    if not d:
        return n, d
    if not n.t:
        return n, {}
    # cancel a factor that is a scalar multiple of the numerator
    sq = TABLE.squares
    for f in list(d):
        if len(f.t) == 1:
            (m, c), = f.t.items()
            if len(m) == 1 and m[0] in sq and d[f] >= 2 and TABLE.atoms[m[0]].kind in ("sqrt",):
                k, r = divmod(d[f], 2)
                d = dict(d)
                if r:
                    d[f] = 1
                else:
                    del d[f]
                n2, d2 = _mulden(n, d, sq[m[0]], k)
                n, d = n2, d2
                return _normden(n, d)
    changed = True
    while changed and d:
        changed = False
        for f in list(d):
            if len(f.t) == len(n.t):
                k = P.try_divide(n, f)
                if k is not None:
                    n = Poly.const(k)
                    d = dict(d)
                    d[f] -= 1
                    if not d[f]:
                        del d[f]
                    changed = True
                    break
            if len(f.t) == 1:
                (m, c), = f.t.items()
                if len(m) == 1 and all(m[0] in mm for mm in n.t):
                    i = m[0]
                    nt = {}
                    for mm, cc in n.t.items():
                        l = list(mm)
                        l.remove(i)
                        nt[tuple(l)] = cc
                    n = Poly(nt)
                    d = dict(d)
                    d[f] -= 1
                    if not d[f]:
                        del d[f]
                    changed = True
                    break
    return n, d


def _factor(f):
    """(scale, normalised factor): f = scale * factor."""
    c = f.content()
    if c == 1:
        return 1, f
    return c, f.scale(Fraction(1) / c)


def _mulden(n, d, f, p):
    """n/d divided by f**p."""
    if f.is_const():
        c = f.const_value()
        return n.scale(Fraction(1) / Fraction(c) ** p), d
    if len(f.t) == 1:
        (m, c), = f.t.items()
        d = dict(d)
        for i in m:
            fi = Poly({(i,): 1})
            d[fi] = d.get(fi, 0) + p
        return n.scale(Fraction(1) / Fraction(c) ** p), d
    c, g = _factor(f)
    if c != 1:
        n = n.scale(Fraction(1) / Fraction(c) ** p)
    d = dict(d)
    d[g] = d.get(g, 0) + p
    return n, d


def _mk(n, d, isint=False):
    n, d = _normden(n, d)
    return Sym(n, d, isint).simp()


def _add(a, b):
    isint = a.isint and b.isint
    if not a.d and not b.d:
        return Sym(a.n + b.n, None, isint).simp()
    if a.d == b.d:
        return _mk(a.n + b.n, a.d)
    d = dict(a.d)
    for f, p in b.d.items():
        if d.get(f, 0) < p:
            d[f] = p
    na, nb = a.n, b.n
    for f, p in d.items():
        q = p - a.d.get(f, 0)
        if q:
            na = na * f.pow(q)
        q = p - b.d.get(f, 0)
        if q:
            nb = nb * f.pow(q)
    return _mk(na + nb, d)


def _mul(a, b):
    isint = a.isint and b.isint
    if not a.d and not b.d:
        return Sym(a.n * b.n, None, isint).simp()
    if not a.n.t or not b.n.t:
        return np.float64(0.0)
    # cancel numerators against the other denominator first
    an, ad, bn, bd = a.n, a.d, b.n, b.d
    for _ in range(2):
        for f in list(bd):
            while bd.get(f):
                k = P.try_divide(an, f) if len(f.t) == len(an.t) else None
                if k is None:
                    break
                an = Poly.const(k)
                bd = dict(bd)
                bd[f] -= 1
                if not bd[f]:
                    del bd[f]
        an, ad, bn, bd = bn, bd, an, ad
    d = dict(ad)
    for f, p in bd.items():
        d[f] = d.get(f, 0) + p
    return _mk(an * bn, d)


def _div(a, b):
    if b.is_const():
        v = b.n.const_value()
        if v == 0:
            if bool(a == 0):
                return np.float64("nan")
            return np.float64("inf") if bool(a > 0) else np.float64("-inf")
        return Sym(a.n.scale(Fraction(1) / v), a.d).simp()
    if bool(_cmp(b, 0, "==")):
        return _div(a, Sym.of(0))
    n, d = a.n, a.d
    # multiply by b.d, divide by b.n
    for f, p in b.d.items():
        d = dict(d)
        q = d.get(f, 0)
        if q >= p:
            d[f] = q - p
            if not d[f]:
                del d[f]
        else:
            d.pop(f, None)
            n = n * f.pow(p - q)
    k = P.try_divide(n, b.n) if len(n.t) == len(b.n.t) else None
    if k is not None:
        return _mk(Poly.const(k), d)
    n, d = _mulden(n, d, b.n, 1)
    return _mk(n, d)


def radicand_of(n):
    """Poly with the same sign behaviour for a multiple of one sqrt atom."""
    if len(n.t) == 1:
        (m, c), = n.t.items()
        if len(m) == 1 and TABLE.atoms[m[0]].kind == "sqrt":
            return c, TABLE.squares[m[0]]
    return None, None


def unsqrt(n):
    """a*sqrt(u) - b*sqrt(v) has the sign of a^2*u - b^2*v (a, b > 0; either root may be a constant)."""
    if len(n.t) != 2:
        return n
    out = []
    for m, c in n.t.items():
        if not m:
            out.append((c, P.ONE))
        elif len(m) == 1 and TABLE.atoms[m[0]].kind == "sqrt":
            out.append((c, TABLE.squares[m[0]]))
        else:
            return n
    (c1, u), (c2, v) = out
    if (c1 > 0) == (c2 > 0):
        return n
    return (u.scale(c1 * abs(c1)) + v.scale(c2 * abs(c2)))


def cmpz(n, op):
    from .core import psd_forms
    c, rad = radicand_of(n)
    if rad is not None:
        if op == "==":
            n = rad
        elif op == ">":
            if c < 0:
                return z3.BoolVal(False)
            n = rad
        elif op == "<":
            if c > 0:
                return z3.BoolVal(False)
            n, op = rad, ">"
        elif op == "<=":
            if c < 0:
                return z3.BoolVal(True)
            n = rad
        else:
            if c > 0:
                return z3.BoolVal(True)
            n, op = rad, "<="
    for sgn in (1, -1):
        q = n if sgn > 0 else -n
        f = psd_forms(q)
        if f is None:
            continue
        o = op if sgn > 0 else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        forms, c0 = f
        if o == "<":
            return z3.BoolVal(False)
        if o == ">=":
            return z3.BoolVal(True)
        if c0 > 0:
            return z3.BoolVal(o == ">")
        zero = z3.And(*[g.to_z3() == 0 for g in forms])
        return z3.Not(zero) if o == ">" else zero
    iv = interval(n)
    if iv:
        l, h = iv
        if op == "==":
            if l > 0 or h < 0:
                return z3.BoolVal(False)
        else:
            if l > 0 or (l >= 0 and op in (">=", "<")):
                return z3.BoolVal(op in (">", ">="))
            if h < 0 or (h <= 0 and op in ("<=", ">")):
                return z3.BoolVal(op in ("<", "<="))
    z = n.to_z3()
    if op == "==":
        return z == 0
    if op == "<":
        return z < 0
    if op == "<=":
        return z <= 0
    if op == ">":
        return z > 0
    return z >= 0


def mkbool(z, diff):
    if z3.is_true(z):
        return np.bool_(True)
    if z3.is_false(z):
        return np.bool_(False)
    at = set(diff.atoms())
    c, rad = radicand_of(diff)
    if rad is not None:
        at |= rad.atoms()
    return SymBool(z, at)


_PY = {"==": operator.eq, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


def _cmp(a, o, op):
    b = _coerce(o)
    if b is NotImplemented:
        if isinstance(o, np.ndarray):
            return NotImplemented
        if op == "==":
            return False
        return NotImplemented
    if isinstance(b, SymComplex):
        return sand(_cmp(a, b.re, op), b.im == 0)
    if isinstance(b, float):
        if b != b or op == "==":
            return np.bool_(False)
        return np.bool_((b > 0) == (op in ("<", "<=")))
    d = {}
    if a.d or b.d:
        d = dict(a.d)
        for f, p in b.d.items():
            if d.get(f, 0) < p:
                d[f] = p
        na, nb = a.n, b.n
        for f, p in d.items():
            q = p - a.d.get(f, 0)
            if q:
                na = na * f.pow(q)
            q = p - b.d.get(f, 0)
            if q:
                nb = nb * f.pow(q)
    else:
        na, nb = a.n, b.n
    diff = na - nb
    sc = max(na.maxabs(), nb.maxabs())
    diff = diff.drop_noise(sc)
    if diff.is_const() and (op == "==" or not d or not diff.t):
        return np.bool_(_PY[op](diff.const_value(), 0))
    if not d or op == "==":
        diff = unsqrt(diff)
        if diff.is_const():
            return np.bool_(_PY[op](diff.const_value(), 0))
    if op == "==":
        return mkbool(cmpz(diff, "=="), diff)
    # sign of the denominator: odd powers matter
    odd = [f for f, p in d.items() if p % 2]
    neg = False
    unk = []
    at = set(diff.atoms())
    for f in odd:
        s = ctx().sign_of(f)
        if s == 0:
            unk.append(f)
        elif s < 0:
            neg = not neg
    z = diff
    if neg:
        z = -diff
    if not unk:
        if z.is_const():
            return np.bool_(_PY[op](z.const_value(), 0))
        return mkbool(cmpz(z, op), diff)
    zz = z.to_z3()
    pr = z3.Product(zz, *[f.to_z3() for f in unk])
    for f in unk:
        at |= f.atoms()
    rel = {"<": pr < 0, "<=": pr <= 0, ">": pr > 0, ">=": pr >= 0}[op]
    return SymBool(rel, at)


def sabs(x):
    x = Sym.of(x).simp()
    if not isinstance(x, Sym):
        return np.float64(abs(x))
    if len(x.n.t) == 1 and not x.d:
        (m, c), = x.n.t.items()
        if all(TABLE.atoms[i].kind in ("sqrt", "ind") for i in m):
            return Sym(x.n.scale(-1 if c < 0 else 1))
    d = {}
    for f, p in x.d.items():
        if p % 2 and ctx().sign_of(f) == 0:
            # keep |f| positive by an abs atom
            return sabs(Sym(x.n)) / sabs(Sym(x.den()))
        d[f] = p
    a, inv = ctx().abs_atom(x.n)
    r = Sym(Poly.atom(a), None, x.isint) if inv is None else Sym(inv)
    den = Sym.of(1)
    for f, p in x.d.items():
        g = f if (p % 2 == 0 or ctx().sign_of(f) > 0) else -f
        den = _mul(Sym.of(den), Sym(g.pow(p)))
    if x.d:
        n, dd = r.n, {}
        for f, p in x.d.items():
            if p % 2 and ctx().sign_of(f) < 0:
                n = -n
            dd[f] = p
        return _mk(n, dd)
    return r


def ssqrt(x):
    x = Sym.of(x).simp()
    if not isinstance(x, Sym):
        return np.sqrt(x)
    n = x.n
    out_d = {}
    for f, p in x.d.items():
        s = ctx().sign_of(f)
        if s == 0:
            f2 = f
            if bool(Sym(f) > 0):
                s = 1
            else:
                s = -1
        if p % 2:
            n = n * f
            p += 1
        if s < 0 and (p // 2) % 2:
            # |f|^(p/2)
            out_d[f] = p // 2
            n = n  # sign fixed below
            out_d.setdefault("neg", 0)
            out_d["neg"] += 1
        else:
            out_d[f] = p // 2
    negs = out_d.pop("neg", 0)
    r = ctx().sqrt_poly(n)
    if isinstance(r, float):
        return r
    if negs % 2:
        r = Sym(-r.n)
    if out_d:
        return _mk(r.n, out_d)
    return r


def ufun(name, *args):
    vals = [Sym.of(a).simp() for a in args]
    if not any(isinstance(v, Sym) for v in vals):
        f = {"pow": np.power}.get(name) or getattr(np, name)
        return np.float64(f(*[float(v) for v in vals]))
    return ctx().uf_atom(name, [Sym.of(v) for v in vals])


def ite(c, a, b):
    """Value of a where c else b, without forking."""
    c = SymBool.of(c)
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return sor(sand(c, a), sand(snot(c), b))
    if isinstance(a, SymComplex) or isinstance(b, SymComplex):
        a, b = SymComplex.of(a), SymComplex.of(b)
        return SymComplex(ite(c, a.re, b.re), ite(c, a.im, b.im))
    for v in (a, b):
        if not is_sym(v) and not is_num(v):
            return a if bool(c) else b
        if isinstance(v, (float, np.floating)) and not math.isfinite(v):
            return a if bool(c) else b
    sa, sb = Sym.of(a), Sym.of(b)
    if sa.n == sb.n and sa.d == sb.d:
        return a
    if sa.is_const() and sb.is_const():
        return (sb + c.ind() * (sa - sb))
    return ctx().ite_atom(c, sa, sb)


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return b if (b < a or b != b) else a
    for x in (a, b):
        if isinstance(x, (float, np.floating)) and x != x:
            return x
    c = Sym.of(b) < a if isinstance(a, (Sym, SymBool)) or isinstance(b, (Sym, SymBool)) else b < a
    return ite(c, b, a)


def smax(a, b):
    if not is_sym(a) and not is_sym(b):
        return b if (b > a or b != b) else a
    for x in (a, b):
        if isinstance(x, (float, np.floating)) and x != x:
            return x
    return ite(Sym.of(b) > a, b, a)
