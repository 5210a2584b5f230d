"""Bit-vector values: Python ints that stay below 2**W, decided by the solver."""
import z3

from . import sym as S
from .poly import TABLE
from .sym import SymBool, ctx

W = 48


def lift(x):
    if isinstance(x, BV):
        return x
    if isinstance(x, Fix):
        raise TypeError("fixed point")
    return BV(z3.BitVecVal(int(x), W), frozenset())


def _bin(f):
    def op(self, o):
        if not isinstance(o, (BV, int)) and not hasattr(o, "__index__"):
            return NotImplemented
        o = lift(o)
        return BV(z3.simplify(f(self.z, o.z)), self.at | o.at)
    return op


def _rbin(f):
    def op(self, o):
        o = lift(o)
        return BV(z3.simplify(f(o.z, self.z)), self.at | o.at)
    return op


def _cmp(f):
    def op(self, o):
        o = lift(o)
        z = z3.simplify(f(self.z, o.z))
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return SymBool(z, self.at | o.at)
    return op


class BV:
    symlike = True
    """Non-negative integer; all results are kept below 2**W by the harness bounds."""
    def __init__(self, z, at):
        self.z = z
        self.at = frozenset(at)

    __and__ = _bin(lambda a, b: a & b)
    __rand__ = _rbin(lambda a, b: a & b)
    __or__ = _bin(lambda a, b: a | b)
    __ror__ = _rbin(lambda a, b: a | b)
    __xor__ = _bin(lambda a, b: a ^ b)
    __rxor__ = _rbin(lambda a, b: a ^ b)
    __lshift__ = _bin(lambda a, b: a << b)
    __rlshift__ = _rbin(lambda a, b: a << b)
    __rshift__ = _bin(lambda a, b: z3.LShR(a, b))
    __rrshift__ = _rbin(lambda a, b: z3.LShR(a, b))
    __mul__ = _bin(lambda a, b: a * b)
    __rmul__ = _rbin(lambda a, b: a * b)
    __add__ = _bin(lambda a, b: a + b)
    __radd__ = _rbin(lambda a, b: a + b)
    __sub__ = _bin(lambda a, b: a - b)
    __mod__ = _bin(lambda a, b: z3.URem(a, b))
    __floordiv__ = _bin(lambda a, b: z3.UDiv(a, b))
    __eq__ = _cmp(lambda a, b: a == b)
    __ne__ = _cmp(lambda a, b: a != b)
    __lt__ = _cmp(lambda a, b: z3.ULT(a, b))
    __le__ = _cmp(lambda a, b: z3.ULE(a, b))
    __gt__ = _cmp(lambda a, b: z3.UGT(a, b))
    __ge__ = _cmp(lambda a, b: z3.UGE(a, b))

    def __hash__(self):
        return id(self)

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __truediv__(self, o):
        return Fix(self, float(o))

    def __index__(self):
        z = z3.simplify(self.z)
        if z3.is_bv_value(z):
            return z.as_long()
        raise S.Unsupported("symbolic bit-vector used as an index")

    __int__ = __index__

    def item(self):
        return self


class Fix:
    symlike = True
    """bit-vector / 2**k as it would be a float (exact: k <= 52 bits)."""
    def __init__(self, bv, den):
        self.bv = bv
        self.den = den

    def is_sym_fixed(self):
        return True

    def __mul__(self, o):
        if isinstance(o, (int, float)) and float(o) == self.den:
            return self.bv
        return NotImplemented
    __rmul__ = __mul__


def new(c, name, hi):
    """A symbolic integer in 0..hi (concrete mode: an int)."""
    if c.concrete:
        v = int(c.given.get(name, hi))
        c.inputs[name] = v
        return min(max(v, 0), hi)
    a = TABLE.new("in:" + name, "input", z=z3.BitVec("in:" + name, W))
    c.inputs[name] = ("bv", a, 0, hi)
    c.pc.append((z3.ULE(a.z, hi), frozenset([a.id])))
    return BV(a.z, frozenset([a.id]))
