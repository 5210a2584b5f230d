"""Path exploration, solver queries, proof obligations and concrete replay."""
from fractions import Fraction
import math
import hashlib
import zlib
import random
import sys
import time
import traceback

import numpy as np
import os

import z3

SLOW = float(os.environ.get("VF_SLOW", "0"))

from . import poly as P
from . import sym as S
from .poly import Poly, TABLE, rat, TooBig, interval
from .sym import Sym, SymBool, SymComplex, Unsupported, PathEnd


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.feas_queries = 0
        self.obligations = 0
        self.discharged = 0
        self.refuted = 0
        self.unknown = 0
        self.z3_queries = 0
        self.z3_time = 0.0
        self.degraded = []
        self.inconclusive = []
        self.witness_runs = 0
        self.max_terms = 0
        self.cut = 0
        self.reached = {}
        self.samples = []
        self.functions = set()
        self.notes = []
        self.cover = {}

    def add(self, o):
        for k, v in o.__dict__.items():
            if k == "cover":
                continue
            if isinstance(v, (int, float)):
                if k == "max_terms":
                    setattr(self, k, max(getattr(self, k), v))
                else:
                    setattr(self, k, getattr(self, k) + v)
            elif isinstance(v, list):
                getattr(self, k).extend(v)
            elif isinstance(v, set):
                getattr(self, k).update(v)
            elif isinstance(v, dict):
                d = getattr(self, k)
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b


S_HALFPI = z3.RealVal("1.5707963267948968")


class Failure(Exception):
    """A property violation observed in a concrete run."""


def zval(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v) or z3.is_bv_value(v):
        return v.as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(25)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return 0


class BaseCtx:
    concrete = False

    def note_reach(self, label):
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1

    # ---- generic helpers working in both modes ----
    def cover(self, label, value):
        self.stats.cover.setdefault(label, set()).add(value)

    def name(self, base):
        k = self.counters.get(base, 0)
        self.counters[base] = k + 1
        return base if k == 0 else "%s#%d" % (base, k)

    def reals(self, name, shape, lo=None, hi=None, **k):
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = self.real("%s[%s]" % (name, ",".join(map(str, ix))), lo, hi, **k)
        return self.array(out)

    def choose(self, name, options):
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[i]

    def perm(self, name, n):
        """An arbitrary permutation of range(n)."""
        left = list(range(n))
        out = []
        for i in range(n):
            j = self.int("%s.%d" % (name, i), 0, len(left) - 1)
            out.append(left.pop(j))
        return out

    def prove_all_eq(self, a, b, label, **k):
        self.prove(self.all_eq(a, b, **k), label)

    def flat(self, a):
        if isinstance(a, np.ndarray):
            return list(np.asarray(a).view(np.ndarray).ravel()) if a.ndim else [a[()]]
        if isinstance(a, (list, tuple)):
            out = []
            for x in a:
                out.extend(self.flat(x))
            return out
        return [a]

    def all_eq(self, a, b, **k):
        fa, fb = self.flat(a), self.flat(b)
        if len(fa) != len(fb):
            return False
        r = True
        parts = [self.eq(x, y, **k) for x, y in zip(fa, fb)]
        return self.all(parts)

    def near(self, a, b, tol=1e-9):
        """Equality up to float rounding of the constants in the source."""
        if self.concrete or not (S.is_sym(a) or S.is_sym(b)):
            return self.eq(a, b)
        d = Sym.of(a) - b
        return S.sand(d <= tol, d >= -tol)

    def all(self, parts):
        return S.sand(*parts)

    def any(self, parts):
        return S.sor(*parts)

    def not_(self, a):
        return S.snot(a)

    def implies(self, a, b):
        return S.implies(a, b)


class SymCtx(BaseCtx):
    def __init__(self, prefix, stats, opts):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []
        self.pending = []
        self.stats = stats
        self.opts = opts
        self.pc = []        # list of (z3 cond, atoms)
        self.inputs = {}    # name -> ("real", Atom) | ("int", value)
        self.counters = {}
        self.failures = []  # (label, model inputs)
        self.cache = {}
        self.signs = {}
        self.abscache = {}
        self.sqrtcache = {}
        self.clos = {}
        self.extcache = {}
        self.ufcache = {}
        self.indcache = {}
        self.known = {}
        self.nonneg = set()
        self.deadline = opts.get("deadline")
        P.reset_table()

    # ---------------------------------------------------------------- input
    def array(self, obj):
        from . import arr
        return arr.wrap(obj)

    def real(self, name, lo=None, hi=None, strict=False, halfopen=False):
        name = self.name(name)
        a = TABLE.new("in:" + name, "input")
        self.inputs[name] = ("real", a, lo, hi)
        x = Sym(Poly.atom(a))
        a.lo = None if lo is None else rat(lo)
        a.hi = None if hi is None else rat(hi)
        if lo is not None:
            self.pc.append((a.z > lo if strict else a.z >= lo, frozenset([a.id])))
        if hi is not None:
            self.pc.append((a.z < hi if strict or halfopen else a.z <= hi, frozenset([a.id])))
        return x

    def int(self, name, lo, hi):
        name = self.name(name)
        if lo > hi:
            raise PathEnd()
        v = self.decide([("i", k) for k in range(lo, hi + 1)])[1]
        self.inputs[name] = ("int", v, lo, hi)
        return v

    def symint(self, name, lo, hi):
        """A symbolic integer that is not case-split until used as an index."""
        name = self.name(name)
        zi = z3.Int("in:" + name)
        a = TABLE.new("in:" + name, "input", z=z3.ToReal(zi))
        self.inputs[name] = ("symint", a, lo, hi)
        a.lo, a.hi = rat(lo), rat(hi)
        self.pc.append((z3.And(zi >= lo, zi <= hi), frozenset([a.id])))
        return Sym(Poly.atom(a), isint=True)

    def assume(self, cond):
        cond = SymBool.of(cond)
        if isinstance(cond, SymBool):
            self.pc.append((cond.z, cond.at))
            self.known[cond.z.get_id()] = (True, cond.z)
            self.signs = {k: v for k, v in self.signs.items() if v}
            if self.pos >= len(self.prefix):
                if self.check([], frozenset(cond.at))[0] == z3.unsat:
                    raise PathEnd()
        elif not cond:
            raise PathEnd()

    # ------------------------------------------------------------- decision
    def decide(self, options):
        """n-ary decision, exhaustively explored."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = options[0]
            for o in options[1:]:
                self.pending.append(self.trace + [o])
        self.pos += 1
        self.trace.append(d)
        return d

    def branch(self, b):
        zid = b.z.get_id()
        k = self.known.get(zid)
        if k is not None:
            return k[0]
        self.stats.decisions += 1
        if self.deadline and time.time() > self.deadline:
            raise TimeUp()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            val = d[1]
            self.pos += 1
            self.trace.append(d)
        else:
            rt = self.check([b.z], b.at)[0]
            if rt == z3.unsat:
                val = False
            else:
                rf = self.check([z3.Not(b.z)], b.at)[0]
                if rf == z3.unsat:
                    val = True
                else:
                    val = True
                    self.pending.append(self.trace + [("b", False)])
            self.pos += 1
            self.trace.append(("b", val))
        self.pc.append((b.z if val else z3.Not(b.z), b.at))
        self.known[zid] = (val, b.z)
        self.signs = {k: v for k, v in self.signs.items() if v}
        return val

    def concretise_int(self, s):
        s = Sym.of(s).simp()
        if not isinstance(s, Sym):
            return int(s)
        if self.pos < len(self.prefix):
            v = self.decide(None)[1]
        else:
            vals = []
            z = s.n.to_z3()
            at = s.atoms()
            extra = []
            while True:
                r, m = self.check(extra, at, model=True)
                if r != z3.sat:
                    if r == z3.unknown:
                        raise Unsupported("cannot enumerate an integer")
                    break
                v = zval(m.eval(z, model_completion=True))
                v = int(v)
                vals.append(v)
                extra.append(z != v)
                if len(vals) > self.opts.get("max_int_values", 200):
                    raise Unsupported("integer with too many values")
            if not vals:
                raise PathEnd()
            v = self.decide([("c", x) for x in sorted(vals)])[1]
        c = s == v
        if isinstance(c, SymBool):
            self.pc.append((c.z, c.at))
            self.known[c.z.get_id()] = (True, c.z)
        return v

    def floor_int(self, s):
        s = Sym.of(s).simp()
        if not isinstance(s, Sym):
            return math.floor(s)
        if s.isint:
            return self.concretise_int(s)
        if self.pos < len(self.prefix):
            v = self.decide(None)[1]
        else:
            vals = []
            at = s.atoms()
            extra = []
            while True:
                r, m = self.check(extra, at, model=True)
                if r != z3.sat:
                    if r == z3.unknown:
                        raise Unsupported("cannot enumerate floor()")
                    break
                num = zval(m.eval(s.n.to_z3(), model_completion=True))
                den = zval(m.eval(s.den().to_z3(), model_completion=True))
                v = math.floor(Fraction(num) / Fraction(den))
                if v in vals:
                    raise Unsupported("floor() enumeration is not converging")
                vals.append(v)
                for c in (S.sor(s < v, s >= v + 1),):
                    if isinstance(c, SymBool):
                        extra.append(c.z)
                    elif not c:
                        extra.append(z3.BoolVal(False))
                if len(vals) > self.opts.get("max_int_values", 200):
                    raise Unsupported("floor() with too many values")
            if not vals:
                raise PathEnd()
            v = self.decide([("f", x) for x in sorted(vals)])[1]
        c = S.sand(s >= v, s < v + 1)
        if isinstance(c, SymBool):
            self.pc.append((c.z, c.at))
        return v

    # ---------------------------------------------------------------- atoms
    def indicator(self, b):
        zid = b.z.get_id()
        k = self.known.get(zid)
        if k is not None:
            return Sym(Poly.const(1 if k[0] else 0), isint=True)
        if z3.is_not(b.z):
            inner = b.z.children()[0]
            ib = SymBool(inner, b.at)
            r = Sym.of(1) - self.indicator(ib)
            return Sym.of(r)
        a = self.indcache.get(zid)
        if a is None:
            a = TABLE.new(None, "ind", deps=b.at)
            a.defs = [z3.Or(z3.And(b.z, a.z == 1), z3.And(z3.Not(b.z), a.z == 0))]
            TABLE.squares[a.id] = Poly.atom(a)
            a.square = Poly.atom(a)
            a.info = b
            self.indcache[zid] = a
        return Sym(Poly.atom(a), isint=True)

    def ite_atom(self, c, sa, sb):
        a = TABLE.new(None, "ite", deps=set(c.at) | sa.atoms() | sb.atoms())

        def iseq(s):
            if not s.d:
                return a.z == s.n.to_z3()
            return a.z * s.den().to_z3() == s.n.to_z3()

        a.defs = [z3.Implies(c.z, iseq(sa)), z3.Implies(z3.Not(c.z), iseq(sb))]
        a.info = (c, sa, sb)
        return Sym(Poly.atom(a), isint=sa.isint and sb.isint)

    def is_nonneg(self, p):
        """Cheap exact certificates of non-negativity (sum of squares / known)."""
        if p.key() in self.nonneg:
            return True
        if p.is_const():
            return p.const_value() >= 0
        if all(c >= 0 and all(TABLE.atoms[i].kind in ("sqrt", "ind") for i in odd(m))
               for m, c in p.t.items()):
            return True
        return psd(p)

    def mark_nonneg(self, p):
        self.nonneg.add(p.key())

    def sign_of(self, f):
        """+1 / -1 when the (non-zero) denominator factor has that sign, else 0."""
        if f.is_const():
            return 1 if f.const_value() > 0 else -1
        k = f.key()
        if k in self.signs:
            return self.signs[k]
        if len(f.t) == 1:
            (m, c), = f.t.items()
            if all(TABLE.atoms[i].kind in ("sqrt", "ind") for i in m):
                return 1 if c > 0 else -1
        r = 0
        iv = interval(f)
        if iv and (iv[0] > 0 or iv[1] < 0):
            r = 1 if iv[0] > 0 else -1
        elif self.is_nonneg(f):
            r = 1
        elif self.is_nonneg(-f):
            r = -1
        else:
            z = f.to_z3()
            at = f.atoms()
            if self.check([z < 0], at)[0] == z3.unsat:
                r = 1
            elif self.check([z > 0], at)[0] == z3.unsat:
                r = -1
        self.signs[k] = r
        return r

    def abs_atom(self, n):
        if n.is_const():
            return None, Poly.const(abs(n.const_value()))
        if self.is_nonneg(n):
            return None, n
        if self.is_nonneg(-n):
            return None, -n
        c, f = (n.content(), n.scale(Fraction(1) / n.content()))
        k = f.key()
        a = self.abscache.get(k)
        if a is None:
            z = f.to_z3()
            at = f.atoms()
            free = len(f.t) > 1 and all(len(m) == 1 and TABLE.atoms[m[0]].kind == "kde" for m in f.t) and min(f.t.values()) < 0 < max(f.t.values())
            if not free and self.check([z < 0], at)[0] == z3.unsat:
                a = ("p", f)
            elif not free and self.check([z > 0], at)[0] == z3.unsat:
                a = ("p", -f)
            else:
                t = TABLE.new(None, "sqrt", deps=f.atoms())
                t.defs = [t.z >= 0, z3.Or(t.z == z, t.z == -z)]
                t.square = f * f
                TABLE.squares[t.id] = t.square
                t.info = ("abs", f)
                a = ("a", t)
            self.abscache[k] = a
        if a[0] == "p":
            return None, a[1].scale(abs(c))
        return None, Poly.atom(a[1]).scale(abs(c))

    def extremum(self, syms, mx):
        """max/min of several terms as one atom with its defining constraints."""
        d0 = syms[0].d
        if any(s.d != d0 for s in syms):
            return None
        flip = False
        for f, p in d0.items():
            if p % 2:
                sg = self.sign_of(f)
                if sg == 0:
                    return None
                flip ^= sg < 0
        polys = {}
        for s in syms:
            polys[s.n.key()] = s.n
        if len(polys) == 1:
            return Sym(syms[0].n, d0)
        m = mx != flip
        keep = {}
        for k, q in polys.items():
            dead = False
            for k2, o in list(keep.items()):
                iv = interval(q - o if m else o - q)
                if iv and iv[0] >= 0:
                    del keep[k2]
                elif iv and iv[1] <= 0:
                    dead = True
                    break
            if not dead:
                keep[k] = q
        polys = keep
        if len(polys) == 1:
            return Sym(next(iter(polys.values())), d0)
        key = (m, frozenset(polys))
        a = self.extcache.get(key)
        if a is None:
            deps = set()
            for q in polys.values():
                deps |= q.atoms()
            a = TABLE.new(None, "ite", deps=deps)
            zs = [q.to_z3() for q in polys.values()]
            a.defs = [(a.z >= z if m else a.z <= z) for z in zs] + [z3.Or(*[a.z == z for z in zs])]
            a.info = ("max" if m else "min", list(polys.values()))
            self.extcache[key] = a
        return Sym(Poly.atom(a), d0)

    def sqrt_poly(self, n):
        if n.is_const():
            v = n.const_value()
            if v < 0:
                return np.float64("nan")
            r = isqrt_frac(v)
            if r is not None:
                return Sym.of(r)
            c, prim = v, P.ONE
        else:
            if not self.is_nonneg(n):
                if bool(Sym(n) < 0):
                    return np.float64("nan")
                self.mark_nonneg(n)
            c = abs(n.content())
            prim = n.scale(Fraction(1) / c)
        # sqrt(c) = s * sqrt(f), f squarefree integer
        fr = Fraction(c)
        m = fr.numerator * fr.denominator
        s, f = sqfree(m)
        out = Sym.of(Fraction(s, fr.denominator))
        if f != 1:
            out = Sym.of(out * self.const_sqrt(f))
        if prim != P.ONE:
            sq = psquare(prim)
            if sq is not None:
                out = Sym.of(out * S.sabs(Sym(sq)))
                return Sym.of(out)
            k = prim.key()
            a = self.sqrtcache.get(k)
            if a is None:
                a = TABLE.new(None, "sqrt", deps=prim.atoms(), square=prim)
                a.defs = [a.z >= 0, a.z * a.z == prim.to_z3()]
                a.info = ("sqrt", prim)
                self.sqrtcache[k] = a
            out = Sym.of(out * Sym(Poly.atom(a)))
        return Sym.of(out)

    def const_sqrt(self, f):
        a = self.sqrtcache.get(f)
        if a is None:
            a = TABLE.new("sqrt(%d)" % f, "sqrt", square=Poly.const(f))
            a.defs = [a.z >= 0, a.z * a.z == f]
            a.info = ("const", f)
            self.sqrtcache[f] = a
        return Sym(Poly.atom(a))

    def const_atom(self, name, value, lo, hi):
        """An irrational constant enclosed by rational bounds (e.g. pi)."""
        a = TABLE.byname.get(name)
        if a is None:
            a = TABLE.new(name, "const", info=value)
            a.defs = [a.z > z3.RatVal(lo.numerator, lo.denominator),
                      a.z < z3.RatVal(hi.numerator, hi.denominator)]
        return Sym(Poly.atom(a))

    def def_atom(self, x):
        """A name for a large polynomial (equal polynomials share it); its definition is a fact."""
        if not isinstance(x, Sym) or x.d or len(x.n.t) < 60:
            return x
        k = x.n.key()
        a = self.__dict__.setdefault("defcache", {}).get(k)
        if a is None:
            a = self.defcache[k] = TABLE.new(None, "def", deps=x.n.atoms())
            a.defs = [a.z == x.n.to_z3()]
        return Sym(Poly.atom(a))

    def uf_atom(self, name, args):
        if name in ("sin", "cos") and not args[0].d:
            # periodic: constants are reduced and float rounding is removed from the argument
            t = {}
            for mo, co in args[0].n.t.items():
                v = float(co) % (2 * math.pi) if not mo else float(co)
                v = round(v, 11)
                if not mo and v >= round(2 * math.pi, 11):
                    v = 0.0
                if v:
                    t[mo] = S.rat(v)
            args = [Sym(Poly(t))]
        keys = (name,) + tuple((s.n.key(), frozenset((f.key(), p) for f, p in s.d.items()))
                               for s in args)
        a = self.ufcache.get(keys)
        if a is not None:
            return Sym(Poly.atom(a))
        if name == "log" and args[0].atoms():
            if bool(args[0] <= 0):
                return np.float64("nan") if bool(args[0] < 0) else np.float64("-inf")
        deps = set()
        for s in args:
            deps |= s.atoms()
        a = TABLE.new(None, "uf", deps=deps)
        a.info = (name, args)
        defs = []
        if name in ("exp",):
            defs.append(a.z > 0)
        if name in ("sin", "cos", "tanh"):
            defs += [a.z <= 1, a.z >= -1]
        if name in ("arcsin", "arctan"):
            defs += [a.z <= S_HALFPI, a.z >= -S_HALFPI]
        if name in ("sin", "cos", "arcsin"):
            a.defs = defs
            self.ufcache[keys] = a
            return Sym(Poly.atom(a))
        mono = name in ("exp", "log", "tanh") or name.startswith("mono_")
        for kk, b in list(self.ufcache.items()):
            if kk[0] != name:
                continue
            bargs = b.info[1]
            eqs = [x == y for x, y in zip(args, bargs)]
            if any(e is False or (isinstance(e, np.bool_) and not e) for e in eqs):
                pass
            else:
                e = S.sand(*eqs)
                ez = e.z if isinstance(e, SymBool) else z3.BoolVal(bool(e))
                defs.append(z3.Implies(ez, a.z == b.z))
                deps |= {b.id}
            if mono:
                lt, gt = args[0] < bargs[0], args[0] > bargs[0]
                tail = S.sand(True, *[x == y for x, y in zip(args[1:], bargs[1:])])
                for cnd, con in ((lt, a.z < b.z), (gt, a.z > b.z)):
                    cc = S.sand(cnd, tail)
                    cz = cc.z if isinstance(cc, SymBool) else z3.BoolVal(bool(cc))
                    defs.append(z3.Implies(cz, con))
                deps |= {b.id}
        a.defs = defs
        a.deps = frozenset(deps)
        self.ufcache[keys] = a
        return Sym(Poly.atom(a))

    def axiom(self, cond):
        """A contract of a stub: added to the path condition."""
        cond = SymBool.of(cond)
        if isinstance(cond, SymBool):
            self.pc.append((cond.z, cond.at))

    # --------------------------------------------------------------- solver
    def closure(self, at):
        k = self.clos.get(at)
        if k is None:
            seen, work = set(), list(at)
            while work:
                i = work.pop()
                if i not in seen:
                    seen.add(i)
                    work.extend(TABLE.atoms[i].deps)
            k = self.clos[at] = frozenset(seen)
        return k

    def cone(self, atoms, wide=False):
        """Definitions and path conditions connected to the atoms.

        narrow: connected through shared atoms; wide: also through what defined atoms stand for.
        Leaving conditions out is sound for unsat; a model is only believed for the wide cone."""
        atoms = set(atoms)
        done = set()
        conds = []
        used = [False] * len(self.pc)
        work = list(atoms)
        while True:
            while work:
                i = work.pop()
                if i in done:
                    continue
                done.add(i)
                a = TABLE.atoms[i]
                if a.kind == "def" and not wide:
                    continue
                conds.extend(a.defs)
                for j in a.deps:
                    if j not in done:
                        work.append(j)
            for q, (cz, at) in enumerate(self.pc):
                if not used[q] and (not at or (self.closure(at) if wide else at) & done):
                    used[q] = True
                    conds.append(cz)
                    work.extend(at - done)
            if not work:
                break
        return conds, done

    def solver_check(self, conds, timeout=None):
        timeout = timeout or self.opts.get("timeout", 20000)
        t0 = time.time()
        s = z3.SolverFor("QF_NRA") if self.opts.get("nlsat") else z3.Solver()
        s.set("timeout", int(timeout))
        s.add(*conds)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.z3_queries += 1
        m = s.model() if r == z3.sat else None
        if r == z3.unknown:
            try:
                s2 = z3.Then("simplify", "purify-arith", "solve-eqs", "qfnra-nlsat").solver()
                s2.set("timeout", int(timeout))
                s2.add(*conds)
                r = s2.check()
                m = s2.model() if r == z3.sat else None
            except z3.Z3Exception:
                r = z3.unknown
            self.stats.z3_queries += 1
        dt = time.time() - t0
        self.stats.z3_time += dt
        if SLOW and dt > SLOW:
            import traceback as tb
            fr = [f for f in tb.extract_stack() if "/vf/" not in f.filename][-1:]
            sys.__stdout__.write("SLOW %.1fs %s conds=%d at %s\n" % (dt, r, len(conds), [(f.filename[-30:], f.lineno) for f in fr]))
            if os.environ.get("VF_DUMP"):
                s3 = z3.Solver(); s3.add(*conds)
                open(os.environ["VF_DUMP"], "w").write(s3.to_smt2())
            sys.__stdout__.flush()
        return r, m

    def check(self, extra, atoms, model=False):
        conds, used = self.cone(atoms)
        conds = conds + list(extra)
        key = None
        if not model:
            key = frozenset(c.get_id() for c in conds)
            hit = self.cache.get(key)
            if hit is not None:
                return hit[0], None
        self.stats.feas_queries += 1
        r, m = self.solver_check(conds, self.opts.get("feas_timeout", 5000))
        if r != z3.unsat and not any(TABLE.atoms[i].kind == "def" for i in atoms | used):
            wide, _ = self.cone(atoms, True)
            if len(wide) + len(extra) > len(conds):
                r2, m2 = self.solver_check(wide + list(extra), self.opts.get("feas_timeout", 5000))
                r, m = r2, m2
        if key is not None:
            self.cache[key] = (r, conds)
        return r, m

    # ---------------------------------------------------------------- prove
    def eq(self, a, b, tol=None):
        a, b = unbox(a), unbox(b)
        if S.is_sym(a) or S.is_sym(b):
            if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
                return False
            if isinstance(a, SymComplex) or isinstance(b, SymComplex):
                a, b = SymComplex.of(a), SymComplex.of(b)
                return S.sand(self.eq(a.re, b.re), self.eq(a.im, b.im))
            r = (a if isinstance(a, (Sym, SymBool)) else Sym.of(a)) == b if is_fin(a) else False
            if isinstance(r, np.bool_) and bool(r) and isinstance(a, Sym) and isinstance(b, Sym):
                self.identity(a, b)
            return r
        return conc_eq(a, b, tol)

    def identity(self, a, b):
        """Equal normal forms: still put the question to the solver (cheap)."""
        if len(a.n.t) > 400 or len(b.n.t) > 400:
            return
        self._ident = getattr(self, "_ident", [])
        self._ident.append(a.n.to_z3() != b.n.to_z3() if a.d == b.d else None)

    def prove(self, cond, label):
        self.note_reach(label)
        self.stats.obligations += 1
        cond = SymBool.of(cond) if not isinstance(cond, (bool, np.bool_)) else bool(cond)
        ident = [z for z in getattr(self, "_ident", []) if z is not None]
        self._ident = []
        if not isinstance(cond, SymBool):
            if cond:
                if ident:
                    r, _ = self.solver_check([z3.Or(*ident)])
                self.stats.discharged += 1
                return
            conds, done = self.cone(set(a[1].id for a in self.inputs.values()
                                        if a[0] in ("real", "symint", "bv")), True)
            r, m = self.solver_check(conds)
            if r == z3.unsat:
                self.stats.discharged += 1
                raise PathEnd()
            self.fail(label, m)
            return
        neg = z3.Not(cond.z)
        # the definitions alone often suffice
        adef, seen, work = [], set(), list(cond.at)
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            adef.extend(TABLE.atoms[i].defs)
            work.extend(TABLE.atoms[i].deps)
        conds, done = self.cone(cond.at)
        r, m = self.solver_check(conds + [neg])
        if r != z3.unsat:
            wide, _ = self.cone(cond.at, True)
            if len(wide) > len(conds):
                conds = wide
                r, m = self.solver_check(conds + [neg])
        if r == z3.unknown and len(adef) < len(conds):
            r, m = self.solver_check(adef + [neg])
            if r == z3.sat:
                r = z3.unknown
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        if r == z3.sat:
            self.fail(label, m, neg)
            return
        self.stats.unknown += 1
        self.stats.inconclusive.append("%s: solver returned unknown" % label)
        self.fail(label, None, neg, unknown=True)

    def fail(self, label, m, neg=None, unknown=False):
        if not unknown:
            self.stats.refuted += 1
        self.failures.append((label, self.models_for(m, neg), unknown))
        # later obligations on this path are still examined

    def model_inputs(self, m):
        out = {}
        for name, ent in self.inputs.items():
            if ent[0] == "int":
                out[name] = ent[1]
            else:
                v = zval(m.eval(ent[1].z, model_completion=True)) if m is not None else None
                lo, hi = ent[2], ent[3]
                if v is None:
                    v = 0
                if m is not None and m.eval(ent[1].z) is not None and z3.is_const(m.eval(ent[1].z)) \
                        and not is_zvalue(m.eval(ent[1].z)):
                    # unconstrained by the model: stay inside the declared box
                    if lo is not None and v < lo or hi is not None and v > hi:
                        v = (Fraction(rat(lo)) + Fraction(rat(hi))) / 2 if (
                            lo is not None and hi is not None) else (lo if lo is not None else hi)
                out[name] = int(v) if ent[0] in ("symint", "bv") else v
        return out

    def models_for(self, m, neg, n=1):
        """Models of the whole path condition plus the negated claim."""
        ids = set(a[1].id for a in self.inputs.values() if a[0] in ("real", "symint", "bv"))
        conds, _ = self.cone(ids, True)
        if neg is not None:
            conds = conds + [neg]
        res = []
        r, m2 = self.solver_check(conds, self.opts.get("model_timeout", 10000))
        if r == z3.sat:
            res.append(self.model_inputs(m2))
        elif m is not None:
            res.append(self.model_inputs(m))
        return res

    def path_models(self, n=1, seed=0):
        """n models of the path condition, spread over the input boxes by soft targets."""
        ids = set(a[1].id for a in self.inputs.values() if a[0] in ("real", "symint", "bv"))
        conds, _ = self.cone(ids, True)
        res = []
        rnd = random.Random(seed)
        reals = [(nm, e) for nm, e in self.inputs.items() if e[0] in ("real", "symint")]
        for k in range(n):
            s = z3.Solver()
            s.set("timeout", 4000)
            s.add(*conds)
            t0 = time.time()
            self.stats.z3_queries += 1
            if s.check() != z3.sat:
                self.stats.z3_time += time.time() - t0
                break
            m = s.model()
            # pull inputs towards generic values, keeping whatever stays feasible
            order = list(reals)
            rnd.shuffle(order)
            if len(order) <= 60:
                tries = 0
                cand = []
                for nm, e in order:
                    lo, hi = e[2], e[3]
                    lo = -8 if lo is None else float(lo)
                    hi = 8 if hi is None else float(hi)
                    if e[0] == "symint":
                        continue
                    v = Fraction(rnd.randint(1, 999), 1000) * Fraction(rat(hi - lo)) + Fraction(rat(lo))
                    cand.append((e[1], v))
                # all at once, then halves
                groups = [cand]
                s.set("timeout", 400)
                while groups and tries < 24 and time.time() - t0 < 3:
                    g = groups.pop(0)
                    if not g:
                        continue
                    tries += 1
                    s.push()
                    s.add(*[a.z == z3.RatVal(v.numerator, v.denominator) for a, v in g])
                    if s.check() == z3.sat:
                        m = s.model()
                        # keep (no pop)
                    else:
                        s.pop()
                        if len(g) > 1:
                            h = len(g) // 2
                            groups += [g[:h], g[h:]]
            self.stats.z3_time += time.time() - t0
            res.append(self.model_inputs(m))
        return res


class TimeUp(BaseException):
    pass


def is_zvalue(v):
    return z3.is_rational_value(v) or z3.is_int_value(v) or z3.is_bv_value(v) or z3.is_algebraic_value(v)


def odd(m):
    out = []
    for i in set(m):
        if m.count(i) % 2:
            out.append(i)
    return out


def unbox(a):
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a.view(np.ndarray)[()]
    return a


def is_fin(a):
    return S.is_sym(a) or not isinstance(a, (float, np.floating)) or math.isfinite(a)


def conc_eq(a, b, tol=None):
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
        return a == b
    if isinstance(a, (complex, np.complexfloating)) or isinstance(b, (complex, np.complexfloating)):
        return conc_eq(a.real, b.real, tol) and conc_eq(a.imag, b.imag, tol)
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return bool(a == b)
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    tol = 1e-7 if tol is None else tol
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))


def isqrt_frac(v):
    v = Fraction(v)
    n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if n * n == v.numerator and d * d == v.denominator:
        return Fraction(n, d)
    return None


def sqfree(m):
    s, f = 1, m
    p = 2
    while p * p <= f and p < 2000:
        while f % (p * p) == 0:
            f //= p * p
            s *= p
        p += 1
    r = math.isqrt(f)
    if r * r == f:
        return s * r, 1
    return s, f


def psquare(p):
    """q with q*q == p when p is the square of a single term or a linear form."""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = isqrt_frac(c) if c > 0 else None
        if r is None or len(m) % 2:
            return None
        half = []
        for i in sorted(set(m)):
            k = m.count(i)
            if k % 2:
                return None
            half += [i] * (k // 2)
        return Poly({tuple(half): rat(r)})
    # linear form: find from the diagonal
    ats = sorted(p.atoms())
    if len(p.t) > (len(ats) + 1) * (len(ats) + 2) // 2 or any(len(m) > 2 for m in p.t):
        return None
    lin = {}
    piv = None
    for i in ats:
        c = p.t.get((i, i), 0)
        if c < 0:
            return None
        if c and piv is None:
            r = isqrt_frac(c)
            if r is None:
                return None
            piv = (i, r)
    if piv is None:
        return None
    i, r = piv
    lin[(i,)] = rat(r)
    for j in ats:
        if j == i:
            continue
        c = p.t.get((min(i, j), max(i, j)), 0)
        if c:
            lin[(j,)] = rat(Fraction(c) / (2 * r))
    c = p.t.get((i,), 0)
    if c:
        lin[()] = rat(Fraction(c) / (2 * r))
    q = Poly(lin)
    return q if q * q == p else None


_PSD = {}


def psd_forms(p):
    """Linear forms l_i (and a constant >= 0) with p = const + sum d_i * l_i^2, d_i > 0,
    for a quadratic polynomial that is a sum of squares; None otherwise (exact LDL^T)."""
    k = p.key()
    if k in _PSD:
        return _PSD[k]
    if len(_PSD) > 5000:
        _PSD.clear()
    r = _PSD[k] = _psd_forms(p)
    return r


def _psd_forms(p):
    if not p.t or any(len(m) > 2 for m in p.t):
        return None
    ats = sorted(p.atoms())
    n = len(ats) + 1
    if n > 60:
        return None
    pos = {a: i + 1 for i, a in enumerate(ats)}
    A = {}

    def add(i, j, c):
        A.setdefault(i, {})
        A[i][j] = A[i].get(j, 0) + c
    for i in range(n):
        A[i] = {}
    for m, c in p.t.items():
        ix = [pos[i] for i in m]
        c = Fraction(c)
        if len(ix) == 0:
            add(0, 0, c)
        elif len(ix) == 1:
            add(0, ix[0], c / 2)
            add(ix[0], 0, c / 2)
        elif ix[0] == ix[1]:
            add(ix[0], ix[0], c)
        else:
            add(ix[0], ix[1], c / 2)
            add(ix[1], ix[0], c / 2)
    if any(A[i].get(i, 0) <= 0 for i in range(1, n)):
        return None
    left = list(range(1, n)) + [0]
    forms = []
    while left:
        k = next((i for i in left if i and A[i].get(i, 0) != 0), None)
        if k is None:
            break
        d = A[k][k]
        if d < 0:
            return None
        row = {j: v / d for j, v in A[k].items() if v}
        forms.append(Poly({((ats[j - 1],) if j else ()): rat(v) for j, v in row.items()}))
        left.remove(k)
        rl = [i for i in left if A[i].get(k)]
        for i in rl:
            f = A[i][k] / d
            for j in row:
                if j in left:
                    A[i][j] = A[i].get(j, 0) - f * A[k][j]
        for i in left:
            A[i].pop(k, None)
    for i in left:
        for j in left:
            if (i or j) and A[i].get(j, 0) != 0:
                return None
    c0 = A[0].get(0, Fraction(0))
    if c0 < 0:
        return None
    return forms, c0


def psd(p):
    return psd_forms(p) is not None


class ConcCtx(BaseCtx):
    """The same harness on concrete values against the real numpy code."""
    concrete = True

    def __init__(self, inputs, stats, opts):
        self.given = inputs
        self.inputs = {}
        self.counters = {}
        self.stats = stats
        self.opts = opts
        self.failures = []
        self.proved = 0

    def array(self, obj):
        flat = [x for x in np.asarray(obj, dtype=object).ravel()]
        return np.array(flat).reshape(np.shape(obj)) if flat else np.zeros(np.shape(obj))

    def real(self, name, lo=None, hi=None, strict=False, halfopen=False):
        name = self.name(name)
        v = self.given.get(name)
        if hasattr(self.given, "pick_real"):
            v = self.given.pick_real(lo, hi)
        if v is None:
            if lo is not None and hi is not None:
                v = (float(lo) + float(hi)) / 2
            elif lo is not None:
                v = float(lo) + 1
            elif hi is not None:
                v = float(hi) - 1
            else:
                v = 0.5
        self.inputs[name] = v
        return np.float64(v)

    def int(self, name, lo, hi):
        name = self.name(name)
        v = self.given.get(name, lo)
        if lo > hi:
            raise PathEnd()
        if hasattr(self.given, "pick_int"):
            v = self.given.pick_int(lo, hi)
        v = min(max(int(v), lo), hi)
        self.inputs[name] = v
        return v

    def symint(self, name, lo, hi):
        return self.int(name, lo, hi)

    def assume(self, cond):
        if not bool(cond):
            raise PathEnd()

    def axiom(self, cond):
        pass

    def eq(self, a, b, tol=None):
        return conc_eq(unbox(a), unbox(b), tol or self.opts.get("tol"))

    def prove(self, cond, label):
        self.proved += 1
        if not bool(cond):
            self.failures.append((label, None))

    def branch(self, b):
        return bool(b)


# ------------------------------------------------------- shared context services
def _bump(self, k):
    d = self.__dict__.setdefault("_bumps", {})
    d[k] = d.get(k, 0) + 1
    return d[k]


def _memo_real(self, nm, lo=None, hi=None):
    d = self.__dict__.setdefault("_memo", {})
    if nm not in d and self.opts.get("rng_real_const"):
        d[nm] = np.float64((lo or 0) + ((hi if hi is not None else 1) - (lo or 0)) * int.from_bytes(hashlib.md5(nm.encode()).digest()[:6], "big") / 2**48)
    if nm not in d:
        d[nm] = self.real(nm, lo, hi, **({"halfopen": True} if (lo, hi) == (0, 1) else {}))
    return d[nm]


def _memo_int(self, nm, lo, hi):
    d = self.__dict__.setdefault("_memo", {})
    k = (nm, lo, hi)
    self.__dict__.setdefault("draws", {})[nm] = (lo, hi)
    if self.opts.get("rng_const"):
        return lo
    if self.opts.get("rng_hash"):
        return lo + zlib.crc32(nm.encode()) % (hi - lo + 1)
    if k not in d:
        vary = self.__dict__.get("rng_vary")
        if vary is not None and len(self.draws) > vary:
            d[k] = lo + len(self.draws) % (hi - lo + 1)
            return d[k]
        d[k] = self.int(nm, lo, hi)
    return d[k]


def _memo_symint(self, nm, lo, hi):
    d = self.__dict__.setdefault("_memo", {})
    if (nm, lo, hi) not in d:
        d[nm, lo, hi] = self.symint(nm, lo, hi)
    return d[nm, lo, hi]


def _fresh_real(self, nm, lo=None, hi=None):
    return self.real(nm, lo, hi)


def _completion_order(self, n):
    if self.opts.get("pool_order") and 1 < n <= 4:
        return self.perm("pool_order", n)
    return list(range(n))


def _cpu_count(self):
    return self.int("cpus", 1, 3) if self.opts.get("cpus") else 2


def _hook_discrepancy(self, s, method):
    """Discrepancy of a point set: an uninterpreted function of (method, points)."""
    a = [Sym.of(v) for v in s.ravel()]
    u = Sym.of(self.uf_atom("disc_%s_%d" % (method, s.shape[1]), a))
    self.axiom(u > 0)
    return u


BaseCtx.bump = _bump
BaseCtx.int_texts = property(lambda self: self.__dict__.setdefault("_int_texts", {}))
BaseCtx.texts = property(lambda self: self.__dict__.setdefault("_texts", {}))
BaseCtx.memo_real = _memo_real
BaseCtx.memo_int = _memo_int


def _drawn_ints(self):
    """Every integer draw so far, in order."""
    m = self.__dict__.get("_memo", {})
    if self.opts.get("rng_const"):
        return [lo for lo, hi in self.__dict__.get("draws", {}).values()]
    if self.opts.get("rng_hash"):
        return [lo + zlib.crc32(k.encode()) % (hi - lo + 1) for k, (lo, hi) in self.__dict__.get("draws", {}).items()]
    return [int(m[(k, lo, hi)]) for k, (lo, hi) in self.__dict__.get("draws", {}).items()]


def _drawn_reals(self):
    return [v for k, v in self.__dict__.get("_memo", {}).items() if isinstance(k, str)]


BaseCtx.drawn_ints = _drawn_ints
BaseCtx.drawn_reals = _drawn_reals
BaseCtx.memo_symint = _memo_symint
BaseCtx.fresh_real = _fresh_real
BaseCtx.completion_order = _completion_order
BaseCtx.cpu_count = _cpu_count
BaseCtx.hook_discrepancy = _hook_discrepancy
BaseCtx.np = property(lambda self: self.w.np)


def _w_obj(self, nested):
    sh = np.shape(np.empty((len(nested), len(nested[0])), dtype=object)) if nested and isinstance(nested[0], (list, tuple)) else (len(nested),)
    o = np.empty(sh, dtype=object)
    for i, r in enumerate(nested):
        if len(sh) == 2:
            for j, v in enumerate(r):
                o[i, j] = v if S.is_sym(v) else np.float64(v)
        else:
            o[i] = r if S.is_sym(r) else np.float64(r)
    return o


BaseCtx.w_obj = _w_obj
