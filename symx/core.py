"""Core of the symbolic executor: symbolic scalars, path exploration, solver.

The code under test is ordinary Python.  It is executed with proxy objects
(SymInt, SymBool, SymReal) in place of concrete numbers; every truth test on a
symbolic condition is a decision of the current path.  Paths are explored
depth first by re-execution; z3 decides which sides of a decision are
feasible, and whether an assertion holds for every value on the path.
"""
import math
import sys
import time

import numpy as _np
import z3

CTX = None  # the active Ctx (one per process at a time)


from .core_shared import Budget, PathAbort, Unsupported, Violated

# --------------------------------------------------------------------------
# polynomial normal form for integers


def _pkey(p):
    return tuple(sorted(p.items()))


def _padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def _pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def _pconst(p):
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymReal))


def _isint(x):
    import numpy

    return isinstance(x, (int, numpy.integer)) and not isinstance(x, numpy.bool_)


def _elementwise(fn, arr):
    import numpy

    out = numpy.empty(arr.shape, dtype=object)
    flat = out.reshape(-1)
    for i, v in enumerate(arr.reshape(-1)):
        flat[i] = fn(v.item() if isinstance(v, numpy.generic) else v)
    res = flat.reshape(arr.shape)
    return res.view(type(arr)) if type(arr) is not numpy.ndarray else res


def _ndarray(x):
    import numpy

    return isinstance(x, numpy.ndarray)


class SymInt:
    __slots__ = ("p", "_z", "_k")
    __array_ufunc__ = None

    def __init__(self, p):
        self.p = p
        self._z = None
        self._k = None

    # -- plumbing
    @property
    def key(self):
        if self._k is None:
            self._k = _pkey(self.p)
        return self._k

    @property
    def z(self):
        if self._z is None:
            terms = []
            for m, c in sorted(self.p.items()):
                t = None
                for a in m:
                    az = CTX.atoms[a]
                    t = az if t is None else t * az
                if t is None:
                    terms.append(z3.IntVal(c))
                elif c == 1:
                    terms.append(t)
                else:
                    terms.append(c * t)
            if not terms:
                self._z = z3.IntVal(0)
            elif len(terms) == 1:
                self._z = terms[0]
            else:
                self._z = z3.Sum(terms)
        return self._z

    def bounds(self):
        lo = hi = 0
        for m, c in self.p.items():
            mlo, mhi = 1, 1
            for a in m:
                alo, ahi = CTX.abounds[a]
                if alo is None or ahi is None:
                    if alo is not None and alo >= 0 and mlo is not None and mlo >= 0:
                        mlo, mhi = mlo * alo, None
                        continue
                    mlo = mhi = None
                    break
                if mhi is None:
                    if alo < 0:
                        mlo = mhi = None
                        break
                    mlo = mlo * alo
                    continue
                vals = [mlo * alo, mlo * ahi, mhi * alo, mhi * ahi]
                mlo, mhi = min(vals), max(vals)
            if c < 0:
                mlo, mhi = mhi, mlo
            lo = None if (lo is None or mlo is None) else lo + c * mlo
            hi = None if (hi is None or mhi is None) else hi + c * mhi
        return lo, hi

    @staticmethod
    def of(x):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return ite(x, 1, 0)
        if isinstance(x, bool):
            return SymInt({(): 1}) if x else SymInt({})
        if _isint(x):
            x = int(x)
            return SymInt({(): x} if x else {})
        return None

    @staticmethod
    def mk(p):
        c = _pconst(p)
        return c if c is not None else SymInt(p)

    # -- arithmetic
    def __add__(self, o):
        if _ndarray(o):
            return _elementwise(lambda v: self + v, o)
        q = SymInt.of(o)
        if q is None:
            return self._float_op(o, lambda a, b: a + b)
        return SymInt.mk(_padd(self.p, q.p))

    __radd__ = __add__

    def __sub__(self, o):
        if _ndarray(o):
            return _elementwise(lambda v: self - v, o)
        q = SymInt.of(o)
        if q is None:
            return self._float_op(o, lambda a, b: a - b)
        return SymInt.mk(_padd(self.p, q.p, -1))

    def __rsub__(self, o):
        if _ndarray(o):
            return _elementwise(lambda v: v - self, o)
        q = SymInt.of(o)
        if q is None:
            return self._float_op(o, lambda a, b: b - a)
        return SymInt.mk(_padd(q.p, self.p, -1))

    def __mul__(self, o):
        if isinstance(o, (tuple, list, str)):
            return o * CTX.concretize(self)
        if _ndarray(o):
            return _elementwise(lambda v: self * v, o)
        q = SymInt.of(o)
        if q is None:
            return self._float_op(o, lambda a, b: a * b)
        return SymInt.mk(_pmul(self.p, q.p))

    __rmul__ = __mul__

    def _float_op(self, o, f):
        if isinstance(o, SymReal):
            return NotImplemented
        if isinstance(o, float):
            return f(CTX.concretize(self), o)
        return NotImplemented

    def __neg__(self):
        return SymInt.mk(_pscale(self.p, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __pow__(self, n):
        if _isint(n) and n >= 0:
            r = 1
            for _ in range(n):
                r = r * self
            return r
        return CTX.concretize(self) ** n

    def __invert__(self):
        return -self - 1

    def __floordiv__(self, o):
        if _ndarray(o):
            return _elementwise(lambda v: self // v, o)
        q = SymInt.of(o)
        if q is None:
            return self._float_op(o, lambda a, b: a // b)
        return _divmod(self, q)[0]

    def __rfloordiv__(self, o):
        if _ndarray(o):
            return _elementwise(lambda v: v // self, o)
        q = SymInt.of(o)
        if q is None:
            return self._float_op(o, lambda a, b: b // a)
        return _divmod(q, self)[0]

    def __mod__(self, o):
        if _ndarray(o):
            return _elementwise(lambda v: self % v, o)
        q = SymInt.of(o)
        if q is None:
            return self._float_op(o, lambda a, b: a % b)
        return _divmod(self, q)[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % str(self)
        if _ndarray(o):
            return _elementwise(lambda v: v % self, o)
        q = SymInt.of(o)
        if q is None:
            return self._float_op(o, lambda a, b: b % a)
        return _divmod(q, self)[1]

    def __divmod__(self, o):
        return _divmod(self, SymInt.of(o))

    def __rdivmod__(self, o):
        return _divmod(SymInt.of(o), self)

    def __truediv__(self, o):
        if _ndarray(o):
            return _elementwise(lambda v: self / v, o)
        if isinstance(o, SymReal):
            return NotImplemented
        a = CTX.concretize(self)
        b = CTX.concretize(o) if isinstance(o, SymInt) else o
        return a / b

    def __rtruediv__(self, o):
        if _ndarray(o):
            return _elementwise(lambda v: v / self, o)
        return o / CTX.concretize(self)

    # -- comparisons
    def _cmp(self, o, op):
        if _ndarray(o):
            return _elementwise(lambda v: self._cmp(v, op), o)
        if isinstance(o, SymReal):
            return NotImplemented
        q = SymInt.of(o)
        if q is None:
            if isinstance(o, float):
                if math.isinf(o) or math.isnan(o):
                    return _CMPF[op](0.0, o)
                if o == int(o):
                    q = SymInt.of(int(o))
                else:
                    return _CMPF[op](CTX.concretize(self), o)
            else:
                return NotImplemented
        d = _padd(self.p, q.p, -1)
        return _mkcmp(d, op)

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if self.key in CTX.remainders:  # the key of a small table: one path for each value
            return hash(CTX.concretize(self))
        return 771

    def __index__(self):
        return CTX.concretize(self)

    def __int__(self):
        return CTX.concretize(self)

    def __float__(self):
        return float(CTX.concretize(self))

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<{self.z}>"

    def __str__(self):
        return format(self, "")

    def __format__(self, spec):
        if CTX is not None and getattr(CTX, "format_values", False):
            return format(CTX.concretize(self), spec)
        return repr(self)

    # small parts of the numpy scalar interface
    def item(self):
        return self

    @property
    def real(self):
        return self

    def is_integer(self):
        return True


_CMPF = {
    "==": lambda a, b: a == b,
    "!=": lambda a, b: a != b,
    "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b,
}


def _mkcmp(d, op):
    """Comparison  d op 0  for a polynomial d, normalised to >=0 or ==0."""
    c = _pconst(d)
    if c is not None:
        return _CMPF[op](c, 0)
    if op in ("==", "!="):
        g = 0
        for m, k in d.items():
            if m != ():
                g = math.gcd(g, k)
        c0 = d.get((), 0)
        if g > 1:
            if c0 % g:
                return op == "!="
            d = {m: k // g for m, k in d.items()}
        lead = min(m for m in d if m != ())
        if d[lead] < 0:
            d = _pscale(d, -1)
        lo, hi = SymInt(d).bounds()
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return op == "!="
        b = SymBool("eq", d)
        return b if op == "==" else ~b
    if op == "<":  # d<0  <=> -d-1>=0
        return _mkge(_padd(_pscale(d, -1), {(): 1}, -1))
    if op == "<=":
        return _mkge(_pscale(d, -1))
    if op == ">":
        return _mkge(_padd(d, {(): 1}, -1))
    return _mkge(d)


def _mkge(d):
    c = _pconst(d)
    if c is not None:
        return c >= 0
    g = 0
    for m, k in d.items():
        if m != ():
            g = math.gcd(g, k)
    if g > 1:
        c0 = d.get((), 0)
        d = {m: k // g for m, k in d.items() if m != ()}
        c1 = c0 // g
        if c1:
            d[()] = c1
    lo, hi = SymInt(d).bounds()
    if lo is not None and lo >= 0:
        return True
    if hi is not None and hi < 0:
        return False
    lead = min(m for m in d if m != ())
    if d[lead] < 0:
        # d >= 0  <=>  not (-d-1 >= 0)
        nd = _padd(_pscale(d, -1), {(): 1}, -1)
        return ~SymBool("ge", nd)
    return SymBool("ge", d)


def _divide_part(a, d):
    """Split polynomial a = d*q + r with q taking what divides exactly."""
    dc = _pconst(d)
    q, r = {}, {}
    if dc is not None:
        for m, c in a.items():
            k = c // dc if m != () else 0
            if m == ():
                k = c // dc
            if k:
                q[m] = k
            rest = c - k * dc
            if rest:
                r[m] = rest
        return q, r
    if len(d) == 1:
        (dm, dk), = d.items()
        for m, c in a.items():
            mm = list(m)
            ok = c % dk == 0
            if ok:
                for x in dm:
                    if x in mm:
                        mm.remove(x)
                    else:
                        ok = False
                        break
            if ok:
                q[tuple(mm)] = c // dk
            else:
                r[m] = c
        return q, r
    # general divisor: try exact quotient through one leading monomial
    lead = max(d, key=lambda m: (len(m), m))
    q, r = {}, dict(a)
    for _ in range(8):
        cand = None
        for m in r:
            mm = list(m)
            ok = r[m] % d[lead] == 0
            for x in lead:
                if x in mm:
                    mm.remove(x)
                else:
                    ok = False
                    break
            if ok:
                cand = (tuple(mm), r[m] // d[lead])
                break
        if cand is None:
            break
        q = _padd(q, {cand[0]: cand[1]})
        r = _padd(r, _pmul(d, {cand[0]: cand[1]}), -1)
    if r:
        return {}, dict(a)
    return q, r


class SymNpInt(SymInt):
    """A symbolic numpy integer: an integer, but not an instance of int."""

    __slots__ = ()
    dtype = _np.dtype("int64")
    shape, ndim, size = (), 0, 1

    def item(self):
        return SymInt(self.p)


def _divmod(a, b):
    bc = _pconst(b.p)
    ac = _pconst(a.p)
    if bc == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if bc is not None and ac is not None:
        return ac // bc, ac % bc
    if bc is not None and bc < 0:
        q, r = _divmod(-a, SymInt.of(-bc))
        return q, -r
    if bc is None and bool(b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    q, r = _divide_part(a.p, b.p)
    qs, rs = SymInt.mk(q), SymInt.mk(r)
    if bc is None:
        CTX.confirm_division(a, b, q, r)
    if _pconst(r) == 0:
        return qs, 0
    rI = SymInt.of(rs)
    pos = bc > 0 if bc is not None else bool(b > 0)
    if not pos:
        raise Unsupported("division by a negative symbolic integer")
    if CTX.entailed((rI >= 0)) and CTX.entailed(rI < b):
        return qs, rs
    t = CTX.div_atom(rI, b)
    rem = rI - b * t
    if bc is not None and bc <= 8 and isinstance(rem, SymInt):
        CTX.remainders.add(rem.key)
    return qs + t, rem


class SymBool:
    """Symbolic truth value.  kind in eq/ge (polynomial), z (z3 expression)."""

    __slots__ = ("kind", "d", "neg", "_z", "_k")
    __array_ufunc__ = None

    def __init__(self, kind, d, neg=False):
        self.kind = kind
        self.d = d
        self.neg = neg
        self._z = None
        self._k = None

    @property
    def key(self):
        """(positive key, negated?)"""
        if self._k is None:
            if self.kind == "z":
                self._k = ("z", self.d.get_id())
            else:
                self._k = (self.kind, _pkey(self.d))
        return self._k

    @property
    def pz(self):
        if self._z is None:
            if self.kind == "z":
                self._z = self.d
            elif self.kind == "eq":
                self._z = SymInt(self.d).z == 0
            else:
                self._z = SymInt(self.d).z >= 0
        return self._z

    @property
    def z(self):
        return z3.Not(self.pz) if self.neg else self.pz

    def __invert__(self):
        r = SymBool(self.kind, self.d, not self.neg)
        r._z, r._k = self._z, self._k
        return r

    def __bool__(self):
        return CTX.decide(self)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool("z", z3.Xor(zb(self), zb(o)))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool("z", zb(self) == zb(o))
        if _isint(o):
            return SymInt.of(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return 772

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __add__(self, o):
        return SymInt.of(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SymInt.of(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return SymInt.of(self) - o

    def __rsub__(self, o):
        return o - SymInt.of(self)

    def __repr__(self):
        return f"<{self.z}>"

    def __deepcopy__(self, memo):
        return self


def zb(x):
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def wrapb(z):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool("z", z)


def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, SymBool):
            ys.append(x)
        elif not x:
            return False
    if not ys:
        return True
    if len(ys) == 1:
        return ys[0]
    return SymBool("z", z3.And([y.z for y in ys]))


def Or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, SymBool):
            ys.append(x)
        elif x:
            return True
    if not ys:
        return False
    if len(ys) == 1:
        return ys[0]
    return SymBool("z", z3.Or([y.z for y in ys]))


def Not(x):
    return ~x if isinstance(x, SymBool) else not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if not isinstance(a, SymBool) and not isinstance(b, SymBool):
        return bool(a) == bool(b)
    return SymBool("z", zb(a) == zb(b))


def ite(c, a, b):
    """Value selection without forking (integers or reals)."""
    if not isinstance(c, SymBool):
        return a if c else b
    if CTX is not None:
        k = CTX.known_value(c)
        if k is not None:
            return a if k else b
    if isinstance(a, SymReal) or isinstance(b, SymReal) or isinstance(a, float):
        a, b = SymReal.of(a), SymReal.of(b)
        if a.z.eq(b.z):
            return a
        return SymReal(z3.If(c.z, a.z, b.z))
    ai, bi = SymInt.of(a), SymInt.of(b)
    if ai is None or bi is None:
        raise Unsupported("ite over unsupported values")
    if ai.key == bi.key:
        return a
    la, ha = ai.bounds()
    lb, hb = bi.bounds()
    lo = min(la, lb) if la is not None and lb is not None else None
    hi = max(ha, hb) if ha is not None and hb is not None else None
    return CTX.atom(z3.If(c.z, ai.z, bi.z), lo, hi, key=("ite", c.z.get_id(), ai.key, bi.key))


class SymReal:
    __slots__ = ("z",)
    __array_ufunc__ = None

    def __init__(self, z):
        self.z = z

    @staticmethod
    def of(x):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymInt):
            return SymReal(z3.ToReal(x.z))
        if isinstance(x, SymBool):
            return SymReal(z3.If(x.z, z3.RealVal(1), z3.RealVal(0)))
        import numpy

        if isinstance(x, numpy.generic):
            x = x.item()
        if isinstance(x, (bool, int)):
            return SymReal(z3.RealVal(int(x)))
        if isinstance(x, float):
            from fractions import Fraction

            f = Fraction(x)
            return SymReal(z3.RealVal(f"{f.numerator}/{f.denominator}"))
        return None

    def _b(self, o, f):
        q = SymReal.of(o)
        if q is None:
            return NotImplemented
        return f(self.z, q.z)

    def __add__(self, o):
        r = self._b(o, lambda a, b: a + b)
        return r if r is NotImplemented else SymReal(r)

    __radd__ = __add__

    def __sub__(self, o):
        r = self._b(o, lambda a, b: a - b)
        return r if r is NotImplemented else SymReal(r)

    def __rsub__(self, o):
        r = self._b(o, lambda a, b: b - a)
        return r if r is NotImplemented else SymReal(r)

    def __mul__(self, o):
        r = self._b(o, lambda a, b: a * b)
        return r if r is NotImplemented else SymReal(r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        q = SymReal.of(o)
        if q is None:
            return NotImplemented
        if bool(q == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(self.z / q.z)

    def __rtruediv__(self, o):
        q = SymReal.of(o)
        if q is None:
            return NotImplemented
        return q / self

    def __neg__(self):
        return SymReal(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.z >= 0, self.z, -self.z))

    def _c(self, o, f):
        if isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
            raise Unsupported("comparison with inf/nan")
        q = SymReal.of(o)
        if q is None:
            return NotImplemented
        return wrapb(z3.simplify(f(self.z, q.z)))

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __hash__(self):
        return 773

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic real")

    def __int__(self):
        raise Unsupported("int() of a symbolic real")

    def __repr__(self):
        return f"<{self.z}>"

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self


# --------------------------------------------------------------------------


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.forks = 0
        self.queries = 0
        self.branch_queries = 0
        self.structural = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.branch_unknown = 0
        self.solver_s = 0.0
        self.labels = {}
        self.concretized = 0

    def as_dict(self):
        d = dict(self.__dict__)
        d["solver_s"] = round(self.solver_s, 3)
        return d


class Ctx:
    """State of one path of the symbolic execution."""

    symbolic = True

    def __init__(self, prefix, stats, deadline, query_timeout=60000, branch_timeout=8000):
        self.prefix = prefix
        self.trace = []  # (outcome, alternative feasible?)
        self.stats = stats
        self.deadline = deadline
        self.solver = z3.SolverFor("QF_UFNIRA") if False else z3.Solver()
        self.query_timeout = query_timeout
        self.branch_timeout = branch_timeout
        self.solver.set("timeout", branch_timeout)
        self.atoms = []
        self.abounds = []
        self.remainders = set()
        self.atom_ids = {}
        self.inputs = {}  # name -> SymInt / SymReal / choice value
        self.input_kind = {}
        self.known = {}
        self.pc = []
        self.scope_depth = 0
        self.n_concretize = 0
        self.max_concretize = 400
        self.covers = set()
        self._refs = []
        self._prune_cache = {}
        self.read_cache = {}
        self._divisions = set()

    # -- variables
    def atom(self, z, lo=None, hi=None, key=None):
        key = key if key is not None else ("zid", z.get_id())
        i = self.atom_ids.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(z)
            self.abounds.append((lo, hi))
            self.atom_ids[key] = i
        return SymInt({(i,): 1})

    def div_atom(self, r, b):
        key = ("div", r.key, b.key)
        i = self.atom_ids.get(key)
        if i is not None:
            return SymInt({(i,): 1})
        bc = _pconst(b.p)
        if bc is not None:
            t = self.atom(r.z / bc, *self._divb(r, bc), key=key)
            return t
        v = z3.Int(f"div!{len(self.atoms)}")
        t = self.atom(v, None, None, key=key)
        self.add(z3.And(b.z * v <= r.z, r.z < b.z * v + b.z))
        return t

    @staticmethod
    def _divb(r, bc):
        lo, hi = r.bounds()
        return (None if lo is None else lo // bc, None if hi is None else hi // bc)

    def int(self, name, lo, hi):
        """A symbolic input in [lo, hi]."""
        if name in self.inputs:
            raise RuntimeError("duplicate input " + name)
        v = z3.Int(name)
        lo_c = lo if _isint(lo) else SymInt.of(lo).bounds()[0]
        hi_c = hi if _isint(hi) else SymInt.of(hi).bounds()[1]
        s = self.atom(v, lo_c, hi_c)
        self.inputs[name] = s
        self.input_kind[name] = "int"
        self.add(And(_raw_ge(s, lo), _raw_ge(hi, s)))
        if not (_isint(lo) and _isint(hi)):
            if not self._feasible():
                raise PathAbort("empty input range")
        elif lo > hi:
            raise PathAbort("empty input range")
        return s

    def real(self, name, lo=None, hi=None):
        v = SymReal(z3.Real(name))
        self.inputs[name] = v
        self.input_kind[name] = "real"
        if lo is not None:
            self.add(v.z >= SymReal.of(lo).z)
        if hi is not None:
            self.add(v.z <= SymReal.of(hi).z)
        return v

    def choice(self, name, options):
        """Solver-driven choice among concrete options (forks)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = self.int(name, 0, len(options) - 1)
        i = self.concretize(v)
        return options[i]

    def boolean(self, name):
        return self.choice(name, [False, True])

    # -- constraints
    def add(self, c):
        z = zb(c)
        self.solver.add(z)
        self.pc.append(z)

    def assume(self, c):
        if not isinstance(c, SymBool):
            if not c:
                raise PathAbort("assumption")
            return
        kv = self.known_value(c)
        if kv is True:
            return
        if kv is False:
            raise PathAbort("assumption")
        self.add(c)
        self._learn(c, True)
        if not self._feasible():
            raise PathAbort("assumption")

    def _feasible(self):
        return self._check() != z3.unsat

    def _check(self, *assumptions, timeout=None):
        if time.time() > self.deadline:
            raise Budget("time")
        if timeout:
            self.solver.set("timeout", timeout)
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.time() - t
        if timeout:
            self.solver.set("timeout", self.branch_timeout)
        return r

    def _learn(self, b, value):
        if isinstance(b, SymBool):
            if b.kind == "z":
                self._refs.append(b.d)
            self.known[b.key] = value != b.neg

    def known_value(self, b):
        v = self.known.get(b.key)
        if v is None:
            return None
        return v != b.neg

    def entailed(self, b):
        """True if b holds on the whole path (no fork)."""
        if not isinstance(b, SymBool):
            return bool(b)
        v = self.known_value(b)
        if v is not None:
            return v
        n = len(self.trace)
        if n < len(self.prefix):
            o = self.prefix[n]
            self.trace.append(o)
            if o[0] == "e1":
                self._learn(b, True)
            return o[0] == "e1"
        self.stats.branch_queries += 1
        r = self._check(z3.Not(b.z))
        o = ("e1" if r == z3.unsat else "e0", False)
        self.trace.append(o)
        if r == z3.unsat:
            self._learn(b, True)
        return r == z3.unsat

    def prune(self, b):
        """b, or its truth value if the present context fixes it (no fork)."""
        key = (b.key, b.neg, len(self.pc))
        c = self._prune_cache.get(key)
        if c is not None:
            return b if c == "?" else c
        self.stats.branch_queries += 1
        if self._check(b.z) == z3.unsat:
            r = False
        elif self._check(z3.Not(b.z)) == z3.unsat:
            r = True
        else:
            r = "?"
        self._refs.append(b.d)
        self._prune_cache[key] = r
        return b if r == "?" else r

    def decide(self, b):
        v = self.known_value(b)
        if v is not None:
            return v
        if time.time() > self.deadline:
            raise Budget("time")
        self.stats.decisions += 1
        n = len(self.trace)
        if n < len(self.prefix):
            o = self.prefix[n]
            if o[0] not in (True, False):
                raise Unsupported("non-deterministic re-execution")
            self.trace.append(o)
            if o[1] is not None:
                self.add(b.z if o[0] else z3.Not(b.z))
            self._learn(b, o[0])
            return o[0]
        self.stats.branch_queries += 1
        rt = self._check(b.z)
        if rt == z3.unsat:
            self.trace.append((False, None))
            self._learn(b, False)
            return False
        self.stats.branch_queries += 1
        rf = self._check(z3.Not(b.z))
        if rf == z3.unsat:
            self.trace.append((True, None))
            self._learn(b, True)
            return True
        if rt == z3.unknown or rf == z3.unknown:
            self.stats.branch_unknown += 1
        self.stats.forks += 1
        self.trace.append((True, True))
        self.add(b.z)
        self._learn(b, True)
        return True

    def concretize(self, x, limit=None):
        """Fork over the feasible values of x; returns a python int."""
        if not isinstance(x, SymInt):
            return int(x)
        c = _pconst(x.p)
        if c is not None:
            return c
        self.stats.concretized += 1
        tried = 0
        while True:
            n = len(self.trace)
            if n < len(self.prefix) and self.prefix[n][0] == "v":
                o = self.prefix[n]
                self.trace.append(o)
                val = o[2]
            else:
                r = self._check()
                if r != z3.sat:
                    raise PathAbort("concretize")
                val = self._small_value(x)
                self.trace.append(("v", False, val))
            if bool(x == val):
                return val
            tried += 1
            if tried > (limit or self.max_concretize):
                raise Unsupported("too many values to concretize")

    def _small_value(self, x):
        m = self.solver.model()
        val = m.eval(x.z, model_completion=True).as_long()
        # prefer the smallest feasible value close to the lower bound
        lo, _ = x.bounds()
        if lo is not None and val > lo:
            for cand in range(lo, min(val, lo + 3)):
                if self._check(x.z == cand) == z3.sat:
                    return cand
        return val

    # -- assertions
    def cover(self, label):
        self.covers.add(label)

    def check(self, cond, label, detail=None):
        """cond must hold for every value on this path."""
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        if not isinstance(cond, SymBool):
            if cond:
                self.stats.structural += 1
                return
            r = self._check()
            if r == z3.unsat:
                return
            self._violation(label, None, detail)
        kv = self.known_value(cond)
        if kv is True:
            self.stats.structural += 1
            return
        n = len(self.trace)
        if n < len(self.prefix):
            # already discharged on an earlier path sharing this prefix
            self.trace.append(self.prefix[n])
            if self.prefix[n][0] != "c":
                raise Unsupported("non-deterministic re-execution")
            self.add(cond)
            self._learn(cond, True)
            return
        self._query(z3.Not(cond.z), label, detail)
        self.trace.append(("c", False))
        self.add(cond)
        self._learn(cond, True)

    def _query(self, negz, label, detail):
        """Discharge one assertion: is its negation unsatisfiable here?"""
        s = negz
        self.stats.queries += 1
        r = self._check(s, timeout=self.query_timeout)
        if r == z3.unsat:
            self.stats.unsat += 1
            return
        if r == z3.unknown:
            self.stats.unknown += 1
            raise Unsupported("solver returned unknown for " + label)
        self.stats.sat += 1
        self._violation(label, s, detail)

    def confirm_division(self, a, b, q, r):
        """The solver confirms a division done on polynomials: a == b*q + r."""
        if not q:
            return
        key = (_pkey(a.p), _pkey(b.p))
        if key in self._divisions:
            return
        self._divisions.add(key)
        self.stats.queries += 1
        if self._check(a.z != b.z * SymInt(q).z + SymInt(r).z, timeout=self.query_timeout) != z3.unsat:
            raise Unsupported("polynomial division not confirmed by the solver")
        self.stats.unsat += 1

    def check_forall(self, vars_, fn, label, detail=None):
        """For every index tuple in the given ranges fn(*idx) must hold.

        vars_: list of (name, lo, hi) meaning lo <= v < hi.
        """
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        n = len(self.trace)
        if n < len(self.prefix) and self.prefix[n][0] == "c":
            self.trace.append(self.prefix[n])
            return
        outer = (self.trace, self.prefix)
        work = [[]]
        try:
            while work:
                self.prefix = work.pop()
                self.trace = []
                self._forall_once(vars_, fn, label, detail)
                for i in range(len(self.trace) - 1, len(self.prefix) - 1, -1):
                    o = self.trace[i]
                    if o[0] is True and o[1] is True:
                        work.append([*self.trace[:i], (False, False)])
        finally:
            self.trace, self.prefix = outer
        self.trace.append(("c", False))

    def _forall_once(self, vars_, fn, label, detail):
        self.solver.push()
        saved_known, saved_inputs = dict(self.known), dict(self.inputs)
        saved_kind = dict(self.input_kind)
        saved_reads = dict(self.read_cache)
        saved_pc = len(self.pc)
        mark = len(self.atoms)
        try:
            idx = []
            for name, lo, hi in vars_:
                v = z3.Int(f"{name}@{len(self.atoms)}")
                lo_c = lo if _isint(lo) else SymInt.of(lo).bounds()[0]
                hi_c = hi if _isint(hi) else SymInt.of(hi).bounds()[1]
                s = self.atom(v, lo_c, None if hi_c is None else hi_c - 1)
                self.add(And(_raw_ge(s, lo), _raw_ge(hi, s + 1)))
                self.inputs[f"{label}/{name}"] = s
                self.input_kind[f"{label}/{name}"] = "int"
                idx.append(s)
            try:
                cond = fn(*idx)
            except PathAbort:
                return
            if isinstance(cond, SymBool):
                self._query(z3.Not(cond.z), label, detail)
            elif not cond:
                if self._check() != z3.unsat:
                    self._violation(label, None, detail)
            else:
                self.stats.structural += 1
        finally:
            self.solver.pop()
            del self.pc[saved_pc:]
            self.known, self.inputs, self.input_kind = saved_known, saved_inputs, saved_kind
            self._prune_cache = {}
            self.read_cache = saved_reads
            # facts about atoms made here were added inside the popped scope
            for k in [k for k, i in self.atom_ids.items() if i >= mark]:
                del self.atom_ids[k]

    def fail(self, label, detail=None):
        self.check(False, label, detail)

    # -- models
    def model_assignment(self, extra=None):
        """A (small) model of the path, as {input name: value}."""
        ints = [s for n, s in self.inputs.items() if self.input_kind[n] == "int"]
        base = [extra] if extra is not None else []
        best = None
        for bound in (2, 4, 6, 9, 14, 24, None):
            cs = [] if bound is None else [s.z <= bound for s in ints]
            r = self._check(*(base + cs), timeout=4000)
            if r == z3.sat:
                best = self.solver.model()
                break
        if best is None:
            return None
        out = {}
        for n, s in self.inputs.items():
            v = best.eval(s.z, model_completion=True)
            if self.input_kind[n] == "int":
                out[n] = v.as_long()
            else:
                out[n] = _real_value(v)
        return out

    def _violation(self, label, negz, detail):
        a = self.model_assignment(negz)
        if a is None:
            raise Unsupported("no model for the counterexample of " + label)
        raise Violated(label, a, str(detail() if callable(detail) else detail or ""))


def _raw_ge(a, b):
    a, b = SymInt.of(a), SymInt.of(b)
    return SymBool("z", a.z >= b.z)


def _real_value(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    f = v.as_fraction()
    return float(f)


def explore(body, stats, deadline, max_paths=100000, on_path=None, ctx_opts=None):
    """Run body(ctx) over all feasible paths.

    Returns (complete?, list of (kind, payload)) where kind is one of
    'violation', 'exception', 'unsupported'.
    """
    global CTX
    work = [[]]
    problems = []
    complete = True
    while work:
        prefix = work.pop()
        if stats.paths >= max_paths or time.time() > deadline:
            complete = False
            break
        ctx = Ctx(prefix, stats, deadline, **(ctx_opts or {}))
        CTX = ctx
        ended = "ok"
        try:
            body(ctx)
            if ctx.stats.branch_unknown and not ctx._feasible():
                ended = "infeasible"
        except PathAbort:
            ended = "abort"
        except Budget:
            complete = False
            break
        except Violated as v:
            ended = "violation"
            problems.append(("violation", v))
        except Unsupported as u:
            ended = "unsupported"
            import traceback

            problems.append(("unsupported", (str(u), traceback.format_exc()[-1500:])))
        except z3.Z3Exception as u:
            ended = "unsupported"
            import traceback

            problems.append(("unsupported", ("z3: " + str(u), traceback.format_exc()[-1500:])))
        except RecursionError as u:
            ended = "unsupported"
            problems.append(("unsupported", ("recursion", "")))
        except Exception as e:  # unexpected exception from the code under test
            import traceback

            ended = "exception"
            a = None
            try:
                a = ctx.model_assignment()
            except BaseException:
                pass
            problems.append(
                ("exception", (f"{type(e).__name__}: {e}", a, traceback.format_exc()[-2500:]))
            )
        if ended == "abort":
            stats.aborted += 1
        else:
            stats.paths += 1
            if on_path is not None and ended == "ok":
                try:
                    on_path(ctx)
                except Budget:
                    complete = False
                    break
        # schedule the untaken alternatives of this path
        for i in range(len(ctx.trace) - 1, len(prefix) - 1, -1):
            o = ctx.trace[i]
            if o[0] is True and o[1] is True:
                work.append([*ctx.trace[:i], (False, False)])
        if len(problems) >= 6:
            complete = False
            break
    CTX = None
    return complete, problems
