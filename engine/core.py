"""Symbolic scalars and depth-first path exploration by re-execution.

A harness is a function of a context.  `SymCtx` hands out symbolic inputs; a Python branch on a `SymBool`
asks the solver which sides are feasible under the path condition and forks.  Assertions (`check`) are collected
along the path and decided by the solver at its end.
"""
import math
import random
import sys
import time
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3
except ImportError:
    sys.path.append(_VT)
    import z3
    sys.path.remove(_VT)
import numpy as np


class Unsupported(BaseException):
    """The executor has no model for something the code does: the check gives no answer."""

    def __init__(self, *a):
        BaseException.__init__(self, *a)
        if CUR is not None:
            CUR.poisoned = self  # even if the code under test swallows it


class Infeasible(BaseException):
    """The path condition became unsatisfiable (an assumption)."""


class Abort(BaseException):
    """Budget used up."""


CUR = None  # the current SymCtx (or None)


def ctx():
    if CUR is None:
        raise Unsupported('symbolic value used outside of an exploration')
    return CUR


# ---------------------------------------------------------------- scalars
def is_sym(x):
    return isinstance(x, (SymBool, SymInt, SymReal, SymBV))


def rv(x):
    """z3 Real value of a concrete number, exactly."""
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    return z3.RealVal(Fraction(float(x)))


def is_special(x):
    """concrete nan or inf"""
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def is_num(x):
    return isinstance(x, (int, float, bool, np.number, np.bool_, Fraction))


def is_intlike(x):
    return isinstance(x, (bool, int, np.integer, np.bool_, SymInt, SymBV, SymBool))


def as_int_expr(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, SymBV):
        return z3.BV2Int(x.e, is_signed=x.signed)
    return z3.IntVal(int(x))


def as_real_expr(x):
    if isinstance(x, SymReal):
        return x.e
    if is_sym(x):
        return z3.ToReal(as_int_expr(x))
    return rv(x)


def as_bool_expr(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymInt):
        return x.e != 0
    if isinstance(x, SymBV):
        return x.e != 0
    if isinstance(x, SymReal):
        return x.e != 0
    return z3.BoolVal(bool(x))


def mk_bool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mk_int(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mk_real(e):
    return SymReal(e)


class _Sym(object):
    __slots__ = ()
    __array_ufunc__ = None  # numpy scalars and arrays defer to the reflected operators below
    __array_priority__ = 1000


def _arr(o):
    return isinstance(o, np.ndarray)


def _elementwise(op, a, b):
    from . import symnp
    return symnp.ufunc_call(op, a, b)


class SymBool(_Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o):
        if _arr(o):
            return _elementwise('bitwise_and', self, o)
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mk_bool(z3.And(self.e, as_bool_expr(o)))
        return mk_int(as_int_expr(self)) & o
    __rand__ = __and__

    def __or__(self, o):
        if _arr(o):
            return _elementwise('bitwise_or', self, o)
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mk_bool(z3.Or(self.e, as_bool_expr(o)))
        return mk_int(as_int_expr(self)) | o
    __ror__ = __or__

    def __xor__(self, o):
        if _arr(o):
            return _elementwise('bitwise_xor', self, o)
        return mk_bool(z3.Xor(self.e, as_bool_expr(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mk_bool(z3.Not(self.e))

    def __eq__(self, o):
        if _arr(o):
            return _elementwise('equal', self, o)
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mk_bool(self.e == as_bool_expr(o))
        return SymInt(as_int_expr(self)) == o

    def __ne__(self, o):
        if _arr(o):
            return _elementwise('not_equal', self, o)
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bool(self))

    def _i(self):
        return SymInt(as_int_expr(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return 'SymBool(%s)' % self.e


def _fwd(name):
    def f(self, *a):
        return getattr(self._i(), name)(*a)
    f.__name__ = name
    return f


for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow neg pos abs lt le gt ge '
           'lshift rlshift rshift rrshift').split():
    setattr(SymBool, '__%s__' % _n, _fwd('__%s__' % _n))


def _cmp_special(op, special, left):
    """comparison of a finite symbolic number with nan/inf; `left`: the special is on the left"""
    if math.isnan(special):
        return op == 'ne'
    pos = special > 0
    if op == 'eq':
        return False
    if op == 'ne':
        return True
    # finite OP inf
    res = {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos}[op]
    return (not res) if left else res


def _arith_special(op, a, b):
    """arithmetic where at least one operand is a concrete nan/inf and another is symbolic (finite)"""
    for v in (a, b):
        if is_special(v) and math.isnan(v):
            return float('nan')
    if is_special(a):  # a = +-inf, b finite symbolic
        if op in ('add', 'sub'):
            return float(a)
        if op in ('mul', 'truediv'):
            if b > 0:
                return float(a)
            if b < 0:
                return -float(a)
            return float('nan') if op == 'mul' else float(a)
    else:
        if op == 'add':
            return float(b)
        if op == 'sub':
            return -float(b)
        if op == 'mul':
            return _arith_special('mul', b, a)
        if op == 'truediv':
            return 0.0
    raise Unsupported('%s with infinity' % op)


class _SymNum(_Sym):
    __slots__ = ()

    def __radd__(self, o):
        return _bin('add', o, self)

    def __add__(self, o):
        return _bin('add', self, o)

    def __sub__(self, o):
        return _bin('sub', self, o)

    def __rsub__(self, o):
        return _bin('sub', o, self)

    def __mul__(self, o):
        return _bin('mul', self, o)

    def __rmul__(self, o):
        return _bin('mul', o, self)

    def __truediv__(self, o):
        return _bin('truediv', self, o)

    def __rtruediv__(self, o):
        return _bin('truediv', o, self)

    def __floordiv__(self, o):
        return _bin('floordiv', self, o)

    def __rfloordiv__(self, o):
        return _bin('floordiv', o, self)

    def __mod__(self, o):
        return _bin('mod', self, o)

    def __rmod__(self, o):
        return _bin('mod', o, self)

    def __divmod__(self, o):
        return _bin('floordiv', self, o), _bin('mod', self, o)

    def __pow__(self, o):
        return _bin('pow', self, o)

    def __rpow__(self, o):
        return _bin('pow', o, self)

    def __lt__(self, o):
        return _cmp('lt', self, o)

    def __le__(self, o):
        return _cmp('le', self, o)

    def __gt__(self, o):
        return _cmp('gt', self, o)

    def __ge__(self, o):
        return _cmp('ge', self, o)

    def __eq__(self, o):
        return _cmp('eq', self, o)

    def __ne__(self, o):
        return _cmp('ne', self, o)

    def __and__(self, o):
        return _bits('and', self, o)

    def __rand__(self, o):
        return _bits('and', o, self)

    def __or__(self, o):
        return _bits('or', self, o)

    def __ror__(self, o):
        return _bits('or', o, self)

    def __xor__(self, o):
        return _bits('xor', self, o)

    def __rxor__(self, o):
        return _bits('xor', o, self)

    def __lshift__(self, o):
        return _bits('shl', self, o)

    def __rlshift__(self, o):
        return _bits('shl', o, self)

    def __rshift__(self, o):
        return _bits('shr', self, o)

    def __rrshift__(self, o):
        return _bits('shr', o, self)

    def __pos__(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1


class SymInt(_SymNum):
    """unbounded mathematical integer (machine arithmetic is modelled where values are stored into typed arrays)"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __neg__(self):
        return mk_int(-self.e)

    def __abs__(self):
        return mk_int(z3.If(self.e >= 0, self.e, -self.e))

    def __invert__(self):
        return mk_int(-self.e - 1)

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __int__(self):
        return ctx().concretize_int(self.e)

    __index__ = __int__

    def __float__(self):
        return float(int(self))

    def __hash__(self):
        return hash(int(self))

    def __floor__(self):
        return self
    __ceil__ = __trunc__ = __floor__

    def __round__(self, n=None):
        return self

    def astype(self, t):
        from . import symnp
        return symnp.cast_scalar(self, np.dtype(t))

    def __repr__(self):
        return 'SymInt(%s)' % self.e


class SymReal(_SymNum):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __neg__(self):
        return mk_real(-self.e)

    def __abs__(self):
        if ctx().normal_abs:
            from . import poly
            if poly.reduce_zero(ctx(), self.e) is True:
                return 0.0
            return mk_real(z3.If(self.e >= 0, self.e, -self.e))
        # fork free: If-terms would pollute polynomial goals, a branch keeps them polynomial
        if ctx().branch(self.e >= 0):
            return self
        return mk_real(-self.e)

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __float__(self):
        v = z3.simplify(self.e)
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        raise Unsupported('float() of a symbolic real')

    def __int__(self):
        return int(self.__trunc__())

    def __trunc__(self):
        if ctx().branch(self.e >= 0):
            return mk_int(z3.ToInt(self.e))
        return mk_int(-z3.ToInt(-self.e))

    def __floor__(self):
        return mk_int(z3.ToInt(self.e))

    def __ceil__(self):
        return mk_int(-z3.ToInt(-self.e))

    def rint(self):
        """round half to even"""
        f = z3.ToInt(self.e)
        r = self.e - z3.ToReal(f)
        half = z3.RealVal('1/2')
        up = z3.Or(r > half, z3.And(r == half, f % 2 == 1))
        return mk_int(z3.If(up, f + 1, f))

    def __round__(self, n=None):
        if n:
            raise Unsupported('round to digits')
        return self.rint()

    def __hash__(self):
        raise Unsupported('hash of a symbolic real')

    @property
    def dtype(self):
        return np.dtype('float64')

    def sqrt(self):
        return ctx().sqrt(self)

    def is_integer(self):
        return mk_bool(z3.ToReal(z3.ToInt(self.e)) == self.e)

    def astype(self, t):
        from . import symnp
        return symnp.cast_scalar(self, np.dtype(t))

    def __repr__(self):
        return 'SymReal(%s)' % self.e


class SymBV(_SymNum):
    """machine integer; operations are carried out in 64 bit (numba) and wrap"""
    __slots__ = ('e', 'signed')

    def __init__(self, e, signed):
        self.e = e
        self.signed = signed

    @property
    def width(self):
        return self.e.size()

    def ext(self, w):
        d = w - self.width
        if d < 0:
            return z3.Extract(w - 1, 0, self.e)
        if d == 0:
            return self.e
        return z3.SignExt(d, self.e) if self.signed else z3.ZeroExt(d, self.e)

    def __neg__(self):
        return mk_bv(-self.ext(64), self.signed)

    def __invert__(self):
        return mk_bv(~self.ext(64), self.signed)

    def __abs__(self):
        x = self.ext(64)
        return mk_bv(z3.If(x < 0, -x, x), self.signed) if self.signed else self

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __int__(self):
        return ctx().concretize_bv(self)

    __index__ = __int__

    def __hash__(self):
        return hash(int(self))

    def __repr__(self):
        return 'SymBV(%s,%s)' % (self.e, self.signed)


def mk_bv(e, signed):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_signed_long() if signed else e.as_long()
    return SymBV(e, signed)


def bv64(x):
    """(expression, signed) of an integer operand in 64 bit"""
    if isinstance(x, SymBV):
        return x.ext(64), (x.signed or x.width < 64)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)), True
    if isinstance(x, SymInt):
        raise Unsupported('mixing mathematical and machine integers in a bit operation')
    v = int(x)
    return z3.BitVecVal(v, 64), v < 2 ** 63


def _bv_bin(op, a, b):
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        return _bin(op, mk_int(as_int_expr(a)), mk_int(as_int_expr(b)))
    x, sx = bv64(a)
    y, sy = bv64(b)
    s = sx and sy
    if op == 'add':
        return mk_bv(x + y, s)
    if op == 'sub':
        return mk_bv(x - y, s)
    if op == 'mul':
        return mk_bv(x * y, s)
    if op in ('floordiv', 'mod'):
        if ctx().branch(y == 0):
            raise ZeroDivisionError('division by zero')
        if s:
            q = x / y
            r = z3.SRem(x, y)
            adj = z3.And(r != 0, (r < 0) != (y < 0))
            if op == 'floordiv':
                return mk_bv(z3.If(adj, q - 1, q), s)
            return mk_bv(z3.If(adj, r + y, r), s)
        return mk_bv(z3.UDiv(x, y) if op == 'floordiv' else z3.URem(x, y), s)
    if op == 'pow':
        if is_num(b) and int(b) >= 0:
            r = z3.BitVecVal(1, 64)
            for _ in range(int(b)):
                r = r * x
            return mk_bv(r, s)
        if is_num(a) and int(a) == 2:
            return mk_bv(z3.BitVecVal(1, 64) << y, True)
    if op == 'truediv':
        return _bin('truediv', mk_int(as_int_expr(a)), mk_int(as_int_expr(b)))
    raise Unsupported('machine integer operation %s' % op)


def _bits(op, a, b):
    if _arr(a) or _arr(b):
        return _elementwise({'and': 'bitwise_and', 'or': 'bitwise_or', 'xor': 'bitwise_xor', 'shl': 'left_shift', 'shr': 'right_shift'}[op], a, b)
    if isinstance(a, SymBV) or isinstance(b, SymBV):
        x, sx = bv64(a)
        y, sy = bv64(b)
        s = sx and sy
        if op == 'and':
            return mk_bv(x & y, s)
        if op == 'or':
            return mk_bv(x | y, s)
        if op == 'xor':
            return mk_bv(x ^ y, s)
        if op == 'shl':
            return mk_bv(x << y, sx)
        return mk_bv((x >> y) if sx else z3.LShR(x, y), sx)
    # mathematical integers with a concrete operand
    if op == 'shl' and is_num(b):
        return a * (1 << int(b))
    if op == 'shr' and is_num(b):
        return a // (1 << int(b))
    if op == 'shl' and is_num(a):
        return int(a) << int(b)
    if op in ('and', 'or', 'xor'):
        if is_num(a):
            a, b = b, a
        if is_num(b):
            m = int(b)
            if op == 'and':
                if m == 0:
                    return 0
                if m > 0:
                    r = 0
                    for i in range(m.bit_length()):
                        if m >> i & 1:
                            r = r + ((a // (1 << i)) % 2) * (1 << i)
                    return r
                if m == -1:
                    return a
            if op == 'or':
                if m >= 0:
                    return a + m - (a & m)
            if op == 'xor' and m >= 0:
                return a + m - 2 * (a & m)
            # fall through
    raise Unsupported('bit operation %s on mathematical integers' % op)


def _bin(op, a, b):
    if _arr(a) or _arr(b):
        return _elementwise({'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'truediv': 'true_divide', 'floordiv': 'floor_divide', 'mod': 'remainder', 'pow': 'power'}[op], a, b)
    if not ((is_sym(a) or is_num(a)) and (is_sym(b) or is_num(b))):
        return NotImplemented
    if (isinstance(a, SymBV) or isinstance(b, SymBV)) and is_intlike(a) and is_intlike(b):
        return _bv_bin(op, a, b)
    if is_special(a) or is_special(b):
        return _arith_special(op, a, b)
    if is_intlike(a) and is_intlike(b) and op != 'truediv':
        x, y = as_int_expr(a), as_int_expr(b)
        if op == 'add':
            return mk_int(x + y)
        if op == 'sub':
            return mk_int(x - y)
        if op == 'mul':
            return mk_int(x * y)
        if op in ('floordiv', 'mod'):
            if ctx().branch(y == 0):
                raise ZeroDivisionError('integer division by zero')
            # z3: floor for positive divisor
            if ctx().branch(y > 0):
                return mk_int(x / y if op == 'floordiv' else x % y)
            return mk_int((-x) / (-y)) if op == 'floordiv' else mk_int(-((-x) % (-y)))
        if op == 'pow':
            if is_num(b) and int(b) >= 0:
                r = z3.IntVal(1)
                for _ in range(int(b)):
                    r = r * x
                return mk_int(r)
            if is_num(a) and is_sym(b):
                return int(a) ** int(b)
        raise Unsupported('integer operation %s' % op)
    if op == 'add':
        if is_num(a) and a == 0:
            return _toreal(b)
        if is_num(b) and b == 0:
            return _toreal(a)
        return mk_real(as_real_expr(a) + as_real_expr(b))
    if op == 'sub':
        if is_num(b) and b == 0:
            return _toreal(a)
        if is_num(a) and a == 0:
            return mk_real(-as_real_expr(b))
        return mk_real(as_real_expr(a) - as_real_expr(b))
    if op == 'mul':
        for u, v in ((a, b), (b, a)):
            if is_num(u):
                if u == 0:
                    return 0.0
                if u == 1:
                    return _toreal(v)
                if u == -1:
                    return mk_real(-as_real_expr(v))
        return mk_real(as_real_expr(a) * as_real_expr(b))
    if op == 'truediv':
        x, y = as_real_expr(a), as_real_expr(b)
        if is_num(b):
            if b == 0:
                return _div0(a)
            if b == 1:
                return _toreal(a)
            return mk_real(x / y)
        if ctx().is_zero(y):
            return _div0(a)
        if is_num(a) and a == 0:
            return 0.0
        return ctx().div(x, y)
    if op == 'floordiv':
        q = _bin('truediv', a, b)
        return _toreal(q.__floor__()) if isinstance(q, SymReal) else math.floor(q)
    if op == 'mod':
        y = as_real_expr(b)
        if ctx().branch(y == 0):
            return float('nan')
        q = _bin('truediv', a, b)
        f = q.__floor__() if isinstance(q, SymReal) else math.floor(q)
        return _bin('sub', a, _bin('mul', _toreal(f) if is_sym(f) else f, b))
    if op == 'pow':
        if is_num(b):
            if float(b) == 0.5:
                return ctx().sqrt(a)
            if float(b).is_integer():
                n = int(b)
                x = as_real_expr(a)
                r = x
                if n == 0:
                    return 1.0
                for _ in range(abs(n) - 1):
                    r = r * x
                if n < 0:
                    return _bin('truediv', 1.0, mk_real(r))
                return mk_real(r)
        raise Unsupported('power with symbolic exponent')
    raise Unsupported(op)


def _toreal(x):
    if isinstance(x, SymReal):
        return x
    if is_sym(x):
        return mk_real(as_real_expr(x))
    return float(x)


def _div0(a):
    if is_num(a):
        return float('nan') if (a == 0 or math.isnan(a)) else math.copysign(float('inf'), a)
    if a > 0:
        return float('inf')
    if a < 0:
        return -float('inf')
    return float('nan')


def _cmp(op, a, b):
    if _arr(b):
        return _elementwise({'lt': 'less', 'le': 'less_equal', 'gt': 'greater', 'ge': 'greater_equal', 'eq': 'equal', 'ne': 'not_equal'}[op], a, b)
    if not (is_sym(b) or is_num(b)):
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        return NotImplemented
    if is_special(b):
        return _cmp_special(op, float(b), False)
    if isinstance(a, SymBV) or isinstance(b, SymBV):
        if is_intlike(a) and is_intlike(b) and not isinstance(a, SymInt) and not isinstance(b, SymInt):
            # compare values: 65 bit is enough for int64 and uint64
            x, y = _ext65(a), _ext65(b)
            return mk_bool({'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y, 'eq': lambda: x == y, 'ne': lambda: x != y}[op]())
    if is_intlike(a) and is_intlike(b):
        x, y = as_int_expr(a), as_int_expr(b)
    else:
        x, y = as_real_expr(a), as_real_expr(b)
    return mk_bool({'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y, 'eq': lambda: x == y, 'ne': lambda: x != y}[op]())


def _ext65(x):
    if isinstance(x, SymBV):
        d = 65 - x.width
        return z3.SignExt(d, x.e) if x.signed else z3.ZeroExt(d, x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.BitVecVal(1, 65), z3.BitVecVal(0, 65))
    return z3.BitVecVal(int(x), 65)


# ---------------------------------------------------------------- statistics
class Stats(object):
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.branches = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.checks = 0
        self.trivial = 0
        self.discharged = 0
        self.sat = 0
        self.solvers = {}

    def add(self, o):
        for k, v in o.__dict__.items():
            if isinstance(v, dict):
                d = getattr(self, k)
                for kk, vv in v.items():
                    d[kk] = d.get(kk, 0) + vv
            else:
                setattr(self, k, getattr(self, k) + v)


# ---------------------------------------------------------------- contexts
class BaseCtx(object):
    symbolic = False

    def close(self, a, b, tol=1e-6):
        raise NotImplementedError


class SymCtx(BaseCtx):
    """one path of an exploration"""
    symbolic = True

    def __init__(self, explorer, prefix):
        self.x = explorer
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.alternatives = []
        self.pc = []
        self.inputs = {}      # name -> (kind, value)
        self.pending = []     # (cond expr, message)
        self.covers = set()
        self.n = 0
        self.trig = {}        # atom expr id -> (expr, c, s)
        self.divs = []        # (q, num, den)
        self.sqrts = []       # (r, radicand)
        self.defs = []        # definitional constraints that introduced names
        self.solver = z3.Solver()
        self.solver.set('timeout', explorer.branch_timeout)
        self.model = None
        self.events = []
        self.observed = []
        self.random_hook = None
        self.poisoned = None
        self.strong = {}      # eq expression id -> (expression, robust negation)
        self.lazy = {}        # name of a square root -> its definition (asserted when it is used)
        self.positive = set() # names of positive square roots
        self.merge = False    # merge paths (engine/merge.py)
        self.logs = []        # (variable, argument)
        self.normal_abs = False  # |x| of a term that is identically zero becomes 0
        self.guards = []

    # -- solver
    def need(self, *es):
        """asserts the definitions of the square roots in the expressions; a square root that is used nowhere always exists"""
        if not self.lazy:
            return
        seen = set()
        todo = list(es)
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if t.num_args():
                todo.extend(t.children())
            elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                d = self.lazy.pop(t.decl().name(), None)
                if d is not None:
                    self._add(d)
                    todo.append(d)

    def add(self, e):
        self.need(e)
        self._add(e)

    def _add(self, e):
        self.pc.append(e)
        self.solver.add(e)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def sat(self, e):
        """satisfiability of pc and e: True/False/None"""
        self.need(e)
        if self.model is not None:
            try:
                if z3.is_true(self.model.eval(e, model_completion=True)):
                    return True
            except z3.Z3Exception:
                pass
        st = self.x.stats
        t = time.time()
        self.x.budget()
        if self.x.nonlinear:
            r, m = self.x.solve(self.pc + [e], self.x.branch_timeout)
        else:
            self.solver.push()
            self.solver.add(e)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
            st.queries += 1
            st.solver_s += time.time() - t
        if r == z3.sat:
            self.model = m
            return True
        if r == z3.unsat:
            return False
        st.unknown += 1
        return None

    # -- branching
    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.guards:
            return self._branch_guarded(e)
        return self._decide(e)

    def _branch_guarded(self, e):
        """decision inside a merged block: free if implied by the guards, else the guards are decided first"""
        g = z3.And(self.guards)
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos][0]
            self.decisions.append(self.prefix[self.pos])
            self.pos += 1
        else:
            self.pos += 1
            t = self.sat(z3.And(g, e)) is not False
            f = self.sat(z3.And(g, z3.Not(e))) is not False
            k = 'fork' if t and f else ('T' if t else ('F' if f else 'X'))
            self.decisions.append((k, 'guard'))
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k == 'X':
            from .merge import GuardExit
            raise GuardExit(len(self.guards) - 1)
        self.decide_guards()
        gs, self.guards = self.guards, []
        try:
            return self._decide(e)
        finally:
            self.guards = gs

    def decide_guards(self, upto=None):
        """forks on the guards (outermost first); returns where all hold"""
        from .merge import GuardExit
        gs, self.guards = self.guards, []
        try:
            for i, g in enumerate(gs if upto is None else gs[:upto + 1]):
                if z3.is_true(g):
                    continue
                if not self.branch(g):
                    raise GuardExit(i)
                gs[i] = z3.BoolVal(True)
        finally:
            self.guards = gs

    def _decide(self, e, tag=None):
        if self.guards:
            self.decide_guards()
            gs, self.guards = self.guards, []
            try:
                return self._decide(e, tag)
            finally:
                self.guards = gs
        st = self.x.stats
        st.branches += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            val = d[0]
            self.add(e if val else z3.Not(e))
            return val
        self.pos += 1
        t = self.sat(e)
        if t is False:
            val, both = False, False
        else:
            mt = self.model
            f = self.sat(z3.Not(e))
            if f is False:
                if t is None and False:
                    pass
                val, both = True, False
            else:
                val, both = True, True
                if t is True:
                    self.model = mt
        d = (val, tag)
        if both:
            st.forks += 1
            self.alternatives.append(self.decisions + [(False, tag)])
        self.decisions.append(d)
        self.add(e if val else z3.Not(e))
        return val

    def rat(self, a, b):
        """the exact rational number a / b"""
        return a / b if self.x.fixed is not None or a % b == 0 else SymReal(z3.Q(a, b))

    def choose_n(self, n, tag='choice'):
        """nondeterministic choice without constraint among n alternatives (fork)"""
        if n <= 1:
            return 0
        if self.guards:
            self.decide_guards()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            return d[0]
        self.pos += 1
        for k in range(n - 1, 0, -1):
            self.alternatives.append(self.decisions + [(k, tag)])
        self.decisions.append((0, tag))
        self.x.stats.forks += n - 1
        return 0

    def concretize_int(self, e, limit=None):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        limit = limit or self.x.concretize_limit
        for _ in range(limit):
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][1]
            else:
                v = self._value(e)
                v = v.as_long()
            if self._decide(e == v, tag=v):
                return v
        raise Unsupported('value not bounded: %s' % e)

    def concretize_bv(self, b, limit=None):
        e = b.e
        limit = limit or self.x.concretize_limit
        for _ in range(limit):
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][1]
            else:
                v = self._value(e).as_long()
            if self._decide(e == z3.BitVecVal(v, e.size()), tag=v):
                return v - (1 << e.size()) if b.signed and v >= 1 << (e.size() - 1) else v
        raise Unsupported('machine value not bounded')

    def _value(self, e):
        if self.model is None:
            r = self.sat(z3.BoolVal(True))
            if r is False:
                raise Infeasible()
            if self.model is None:
                raise Unsupported('no model for a value')
        return self.model.eval(e, model_completion=True)

    # -- names
    def fresh(self, base, sort='real'):
        self.n += 1
        n = '%s!%d' % (base, self.n)
        return {'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[sort](n)

    def assume(self, c):
        c = self.b(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.add(c)
        if self.pos >= len(self.prefix):
            if self.sat(z3.BoolVal(True)) is False:
                raise Infeasible()

    # -- inputs
    def _in(self, name, kind, v):
        if name in self.inputs:
            raise ValueError('input %s twice' % name)
        if self.x.fixed is not None:
            v = self._fixed(kind, self.x.fixed[name])
        self.inputs[name] = (kind, v)
        return v

    @staticmethod
    def _fixed(kind, val):
        return val

    def int(self, name, lo=None, hi=None):
        v = self._in(name, 'int', SymInt(z3.Int(name)))
        if is_sym(v):
            if lo is not None:
                self.add(v.e >= as_int_expr(lo))
            if hi is not None:
                self.add(v.e <= as_int_expr(hi))
        return v

    def real(self, name, lo=None, hi=None):
        v = self._in(name, 'real', SymReal(z3.Real(name)))
        if is_sym(v):
            if lo is not None:
                self.add(v.e >= as_real_expr(lo))
            if hi is not None:
                self.add(v.e <= as_real_expr(hi))
        return v

    def bool(self, name):
        return self._in(name, 'bool', SymBool(z3.Bool(name)))

    def bv(self, name, width, signed=False):
        return self._in(name, 'bvs' if signed else 'bvu', SymBV(z3.BitVec(name, width), signed))

    def angle(self, name):
        """an arbitrary angle, used through its cosine and sine"""
        v = self._in(name, 'angle', SymReal(z3.Real(name)))
        if is_sym(v):
            self._trig_atom(v.e)
        return v

    def pick(self, name, options):
        """concrete choice out of options (all are explored)"""
        options = list(options)
        if self.x.fixed is not None:
            k = self.x.fixed[name]
        else:
            k = self.choose_n(len(options), tag=name)
        self.inputs[name] = ('pick', k)
        return options[k]

    def maybe_nan(self, name, lo=None, hi=None):
        if self.pick(name + '.nan', [False, True]):
            return float('nan')
        return self.real(name, lo, hi)

    # -- assertions
    def b(self, c):
        if isinstance(c, z3.BoolRef):
            return c
        if isinstance(c, np.ndarray):
            return z3.And([self.b(v) for v in c.ravel().tolist()] or [z3.BoolVal(True)])
        return as_bool_expr(c)

    def check(self, c, msg):
        self.x.stats.checks += 1
        e = z3.simplify(self.b(c))
        if z3.is_true(e):
            self.x.stats.trivial += 1
            return
        self.pending.append((e, msg))

    def fail(self, msg):
        self.check(False, msg)

    def cover(self, label):
        self.covers.add(label)

    def both(self, *cs):
        return mk_bool(z3.And([self.b(c) for c in cs]))

    def either(self, *cs):
        return mk_bool(z3.Or([self.b(c) for c in cs]))

    def neg(self, c):
        return mk_bool(z3.Not(self.b(c)))

    def implies(self, a, c):
        return mk_bool(z3.Implies(self.b(a), self.b(c)))

    def iff(self, a, c):
        return mk_bool(self.b(a) == self.b(c))

    def ite(self, c, a, d):
        c = self.b(c)
        if (isinstance(a, SymBV) or isinstance(d, SymBV)) and not isinstance(a, (SymInt, SymReal)) and not isinstance(d, (SymInt, SymReal)):
            x, y = bv64(a), bv64(d)
            return mk_bv(z3.If(c, x[0], y[0]), x[1] and y[1])
        if is_intlike(a) and is_intlike(d):
            return mk_int(z3.If(c, as_int_expr(a), as_int_expr(d)))
        return mk_real(z3.If(c, as_real_expr(a), as_real_expr(d)))

    def eq(self, a, b):
        """exact equality; nan equals nan; concrete floats within rounding"""
        if not is_sym(a) and not is_sym(b):
            return conc_eq(a, b)
        if is_special(a) or is_special(b):
            return False
        if isinstance(a, SymReal) or isinstance(b, SymReal) or isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
            return self.real_eq(a, b)
        return mk_bool(z3.simplify(as_bool_expr(_cmp('eq', a, b) if is_sym(a) else _cmp('eq', b, a))))

    def real_eq(self, a, b):
        from . import poly
        d = as_real_expr(a) - as_real_expr(b)
        z = poly.reduce_zero(self, d)
        if z is True:
            self.x.stats.solvers['poly-normal-form'] = self.x.stats.solvers.get('poly-normal-form', 0) + 1
            return True
        r = SymBool(as_real_expr(a) == as_real_expr(b)) if z is None else mk_bool(z)
        if isinstance(r, SymBool):
            t = z3.RealVal('1/100') + (z3.If(as_real_expr(b) > 0, as_real_expr(b), -as_real_expr(b))) / 1000
            se = z3.simplify(r.e)
            self.strong[se.get_id()] = (se, z3.Or(d > t, -d > t))
        return r

    exact = eq

    def le(self, a, b):
        if is_special(a) or is_special(b):
            return bool(a <= b)
        if not is_sym(a) and not is_sym(b):
            return bool(a <= b + 1e-9 + 1e-9 * max(abs(a), abs(b)))
        return a <= b

    def isnan(self, a):
        return not is_sym(a) and isinstance(a, (float, np.floating)) and math.isnan(a)

    def observe(self, label, v):
        if self.x.fixed is not None:
            from .conc import flat
            self.observed.append((label, flat(v)))

    def count(self, cs):
        """number of true conditions"""
        t = z3.IntVal(0)
        for c in cs:
            t = t + z3.If(self.b(c), 1, 0)
        return mk_int(t)

    # -- functions
    def sqrt(self, v):
        if is_num(v):
            return float('nan') if (math.isnan(v) or v < 0) else math.sqrt(v)
        e = as_real_expr(v)
        from . import poly
        k = poly.constant(self, e)
        if k is not None:
            return math.sqrt(k) if k >= 0 else float('nan')
        q = poly.square_root(self, e)
        if q is not None:
            if self.trig and not self.merge:  # keep polynomials free of case distinctions
                return mk_real(q) if self.branch(q >= 0) else mk_real(-q)
            return mk_real(z3.If(q >= 0, q, -q))
        if self.merge:
            if self.branch(e < 0):
                return float('nan')
        elif self.branch(e <= 0):
            return float('nan') if self.branch(e < 0) else 0.0
        es = z3.simplify(e, som=True)
        for r, x in self.sqrts:
            if z3.eq(x, es):
                return mk_real(r)
        for r, x in self.sqrts:
            if poly.reduce_zero(self, x - es) is True:
                return mk_real(r)
        r = self.fresh('sqrt')
        self.sqrts.append((r, es))
        if self.merge:
            self._define(z3.And(r >= 0, r * r == e))
        else:
            self.positive.add(r.decl().name())
            d = z3.And(r > 0, r * r == e)
            self.defs.append(d)
            self.lazy[r.decl().name()] = d
        return mk_real(r)

    def log(self, v):
        """an unknown value with the bounds of the logarithm, the same for the same argument"""
        if is_num(v):
            return float('nan') if (math.isnan(v) or v < 0) else (math.log(v) if v else -math.inf)
        e = z3.simplify(as_real_expr(v))
        if self.branch(e <= 0):
            return float('nan') if self.branch(e < 0) else -math.inf
        for r, x in self.logs:
            if z3.eq(x, e):
                return mk_real(r)
        r = self.fresh('log')
        self.logs.append((r, e))
        self._define(z3.And(r <= e - 1, r * e >= e - 1))
        return mk_real(r)

    def is_zero(self, y):
        """branch on y == 0"""
        if self.positive:
            from . import poly
            z = poly.numerator_zero(self, y)
            if z is not None:
                return self.branch(z)
        return self.branch(y == 0)

    def div(self, x, y):
        """x / y with y != 0 on this path"""
        if self.positive:
            from . import poly
            t = poly.linear(self, x / y)
            if t is not None:
                return mk_real(t)
        return mk_real(x / y)

    def _define(self, e):
        self.defs.append(e)
        self.add(e)

    # trigonometry: cos/sin of an angle expression as polynomials in the (c, s) of its atoms
    def _trig_atom(self, e):
        for (a, c, s) in self.trig.values():
            if z3.eq(a, e):
                return c, s
        c, s = self.fresh('cos'), self.fresh('sin')
        self.trig[len(self.trig)] = (e, c, s)
        self._define(c * c + s * s == 1)
        return c, s

    def new_angle(self, base, c, s):
        """register a new angle with the given cosine and sine expressions"""
        a = self.fresh(base)
        self.trig[len(self.trig)] = (a, c, s)
        return mk_real(a)

    def cos_sin(self, v):
        if is_num(v):
            return math.cos(v), math.sin(v)
        e = z3.simplify(as_real_expr(v), som=True)
        terms = _linear_terms(e)
        if terms is not None:
            const, lin = terms
            k = float(const) / (math.pi / 2)
            if abs(k - round(k)) < 1e-9 and all(c.denominator == 1 for c, _ in lin):
                C, S = [(1, 0), (0, 1), (-1, 0), (0, -1)][round(k) % 4]
                C, S = z3.RealVal(C), z3.RealVal(S)
                for coef, atom in lin:
                    c, s = self._trig_atom(atom)
                    if coef < 0:
                        s = -s
                    for _ in range(abs(int(coef))):
                        C, S = z3.simplify(C * c - S * s), z3.simplify(S * c + C * s)
                return mk_real(C), mk_real(S)
        c, s = self._trig_atom(e)
        return mk_real(c), mk_real(s)

    def cos(self, v):
        return self.cos_sin(v)[0]

    def sin(self, v):
        return self.cos_sin(v)[1]

    def tan(self, v):
        c, s = self.cos_sin(v)
        return s / c

    def arctan2(self, y, x):
        if is_num(x) and is_num(y):
            return math.atan2(y, x)
        r = self.sqrt(_bin('add', _bin('mul', x, x), _bin('mul', y, y)))
        if not is_sym(r) and math.isnan(r):
            return float('nan')
        if as_sym_is_zero(self, r):
            return 0.0
        c, s = r and (x / r if is_sym(x) else _bin('truediv', x, r)), (y / r if is_sym(y) else _bin('truediv', y, r))
        a = self.new_angle('atan2', as_real_expr(c), as_real_expr(s))
        pi = rv(math.pi)
        self._define(z3.And(a.e <= pi, a.e > -pi))
        # sign of the angle follows the sign of y; used by range checks
        ye, xe = as_real_expr(y), as_real_expr(x)
        self._define(z3.And(z3.Implies(ye > 0, a.e > 0), z3.Implies(ye < 0, a.e < 0),
                            z3.Implies(z3.And(ye == 0, xe > 0), a.e == 0), z3.Implies(z3.And(ye == 0, xe < 0), a.e == pi),
                            z3.Implies(xe > 0, z3.And(a.e < pi / 2, a.e > -pi / 2)),
                            z3.Implies(xe < 0, z3.Or(a.e > pi / 2, a.e < -pi / 2))))
        return a

    def arcsin(self, v):
        if is_num(v):
            return math.asin(v) if -1 <= v <= 1 else float('nan')
        e = as_real_expr(v)
        if self.branch(z3.Or(e > 1, e < -1)):
            return float('nan')
        c = self.sqrt(mk_real(1 - e * e))
        a = self.new_angle('asin', as_real_expr(c), e)
        pi = rv(math.pi)
        self._define(z3.And(a.e <= pi / 2, a.e >= -pi / 2, z3.Implies(e > 0, a.e >= e), z3.Implies(e < 0, a.e <= e), z3.Implies(e == 0, a.e == 0),
                            z3.Implies(e == 1, a.e == pi / 2), z3.Implies(e == -1, a.e == -pi / 2)))
        return a

    def arccos(self, v):
        if is_num(v):
            return math.acos(v) if -1 <= v <= 1 else float('nan')
        e = as_real_expr(v)
        if self.branch(z3.Or(e > 1, e < -1)):
            return float('nan')
        s = self.sqrt(mk_real(1 - e * e))
        a = self.new_angle('acos', e, as_real_expr(s))
        pi = rv(math.pi)
        self._define(z3.And(a.e <= pi, a.e >= 0, z3.Implies(e == 1, a.e == 0), z3.Implies(e == -1, a.e == pi), z3.Implies(e == 0, a.e == pi / 2),
                            z3.Implies(e > 0, a.e < pi / 2), z3.Implies(e < 0, a.e > pi / 2), z3.Implies(e < 1, a.e > 0), z3.Implies(e > -1, a.e < pi)))
        return a

    def arctan(self, v):
        return self.arctan2(v, 1.0)

    # -- end of path
    def finish(self):
        if not self.pending:
            return
        st = self.x.stats
        pend = self.pending
        self.need(*[e for e, _ in pend])
        if len(pend) > 1 and not self.x.nonlinear:
            r, m = self.x.solve(self.pc + [z3.Or([z3.Not(e) for e, _ in pend])], self.x.timeout)
            if r == z3.unsat:
                st.discharged += len(pend)
                return
        seen = set()
        for e, msg in pend:
            if msg in seen:
                continue
            r, m = self.x.solve(self.pc + [z3.Not(e)], self.x.timeout)
            if r == z3.unsat:
                st.discharged += 1
            elif r == z3.sat:
                st.sat += 1
                seen.add(msg)
                self.x.violation(self, msg, self.replayable(e, m))
            else:
                self.x.inconclusive.append('solver gave no answer for "%s"' % msg)

    def replayable(self, e, m):
        """a counterexample that survives rounding, if there is one"""
        reals = [v.e for k, v in self.inputs.values() if k == 'real' and is_sym(v)]
        if not reals:
            return m
        ne = z3.Not(e)
        if e.get_id() in self.strong:
            ne = self.strong[e.get_id()][1]
        elif z3.is_and(e):
            # a conjunction of equalities: one of them fails clearly
            parts = [self.strong[a.get_id()][1] if a.get_id() in self.strong else z3.Not(a) for a in e.children()]
            ne = z3.Or(parts)
        self.need(ne)
        grid = []
        if not self.x.nonlinear:
            grid = [z3.IsInt(v * 16) for v in reals]
        for extra in ([ne] + grid, [ne], [z3.Not(e)] + grid):
            r, m2 = self.x.solve(self.pc + extra, min(self.x.timeout, 5000))
            if r == z3.sat:
                return m2
        return m

    def generic_model(self, rnd):
        """inputs of this path in general position"""
        m = self.model
        if m is None:
            if not self.sat(z3.BoolVal(True)):
                return None
            m = self.model
        if self.x.nonlinear:
            return m
        s = z3.Solver()
        s.set('timeout', 500)
        s.add(self.pc)
        t_end = time.time() + 2
        for name, (kind, v) in self.inputs.items():
            if not is_sym(v) or kind not in ('real', 'int'):
                continue
            if time.time() > t_end:
                break
            for scale in (1.0, 0.1):
                base = val(m, v.e, kind)
                s.push()
                if kind == 'real':
                    x = base + scale * (rnd.random() - 0.5) * (1 + abs(base))
                    s.add(v.e == rv(round(x * 64) / 64.0))
                else:
                    s.add(v.e == z3.IntVal(int(base + scale * rnd.randint(-3, 3))))
                if s.check() == z3.sat:
                    m = s.model()
                    break
                s.pop()
        return m

    def model_inputs(self, m):
        out = {}
        for name, (kind, v) in self.inputs.items():
            if not is_sym(v):
                out[name] = v
            elif kind == 'angle':
                c, s = self._trig_atom(v.e)
                out[name] = math.atan2(val(m, s), val(m, c))
            else:
                out[name] = val(m, v.e, kind)
        return out


def as_sym_is_zero(c, r):
    return c.branch(as_real_expr(r) == 0)


def val(m, e, kind=None):
    v = m.eval(e, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_bv_value(v):
        return v.as_signed_long() if kind == 'bvs' else v.as_long()
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(30).as_fraction())
    raise Unsupported('cannot read the model value %s' % v)


def _linear_terms(e):
    """e as (constant, [(coefficient, atom)]) or None"""
    const = Fraction(0)
    lin = []
    todo = [(Fraction(1), e)]
    while todo:
        c, t = todo.pop()
        if z3.is_rational_value(t):
            const += c * t.as_fraction()
        elif z3.is_add(t):
            todo.extend((c, a) for a in t.children())
        elif z3.is_sub(t):
            ch = t.children()
            todo.append((c, ch[0]))
            todo.extend((-c, a) for a in ch[1:])
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
            todo.append((-c, t.arg(0)))
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
            todo.append((c * t.arg(0).as_fraction(), t.arg(1)))
        elif z3.is_const(t):
            for i, (cc, a) in enumerate(lin):
                if z3.eq(a, t):
                    lin[i] = (cc + c, a)
                    break
            else:
                lin.append((c, t))
        else:
            return None
    return const, [(c, a) for c, a in lin if c != 0]


def conc_eq(a, b, rtol=1e-9, atol=1e-9):
    try:
        if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
            a, b = float(a), float(b)
            if math.isnan(a) or math.isnan(b):
                return math.isnan(a) and math.isnan(b)
            if math.isinf(a) or math.isinf(b):
                return a == b
            return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
        return bool(a == b)
    except TypeError:
        return False


class Explorer(object):
    def __init__(self, nonlinear=False, timeout=20000, branch_timeout=5000, max_paths=200000, deadline=None,
                 concretize_limit=64, max_cex=6, stop_cex=24, fixed=None, seed=1, n_samples=3):
        self.nonlinear = nonlinear
        self.timeout = timeout
        self.branch_timeout = branch_timeout
        self.max_paths = max_paths
        self.deadline = deadline
        self.concretize_limit = concretize_limit
        self.max_cex = max_cex
        self.stop_cex = stop_cex
        self.stopped = False
        self.fixed = fixed
        self.rnd = random.Random(seed)
        self.n_samples = n_samples
        self.stats = Stats()
        self.cex = []
        self.inconclusive = []
        self.covers = {}
        self.cex_per_msg = {}
        self.samples = []
        self.exhaustive = True

    def budget(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Abort('time budget used up')

    def solve(self, es, timeout):
        st = self.stats
        st.queries += 1
        t = time.time()
        s = None
        if self.nonlinear:
            s = z3.SolverFor('QF_NRA')
        else:
            s = z3.Solver()
        s.set('timeout', int(timeout))
        s.add(es)
        r = s.check()
        name = 'z3' + ('-nra' if self.nonlinear else '')
        if r == z3.unknown and self.nonlinear:
            s = z3.Solver()
            s.set('timeout', int(timeout))
            s.add(es)
            r = s.check()
            name = 'z3-default'
        if r == z3.unknown and timeout >= 10000:
            for o, v in (('arith.solver', 2), ('random_seed', 3)):
                s = z3.Solver()
                s.set('timeout', int(timeout))
                s.set(o, v)
                s.add(es)
                r = s.check()
                if r != z3.unknown:
                    name = 'z3-%s-%d' % (o, v)
                    break
        st.solvers[name] = st.solvers.get(name, 0) + 1
        st.solver_s += time.time() - t
        m = s.model() if r == z3.sat else None
        return r, m

    def violation(self, c, msg, m):
        k = self.cex_per_msg.get(msg, 0)
        if k >= self.max_cex:
            return
        self.cex_per_msg[msg] = k + 1
        self.cex.append(dict(msg=msg, inputs=c.model_inputs(m)))

    def run(self, fn):
        global CUR
        stack = [[]]
        while stack:
            if self.stop_cex and len(self.cex) >= self.stop_cex:
                self.stopped = True
                self.exhaustive = False
                break
            if self.stats.paths >= self.max_paths:
                self.inconclusive.append('path limit %d reached' % self.max_paths)
                self.exhaustive = False
                break
            prefix = stack.pop()
            c = SymCtx(self, prefix)
            CUR = c
            try:
                try:
                    fn(c)
                    if c.poisoned is not None:
                        raise c.poisoned
                except (Unsupported, z3.Z3Exception) as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    where = ' <- '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(tb[-6:]))
                    self.inconclusive.append('%s: %s [%s]' % (type(e).__name__, e, where))
                    self.exhaustive = False
                    stack.extend(c.alternatives)
                    if len(self.inconclusive) > 20:
                        break
                    continue
                except Infeasible:
                    self.stats.infeasible += 1
                    stack.extend(c.alternatives)
                    continue
                except Abort:
                    raise
                except Exception as e:  # the code under test failed where the harness did not expect it
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    where = ' <- '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(tb[-6:]))
                    c.check(False, 'unexpected %s' % type(e).__name__)
                    c.events.append('%s: %s [%s]' % (type(e).__name__, e, where))
                    n0 = len(self.cex)
                    c.finish()
                    self.last = c
                    for x in self.cex[n0:]:
                        x['detail'] = c.events[-1]
                    self.stats.paths += 1
                    stack.extend(c.alternatives)
                    continue
                c.finish()
                self.last = c
                self.stats.paths += 1
                for l in c.covers:
                    self.covers[l] = self.covers.get(l, 0) + 1
                if self.fixed is None and self.n_samples and self.rnd.random() < float(self.n_samples) * 2 / (1 + self.stats.paths):
                    try:
                        m = c.generic_model(self.rnd)
                        if m is not None:
                            x = c.model_inputs(m)
                            if len(self.samples) < self.n_samples:
                                self.samples.append(x)
                            else:
                                self.samples[self.rnd.randrange(self.n_samples)] = x
                    except (Unsupported, z3.Z3Exception):
                        c.poisoned = None
                stack.extend(c.alternatives)
            except Abort as e:
                self.inconclusive.append('Abort: %s (%d paths done, %d open)' % (e, self.stats.paths, len(stack)))
                self.exhaustive = False
                break
            finally:
                CUR = None
        return self
