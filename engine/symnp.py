"""numpy for symbolic execution: arrays of symbolic scalars with a logical dtype, and a module shim."""
import builtins
import math
import functools
import itertools
import numpy as np

from . import core
from .core import (z3, Unsupported, is_sym, is_num, is_special, is_intlike, SymBool, SymInt, SymReal, SymBV, ctx, mk_bool, mk_int, mk_real,
                   mk_bv, as_int_expr, as_real_expr, as_bool_expr, Fraction)

I64 = np.dtype(np.int64)
F64 = np.dtype(np.float64)
BOOL = np.dtype(bool)
OBJ = np.dtype(object)


def item(v):
    return v.item() if isinstance(v, np.generic) and not isinstance(v, np.void) else v


# ---------------------------------------------------------------- casting of one element to a dtype
def cast_scalar(v, dt):
    k = dt.kind
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.item() if not isinstance(v, SArr) else v.view(np.ndarray)[()]
    if isinstance(v, np.generic):
        v = v.item()
    if k == 'O':
        return v
    if k in 'SU':
        return v
    if not is_sym(v):
        if isinstance(v, Fraction):
            return SymReal(z3.RealVal(v)) if k == 'f' else int(v)
        if k == 'f':
            return float(v)
        if k == 'b':
            return bool(v)
        if k in 'iu':
            if isinstance(v, float):
                if math.isnan(v) or math.isinf(v):
                    with np.errstate(all='ignore'):
                        return np.array(v).astype(dt).item()
                v = int(v)
            n = 8 * dt.itemsize
            v = int(v) & ((1 << n) - 1)
            if k == 'i' and v >= 1 << (n - 1):
                v -= 1 << n
            return v
        if v is None and k in 'mM':
            return v
        return np.array(v).astype(dt).item()
    if k == 'b':
        return v if isinstance(v, SymBool) else mk_bool(as_bool_expr(v))
    if k == 'f':
        return v if isinstance(v, SymReal) else mk_real(as_real_expr(v))
    if k in 'iu':
        n = 8 * dt.itemsize
        if isinstance(v, SymBV):
            return mk_bv(v.ext(n), k == 'i')
        if isinstance(v, SymReal):
            v = v.__trunc__()
        if isinstance(v, SymBool):
            return mk_int(as_int_expr(v))
        if not is_sym(v):
            return cast_scalar(v, dt)
        e = v.e
        if n == 64 and k == 'i':
            return v
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if k == 'i' else (0, (1 << n) - 1)
        if n == 64:
            inr = e >= 0
        else:
            inr = z3.And(e >= lo, e <= hi)
        if ctx().branch(inr):
            return v
        m = e % (1 << n)
        if k == 'i':
            m = z3.If(m >= 1 << (n - 1), m - (1 << n), m)
        return mk_int(m)
    raise Unsupported('cast to %s' % dt)


def cast_obj(a, dt):
    """plain object ndarray cast elementwise (new array)"""
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), a.reshape(-1)
    if af.shape[0] >= 256 and dt.kind in 'fb' and _plain([af]):
        return np.array(a.tolist(), dtype=dt).astype(object).reshape(a.shape)
    if af.shape[0] >= 256 and dt.kind in 'iu' and set(map(type, af.tolist())) <= {int, bool}:
        try:
            return np.array(af.tolist(), dtype=np.int64).astype(dt).astype(object).reshape(a.shape)
        except OverflowError:
            pass
    for i in range(af.shape[0]):
        of[i] = cast_scalar(af[i], dt)
    return out.reshape(a.shape)


def raw(a):
    """plain object view"""
    return a.view(np.ndarray) if isinstance(a, SArr) else a


def mk(a, ldt):
    """SArr from a plain object ndarray (no cast)"""
    if not isinstance(a, np.ndarray) or a.dtype != OBJ:
        b = np.empty(np.shape(a), dtype=object)
        b[...] = a
        a = b
    r = np.ndarray.view(a, SArr)
    r._ldt = np.dtype(ldt)
    return r


def all_concrete(a):
    return not any(is_sym(v) for v in raw(a).reshape(-1).tolist())


def to_real(a):
    """real ndarray of an SArr whose elements are all concrete"""
    r = raw(a)
    if a._ldt == OBJ:
        return r
    out = np.empty(r.shape, dtype=a._ldt)
    of, rf = out.reshape(-1), r.reshape(-1)
    for i in range(rf.shape[0]):
        of[i] = rf[i]
    return out.reshape(r.shape)


def from_real(a):
    """SArr from a real ndarray"""
    a = np.asarray(a)
    if a.dtype.names:
        return SStruct({n: from_real(a[n]) for n in a.dtype.names}, a.dtype, a.shape)
    o = np.empty(a.shape, dtype=object)
    of, af = o.reshape(-1), np.ascontiguousarray(a).reshape(-1).tolist()
    for i, v in enumerate(af):
        of[i] = v
    return mk(of.reshape(a.shape) if a.ndim else o_set(o, a.item()), a.dtype)


def o_set(o, v):
    o[()] = v
    return o


def scalar_out(v, ldt):
    """an element leaving an array as a scalar"""
    if is_sym(v) or ldt is None or ldt.kind in 'OSUV':
        return v
    if ldt.kind == 'f':
        return np.float64(v)
    return ldt.type(v)


def cindex(i, n):
    """concrete index of a possibly symbolic one; out of range raises like numpy"""
    if isinstance(i, SymBV):
        i = mk_int(as_int_expr(i))
    if isinstance(i, SymBool):
        i = SymInt(as_int_expr(i))
    if not isinstance(i, SymInt):
        return i
    c = ctx()
    if c.branch(z3.And(i.e >= -n, i.e < n)):
        return c.concretize_int(i.e, limit=2 * n + 2)
    raise IndexError('index out of bounds for axis with size %d' % n)


def norm_index(idx, shape):
    """index expression without symbolic parts"""
    tup = idx if isinstance(idx, tuple) else (idx,)
    out = []
    n_expl = sum(1 for t in tup if t is not None and t is not Ellipsis)
    # boolean masks consume several axes
    n_expl = 0
    for t in tup:
        if t is None or t is Ellipsis:
            continue
        if isinstance(t, np.ndarray) and ((isinstance(t, SArr) and t._ldt == BOOL) or np.ndarray.dtype.__get__(t) == BOOL):
            n_expl += t.ndim
        else:
            n_expl += 1
    ax = 0
    for t in tup:
        if t is None:
            out.append(t)
            continue
        if t is Ellipsis:
            out.append(t)
            ax += len(shape) - n_expl
            continue
        n = shape[ax] if ax < len(shape) else 0
        if isinstance(t, (list, tuple)) and builtins.any(is_sym(v) for v in t):
            t = np_array(list(t))
        if isinstance(t, SArr):
            if t._ldt == BOOL:
                b = np.array([bool(v) for v in raw(t).reshape(-1).tolist()], dtype=bool).reshape(t.shape)
                out.append(b)
                ax += t.ndim
                continue
            if t._ldt.kind in 'iu':
                b = np.array([cindex(v, n) for v in raw(t).reshape(-1).tolist()], dtype=np.intp).reshape(t.shape)
                out.append(b)
                ax += 1
                continue
            if t.size == 0:
                out.append(np.zeros(t.shape, dtype=np.intp))
                ax += 1
                continue
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        if isinstance(t, SymBool) and not isinstance(idx, tuple):
            out.append(bool(t))
            continue
        if isinstance(t, slice):
            t = slice(*[None if v is None else int(v) for v in (t.start, t.stop, t.step)])
        elif is_sym(t):
            if isinstance(t, SymReal):
                raise IndexError('only integers are valid indices')
            t = cindex(t, n)
        out.append(t)
        ax += 1
    return tuple(out) if isinstance(idx, tuple) else out[0]


def _merging():
    return core.CUR is not None and core.CUR.merge


def _sym_index(a, idx):
    """(conditions per cell) if idx selects one cell with at least one symbolic number"""
    tup = idx if isinstance(idx, tuple) else (idx,)
    if len(tup) != a.ndim or a.ndim == 0:
        return None
    if not builtins.any(isinstance(t, (SymInt, SymBV)) for t in tup):
        return None
    if not builtins.all(isinstance(t, (SymInt, SymBV, int, np.integer)) and not isinstance(t, bool) for t in tup):
        return None
    sel = []
    for t, n in zip(tup, a.shape):
        if isinstance(t, SymBV):
            w, sg = core.bv64(t)
            if not ctx().branch(z3.And(w >= -n if sg else z3.ULT(w, n), w < n if sg else z3.ULT(w, n))):
                raise IndexError('index out of bounds for axis with size %d' % n)
            neg = sg and ctx().sat(z3.And(ctx().guards + [w < 0])) is not False
            sel.append([z3.simplify(z3.Or(w == j, w == j - n) if neg else w == j) for j in range(n)])
        elif isinstance(t, SymInt):
            if not ctx().branch(z3.And(t.e >= -n, t.e < n)):
                raise IndexError('index out of bounds for axis with size %d' % n)
            neg = ctx().sat(z3.And(ctx().guards + [t.e < 0])) is not False
            sel.append([z3.simplify(z3.Or(t.e == j, t.e == j - n) if neg else t.e == j) for j in range(n)])
        else:
            if not -n <= t < n:
                raise IndexError('index %d is out of bounds for axis with size %d' % (t, n))
            sel.append([z3.BoolVal(j == t % n) for j in range(n)])
    return sel


def _cells(a, sel):
    for ix in np.ndindex(*a.shape):
        e = z3.simplify(z3.And([s[j] for s, j in zip(sel, ix)]))
        if not z3.is_false(e):
            yield ix, e


def _sym_slices(a, idx):
    """window of fixed size at a symbolic place"""
    from . import merge
    tup = idx if isinstance(idx, tuple) else (idx,)
    if not builtins.all(isinstance(t, slice) for t in tup) or len(tup) > a.ndim or a.ndim > 2:
        return None
    if not builtins.any(is_sym(v) for t in tup for v in (t.start, t.stop)):
        return None
    win = []
    for t, n in zip(tup, a.shape):
        if not (is_sym(t.start) or is_sym(t.stop)):
            win.append(None)
            continue
        if t.step is not None or t.start is None or t.stop is None:
            return None
        if isinstance(t.start, SymBV) or isinstance(t.stop, SymBV):
            if isinstance(t.start, SymInt) or isinstance(t.stop, SymInt):
                return None
            s = core.bv64(t.start)[0]
            d = z3.simplify(core.bv64(t.stop)[0] - s)
        else:
            s = as_int_expr(t.start)
            d = z3.simplify(as_int_expr(t.stop) - s)
        if not (z3.is_int_value(d) or z3.is_bv_value(d)) or not 0 < d.as_long() <= n:
            return None
        if not ctx().branch(z3.And(s >= 0, s + d.as_long() <= n)):
            return None
        win.append((s, d.as_long()))
    o = raw(a)
    for ax, (w, t) in enumerate(zip(win, tup)):
        o = np.moveaxis(o, ax, 0)
        if w is None:
            o = o[t]
        else:
            s, ln = w
            r = np.empty((ln,) + o.shape[1:], dtype=object)
            for k in range(ln):
                for ix in np.ndindex(*o.shape[1:]):
                    v = None
                    for st in range(o.shape[0] - ln + 1):
                        x = o[(st + k,) + ix]
                        v = x if v is None else merge.ite_value(s == st, x, v)
                        if v is None:
                            return None
                    r[(k,) + ix] = v
            o = r
        o = np.moveaxis(o, 0, ax)
    return mk(o.copy(), a._ldt)


def _sym_read(a, idx):
    from . import merge
    r = _sym_slices(a, idx)
    if r is not None:
        return r
    sel = _sym_index(a, idx)
    if sel is None:
        if isinstance(idx, SArr) and a.ndim == 1 and idx._ldt is not None and idx._ldt.kind in 'iu' and builtins.any(is_sym(v) for v in raw(idx).reshape(-1).tolist()):
            r = np.empty(idx.shape, dtype=object)
            for ix in np.ndindex(*idx.shape):
                r[ix] = a[raw(idx)[ix]]
            return mk(r, a._ldt)
        return None
    r = None
    plain = raw(a)
    for ix, e in _cells(a, sel):
        v = plain[ix]
        r = v if r is None else merge.ite_value(e, v, r)
        if r is None:
            return None
    return scalar_out(r, a._ldt)


def _merged_write(a, idx, v):
    """assignment under guards or to a symbolic cell; True if done"""
    from . import merge
    c = core.CUR
    sel = None if isinstance(v, (np.ndarray, list, tuple)) and not (isinstance(v, np.ndarray) and v.ndim == 0) else _sym_index(a, idx)
    if sel is None and not c.guards:
        return False
    g = merge.gexpr() if c.guards else z3.BoolVal(True)
    dt = a._ldt
    plain = raw(a)
    if sel is not None:
        new = cast_scalar(v, dt) if dt is not None else v
        todo = []
        for ix, e in _cells(a, sel):
            w = merge.ite_value(z3.simplify(z3.And(g, e)), new, plain[ix])
            if w is None:
                break
            todo.append((ix, w))
        else:
            for ix, w in todo:
                plain[ix] = w
            return True
        if c.guards:
            c.decide_guards()
        return False
    ni = norm_index(idx, a.shape)
    pos = np.arange(a.size).reshape(a.shape)[ni]
    pos = np.asarray(pos)
    val = v if isinstance(v, np.ndarray) else (np_array(v) if isinstance(v, (list, tuple)) else None)
    if val is not None:
        vals = np.broadcast_to(raw(val if isinstance(val, SArr) else from_real(val)), pos.shape).reshape(-1).tolist()
    else:
        vals = [v] * pos.size
    todo = []
    for p, x in zip(pos.reshape(-1).tolist(), vals):
        ix = np.unravel_index(p, a.shape)
        w = merge.ite_value(g, cast_scalar(x, dt) if dt is not None else x, plain[ix])
        if w is None:
            c.decide_guards()
            return False
        todo.append((ix, w))
    for ix, w in todo:
        plain[ix] = w
    return True


class SArr(np.ndarray):
    """object array of symbolic/concrete scalars with a logical dtype"""

    def __array_finalize__(self, obj):
        self._ldt = getattr(obj, '_ldt', None)
        self._strided = getattr(obj, '_strided', False)

    @property
    def dtype(self):
        return self._ldt if self._ldt is not None else OBJ

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    @property
    def itemsize(self):
        return self.dtype.itemsize

    def __getitem__(self, idx):
        if isinstance(idx, str):
            raise IndexError('only integers, slices, ... are valid indices')
        if _merging():
            r = _sym_read(self, idx)
            if r is not None:
                return r
        ni = norm_index(idx, self.shape)
        r = np.ndarray.__getitem__(self, ni)
        if isinstance(r, np.ndarray):
            if r._strided and builtins.any(isinstance(t, (np.ndarray, list)) for t in (ni if isinstance(ni, tuple) else (ni,))):
                r._strided = False  # a copy
            return r
        return scalar_out(r, self._ldt)

    def __setitem__(self, idx, v):
        if _merging() and _merged_write(self, idx, v):
            return
        idx = norm_index(idx, self.shape)
        dt = self._ldt
        if isinstance(v, (list, tuple)):
            v = np_array(v)
        if isinstance(v, np.ndarray):
            o = raw(v) if isinstance(v, SArr) else raw(from_real(v))
            if dt is not None:
                o = cast_obj(o, dt)
            if o.ndim == 0 or o.size == 1 and _is_scalar_index(idx, self.ndim):  # an element of an object array is the value, not an array
                o = o.reshape(-1)[0]
                np.ndarray.__setitem__(self, idx, o)
                return
            np.ndarray.__setitem__(self, idx, o)
        else:
            if dt is not None:
                if dt.kind in 'fiub' and not (is_sym(v) or is_num(v)):
                    v = float(v) if dt.kind == 'f' else v
                v = cast_scalar(v, dt)
            if is_sym(v):
                o = np.empty((), dtype=object)
                o[()] = v
                np.ndarray.__setitem__(self, idx, o) if not _is_scalar_index(idx, self.ndim) else np.ndarray.__setitem__(self, idx, v)
            else:
                np.ndarray.__setitem__(self, idx, v)

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def tolist(self):
        return raw(self).tolist()

    def item(self, *a):
        if not a:
            if self.size != 1:
                raise ValueError('can only convert an array of size 1 to a Python scalar')
            return raw(self).reshape(-1)[0]
        return raw(self).item(*a)

    def __bool__(self):
        if self.size == 1:
            return bool(raw(self).reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __index__(self):
        if self.size == 1 and self.ndim == 0:
            return int(raw(self)[()])
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __int__(self):
        return int(self.item())

    def __float__(self):
        return float(self.item())

    def __contains__(self, v):
        return bool(np_any(self == v))

    def astype(self, dtype, copy=True, **k):
        dt = np.dtype(_dt(dtype))
        return mk(cast_obj(raw(self), dt), dt)

    def copy(self, order='C'):
        return mk(raw(self).copy(order='C'), self.dtype)

    def view(self, *a, **k):
        if not a and not k:
            return np.ndarray.view(self)
        t = a[0] if a else k.get('dtype', k.get('type'))
        if t is np.ndarray:
            return np.ndarray.view(self, np.ndarray)
        if isinstance(t, type) and issubclass(t, np.ndarray):
            return self
        if all_concrete(self):
            return from_real(to_real(self).view(_dt(t)))
        raise Unsupported('view of an array as %r' % (t,))

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_sum(self, axis=axis, dtype=dtype, keepdims=keepdims)

    def prod(self, axis=None, **k):
        return _reduce('multiply', self, axis, 1)

    def any(self, axis=None, **k):
        return np_any(self, axis)

    def all(self, axis=None, **k):
        return np_all(self, axis)

    def mean(self, axis=None, **k):
        return np_mean(self, axis=axis, **k)

    def min(self, axis=None, **k):
        return np_min(self, axis=axis, **k)

    def max(self, axis=None, **k):
        return np_max(self, axis=axis, **k)

    def std(self, axis=None, **k):
        return np_std(self, axis=axis, **k)

    def var(self, axis=None, **k):
        return np_var(self, axis=axis, **k)

    def cumsum(self, axis=None, **k):
        return np_cumsum(self, axis=axis, **k)

    def dot(self, o):
        return np_dot(self, o)

    def argsort(self, *a, **k):
        return np_argsort(self, *a, **k)

    def sort(self, axis=-1, **k):
        if self.ndim != 1:
            raise Unsupported('in-place sort of a multidimensional array')
        self[...] = np_sort(self)

    def argmin(self, axis=None, **k):
        return np_argmin(self, axis)

    def argmax(self, axis=None, **k):
        return np_argmax(self, axis)

    def nonzero(self):
        return np_nonzero(self)

    def searchsorted(self, v, side='left', sorter=None):
        return np_searchsorted(self, v, side=side, sorter=sorter)

    def round(self, decimals=0, **k):
        return np_around(self, decimals)

    def clip(self, lo=None, hi=None, **k):
        return np_clip(self, lo, hi)

    def trace(self, *a, **k):
        return np_sum(mk(np.diagonal(raw(self)).copy(), self.dtype))

    def repeat(self, n, axis=None):
        return np_repeat(self, n, axis)

    def take(self, i, axis=None, mode='raise', **k):
        return np_take(self, i, axis, mode=mode)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        name = ufunc.__name__
        name = {'divide': 'true_divide', 'conjugate': 'positive'}.get(name, name)
        if method == '__call__':
            return ufunc_call(name, *inputs, **kwargs)
        if method == 'reduce':
            return _ufunc_reduce(name, *inputs, **kwargs)
        if method == 'accumulate':
            if name == 'add':
                return np_cumsum(*inputs, **kwargs)
            if name == 'maximum':
                return np_maxacc(inputs[0])
        if method == 'at':
            return _ufunc_at(name, *inputs)
        if method == 'outer':
            a, b = asarr(inputs[0]), asarr(inputs[1])
            return ufunc_call(name, a.reshape(a.shape + (1,) * b.ndim), b)
        raise Unsupported('ufunc %s.%s' % (name, method))

    def __array_function__(self, func, types, args, kwargs):
        name = func.__name__
        mod = func.__module__ or ''
        if mod.endswith('linalg') or 'linalg' in mod:
            f = getattr(SHIM.linalg, name, None)
            if f is not None:
                return f(*args, **kwargs)
        return getattr(SHIM, name)(*args, **kwargs)

    def _ip(name):
        def f(self, o):
            return ufunc_call(name, self, o, out=(self,))
        return f

    __iadd__, __isub__, __imul__, __itruediv__ = _ip('add'), _ip('subtract'), _ip('multiply'), _ip('true_divide')
    __ifloordiv__, __imod__, __ipow__ = _ip('floor_divide'), _ip('remainder'), _ip('power')
    __iand__, __ior__, __ixor__, __ilshift__, __irshift__ = _ip('bitwise_and'), _ip('bitwise_or'), _ip('bitwise_xor'), _ip('left_shift'), _ip('right_shift')
    del _ip

    def __imatmul__(self, o):
        self[...] = np_matmul(self, o)
        return self

    def __eq__(self, o):
        return ufunc_call('equal', self, o)

    def __ne__(self, o):
        return ufunc_call('not_equal', self, o)

    __hash__ = None


def _is_scalar_index(idx, ndim):
    t = idx if isinstance(idx, tuple) else (idx,)
    return len(t) == ndim and builtins.all(isinstance(v, (int, np.integer)) and not isinstance(v, bool) for v in t)


# ---------------------------------------------------------------- structured arrays
class SDtypeError(Exception):
    pass


class SVoid(object):
    """reference to one row of a structured array"""
    __array_ufunc__ = None

    def __init__(self, arr, i):
        object.__setattr__(self, '_a', arr)
        object.__setattr__(self, '_i', i)

    @property
    def dtype(self):
        return self._a.dtype

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            k = self._a.dtype.names[k]
        if isinstance(k, list):
            return SVoid(self._a[k], self._i)
        return self._a._col(k)[self._i]

    def __setitem__(self, k, v):
        if isinstance(k, (int, np.integer)):
            k = self._a.dtype.names[k]
        self._a._col(k)[self._i] = v

    def __getattr__(self, k):
        if k.startswith('__') or k not in self._a.dtype.names:
            raise AttributeError(k)
        return self[k]

    def __setattr__(self, k, v):
        self[k] = v

    def __iter__(self):
        return iter([self[k] for k in self._a.dtype.names])

    def __len__(self):
        return len(self._a.dtype.names)

    def copy(self):
        a = SStruct.empty((1,), self._a.dtype)
        a[0] = self
        return a[0]

    def item(self):
        return tuple(self)

    def tolist(self):
        return tuple(self)

    def __eq__(self, o):
        if isinstance(o, SVoid) and o.dtype.names == self.dtype.names:
            return mk_bool(z3.And([as_bool_expr(asb(self[n] == o[n])) for n in self.dtype.names]))
        return NotImplemented

    __hash__ = None


def asb(v):
    return np_all(v) if isinstance(v, np.ndarray) else v


class SStruct(object):
    """structured array as columns"""
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, cols, dt, shape):
        self.__dict__['_c'] = cols
        self.__dict__['_nm'] = dt.names
        self.__dict__['_dt'] = dt
        self.__dict__['_shape'] = tuple(shape)

    @classmethod
    def empty(cls, shape, dt, fill=None):
        shape = (shape,) if isinstance(shape, (int, np.integer, SymInt)) else tuple(shape)
        shape = tuple(int(s) for s in shape)
        cols = {}
        for n in dt.names:
            f = dt.fields[n][0]
            sub = f.shape
            base = f.base
            o = np.empty(shape + sub, dtype=object)
            z = 0.0 if base.kind == 'f' else (False if base.kind == 'b' else ('' if base.kind == 'U' else (b'' if base.kind == 'S' else 0)))
            o.fill(z)
            cols[n] = mk(o, base)
        return cls(cols, dt, shape)

    @property
    def _cols(self):
        d = self.__dict__
        nm = d['_dt'].names
        if nm is not d['_nm'] and nm != d['_nm']:  # fields were renamed through dtype.names
            d['_c'] = {n: d['_c'][o] for n, o in zip(nm, d['_nm'])}
            d['_nm'] = nm
        return d['_c']

    @property
    def dtype(self):
        return self._dt

    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for s in self._shape:
            r *= s
        return r

    @property
    def nbytes(self):
        return self.size * self._dt.itemsize

    @property
    def flags(self):
        return np.zeros(1).flags

    def __len__(self):
        return self._shape[0]

    def _col(self, k):
        try:
            return self._cols[k]
        except KeyError:
            raise ValueError('no field of name %s' % k)

    def __getitem__(self, k):
        if isinstance(k, str):
            c = self._col(k)
            if len(self._dt.names) > 1:  # in memory the field is strided
                c = c.view()
                c._strided = True
            return c
        if isinstance(k, (list, tuple)) and len(k) and builtins.all(isinstance(v, str) for v in k):
            dt = np.dtype([(n, self._dt.fields[n][0]) for n in k])
            return SStruct({n: self._col(n) for n in k}, dt, self._shape)
        k = norm_index(k, self._shape)
        if len(self._shape) == 1 and isinstance(k, (int, np.integer)) and not isinstance(k, (bool, np.bool_)):
            if not -self._shape[0] <= k < self._shape[0]:
                raise IndexError('index %d is out of bounds for axis 0 with size %d' % (k, self._shape[0]))
            return SVoid(self, int(k))
        if isinstance(k, tuple) and _is_scalar_index(k, len(self._shape)):
            return SVoid(self, k)
        cols = {n: c[k] for n, c in self._cols.items()}
        shape = np.empty(self._shape, dtype=bool)[k].shape
        return SStruct(cols, self._dt, shape)

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self._col(k)[...] = v
            return
        if isinstance(k, list) and len(k) and builtins.all(isinstance(n, str) for n in k):
            for n, m in zip(k, v.dtype.names):
                self._col(n)[...] = v[m]
            return
        k = norm_index(k, self._shape)
        if isinstance(v, SVoid):
            vals = [v[n] for n in v.dtype.names]
            vals = [x.copy() if isinstance(x, np.ndarray) else x for x in vals]
            for n, x in zip(self._dt.names, vals):
                self._cols[n][k] = x
        elif isinstance(v, SStruct):
            vals = [v[n].copy() for n in v.dtype.names]
            for n, x in zip(self._dt.names, vals):
                self._cols[n][k] = x
        elif isinstance(v, np.ndarray) and not isinstance(v, SArr) and v.dtype.names:
            self[k] = from_real(v)
        elif isinstance(v, np.void):
            self[k] = tuple(v)
        elif isinstance(v, tuple):
            for n, x in zip(self._dt.names, v):
                self._cols[n][k] = x
        elif isinstance(v, list):
            self[k] = np_array(v, dtype=self._dt)
        elif is_num(v) or is_sym(v):
            for n in self._dt.names:
                self._cols[n][k] = v
        else:
            raise Unsupported('assignment of %r to a structured array' % type(v))

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        if k in self._cols:
            return self._cols[k]
        raise AttributeError(k)

    def __setattr__(self, k, v):
        if k in self._cols:
            self._cols[k][...] = v
        elif k == 'dtype':
            raise Unsupported('changing the dtype of a structured array')
        else:
            raise AttributeError(k)

    def __iter__(self):
        for i in range(self._shape[0]):
            yield self[i]

    def copy(self, order='C'):
        return SStruct({n: c.copy() for n, c in self._cols.items()}, self._dt, self._shape)

    def view(self, *a, **k):
        return self

    def astype(self, dt, **k):
        dt = np.dtype(dt)
        r = SStruct.empty(self._shape, dt)
        for n, m in zip(dt.names, self._dt.names):
            r._cols[n][...] = self._cols[m]
        return r

    def ravel(self, *a):
        return SStruct({n: c.reshape((self.size,) + self._dt.fields[n][0].shape) for n, c in self._cols.items()}, self._dt, (self.size,))

    flatten = ravel

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        s = np.empty(self._shape, dtype=bool).reshape(shape).shape
        return SStruct({n: c.reshape(s + self._dt.fields[n][0].shape) for n, c in self._cols.items()}, self._dt, s)

    @property
    def T(self):
        return SStruct({n: c.T for n, c in self._cols.items()}, self._dt, self._shape[::-1])

    def fill(self, v):
        for n in self._dt.names:
            self._cols[n][...] = v

    def tolist(self):
        return [tuple(r) for r in self]

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = self[np_argsort(self, order=order)].copy()

    def _cmp(self, o, op):
        if isinstance(o, SVoid):
            r = None
            for n in self._dt.names:
                t = self._cols[n] == o[n]
                r = t if r is None else ufunc_call('logical_and', r, t)
            return r if op else ufunc_call('logical_not', r)
        if isinstance(o, np.ndarray) and not isinstance(o, SArr):
            o = from_real(o)
        if not isinstance(o, SStruct):
            return NotImplemented
        r = None
        for n in self._dt.names:
            t = self._cols[n] == o._cols[n]
            r = t if r is None else ufunc_call('logical_and', r, t)
        return r if op else ufunc_call('logical_not', r)

    def __eq__(self, o):
        return self._cmp(o, True)

    def __ne__(self, o):
        return self._cmp(o, False)

    __hash__ = None


# ---------------------------------------------------------------- elementwise functions
def _both(f):
    return f


def _s_isnan(a):
    return False if is_sym(a) else bool(np.isnan(a))


def _s_isfinite(a):
    return True if is_sym(a) else bool(np.isfinite(a))


def _s_isinf(a):
    return False if is_sym(a) else bool(np.isinf(a))


def _nan(a):
    return not is_sym(a) and isinstance(a, (float, np.floating)) and math.isnan(a)


def _s_min(a, b):
    if _nan(a) or _nan(b):
        return float('nan')
    return a if not (b < a) else b


def _s_max(a, b):
    if _nan(a) or _nan(b):
        return float('nan')
    return a if not (b > a) else b


def _s_fmin(a, b):
    if _nan(a):
        return b
    if _nan(b):
        return a
    return a if not (b < a) else b


def _s_fmax(a, b):
    if _nan(a):
        return b
    if _nan(b):
        return a
    return a if not (b > a) else b


def _s_sign(a):
    if _nan(a):
        return a
    if a > 0:
        return 1
    if a < 0:
        return -1
    return 0


def _s_sqrt(a):
    return ctx().sqrt(a)


def _un(name):
    def f(a):
        return getattr(ctx(), name)(a)
    return f


def _s_arctan2(a, b):
    return ctx().arctan2(a, b)


def _inv(a):
    if isinstance(a, (SymBool, bool, np.bool_)):
        return ctx().neg(a)
    return ~a


def _logical(f):
    def g(a, b):
        return mk_bool(f(as_bool_expr(a), as_bool_expr(b)))
    return g


def _bitop(name, lf):
    def g(a, b):
        ab = isinstance(a, (SymBool, bool, np.bool_))
        bb = isinstance(b, (SymBool, bool, np.bool_))
        if ab and bb:
            return mk_bool(lf(as_bool_expr(a), as_bool_expr(b)))
        if isinstance(a, SymBool):
            a = mk_int(as_int_expr(a))
        if isinstance(b, SymBool):
            b = mk_int(as_int_expr(b))
        return {'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[name]()
    return g


def _s_hypot(a, b):
    return ctx().sqrt(a * a + b * b)


def _fl(f):
    def g(a):
        if is_sym(a):
            r = f(a)
            return r
        return f(a)
    return g


def _s_isclose(a, b):
    return ctx().close(a, b)


# name -> (function, result kind) ; result kind: 'same' promotion, 'float' at least float, 'bool'
UF = {
    'add': (lambda a, b: a + b, 'same'), 'subtract': (lambda a, b: a - b, 'same'), 'multiply': (lambda a, b: a * b, 'same'),
    'true_divide': (lambda a, b: _div(a, b), 'float'), 'floor_divide': (lambda a, b: a // b, 'same'), 'remainder': (lambda a, b: a % b, 'same'),
    'mod': (lambda a, b: a % b, 'same'), 'power': (lambda a, b: a ** b, 'same'), 'float_power': (lambda a, b: a ** b, 'float'),
    'negative': (lambda a: -a, 'same'), 'positive': (lambda a: a, 'same'), 'absolute': (lambda a: abs(a), 'same'), 'fabs': (lambda a: abs(a), 'float'),
    'sqrt': (_s_sqrt, 'float'), 'square': (lambda a: a * a, 'same'), 'reciprocal': (lambda a: _div(1.0, a), 'same'),
    'sin': (_un('sin'), 'float'), 'cos': (_un('cos'), 'float'), 'tan': (_un('tan'), 'float'),
    'arcsin': (_un('arcsin'), 'float'), 'arccos': (_un('arccos'), 'float'), 'arctan': (_un('arctan'), 'float'), 'arctan2': (_s_arctan2, 'float'),
    'log': (_un('log'), 'float'), 'hypot': (_s_hypot, 'float'), 'sign': (_s_sign, 'same'),
    'isnan': (_s_isnan, 'bool'), 'isfinite': (_s_isfinite, 'bool'), 'isinf': (_s_isinf, 'bool'),
    'less': (lambda a, b: a < b, 'bool'), 'less_equal': (lambda a, b: a <= b, 'bool'), 'greater': (lambda a, b: a > b, 'bool'),
    'greater_equal': (lambda a, b: a >= b, 'bool'), 'equal': (lambda a, b: a == b, 'bool'), 'not_equal': (lambda a, b: a != b, 'bool'),
    'logical_and': (_logical(z3.And), 'bool'), 'logical_or': (_logical(z3.Or), 'bool'), 'logical_xor': (_logical(z3.Xor), 'bool'),
    'logical_not': (lambda a: mk_bool(z3.Not(as_bool_expr(a))), 'bool'),
    'bitwise_and': (_bitop('and', z3.And), 'same'), 'bitwise_or': (_bitop('or', z3.Or), 'same'), 'bitwise_xor': (_bitop('xor', z3.Xor), 'same'),
    'invert': (_inv, 'same'), 'left_shift': (lambda a, b: a << b, 'same'), 'right_shift': (lambda a, b: a >> b, 'same'),
    'minimum': (_s_min, 'same'), 'maximum': (_s_max, 'same'), 'fmin': (_s_fmin, 'same'), 'fmax': (_s_fmax, 'same'),
    'floor': (lambda a: a.__floor__(), 'float'), 'ceil': (lambda a: a.__ceil__(), 'float'), 'trunc': (lambda a: a.__trunc__(), 'float'), 'fix': (lambda a: a.__trunc__(), 'float'),
    'nextafter': (lambda a, b: a, 'float'),  # exact numbers
    'rint': (lambda a: a.rint() if isinstance(a, SymReal) else a, 'float'),
    'deg2rad': (lambda a: a * (math.pi / 180), 'float'), 'rad2deg': (lambda a: a * (180 / math.pi), 'float'),
}


def _div(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all='ignore'):
            return (np.float64(a) / np.float64(b)).item()
    if isinstance(a, SymBool):
        a = mk_int(as_int_expr(a))
    if is_num(a) and is_sym(b):
        return b.__rtruediv__(a)
    return a / b


_REALUF = {}


def _real_ufunc(name):
    return getattr(np, {'mod': 'remainder'}.get(name, name))


def _kind_probe(v):
    """operand for np.result_type"""
    if isinstance(v, SArr):
        return v.dtype
    if isinstance(v, np.ndarray):
        return v.dtype
    if isinstance(v, np.generic):
        return v.dtype
    if isinstance(v, SymBool) or isinstance(v, bool):
        return BOOL
    if isinstance(v, SymInt):
        return 0
    if isinstance(v, SymBV):
        return np.dtype('%s%d' % ('int' if v.signed else 'uint', v.width))
    if isinstance(v, SymReal) or isinstance(v, Fraction):
        return 0.0
    return v


def result_dtype(kind, name, args):
    if kind == 'bool':
        return BOOL
    probes = [_kind_probe(v) for v in args]
    for p in probes:
        if isinstance(p, np.dtype) and p == OBJ:
            return OBJ
    if not builtins.any(isinstance(p, np.dtype) for p in probes):
        probes = [np.result_type(p) for p in probes]
    dt = np.result_type(*probes)
    if kind == 'float' and dt.kind in 'iub':
        return F64
    if kind == 'same' and dt.kind == 'b' and name in ('add', 'multiply', 'subtract', 'power', 'floor_divide', 'remainder'):
        if name in ('add', 'multiply'):
            return BOOL
        return I64
    if name in ('left_shift', 'right_shift') and dt.kind == 'b':
        return I64
    return dt


def _conc_ufunc(uf, vals, dts):
    with np.errstate(all='ignore'):
        r = uf(*[d.type(v) if (d is not None and d.kind not in 'OSU') else v for v, d in zip(vals, dts)])
    return r.item() if isinstance(r, np.generic) else r


def _plain(arrs):
    return builtins.all(set(map(type, a.reshape(-1).tolist())) <= {int, float, bool} for a in arrs)


def ufunc_call(name, *args, **kw):
    if name == 'matmul':
        return np_matmul(*args, **kw)
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    kw.pop('casting', None)
    kw.pop('dtype', None)
    if kw:
        raise Unsupported('ufunc option %s' % list(kw))
    if builtins.any(isinstance(a, (SStruct, SVoid)) for a in args):
        if name == 'equal':
            return args[0] == args[1]
        if name == 'not_equal':
            return args[0] != args[1]
        raise Unsupported('%s of structured arrays' % name)
    args = [np_array(a) if isinstance(a, (list, tuple, range)) else a for a in args]
    args = [a if isinstance(a, (SArr, np.generic)) or not isinstance(a, np.ndarray) else from_real(a) for a in args]
    if name not in UF:
        cc = builtins.all(not is_sym(a) and (not isinstance(a, SArr) or all_concrete(a)) for a in args)
        if cc:
            with np.errstate(all='ignore'):
                r = _real_ufunc(name)(*[to_real(a) if isinstance(a, SArr) else a for a in args])
            return from_real(r) if isinstance(r, np.ndarray) else r
        raise Unsupported('function %s of a symbolic value' % name)
    f, kind = UF[name]
    rdt = result_dtype(kind, name, args)
    uf = _real_ufunc(name)
    dts = []
    for a in args:
        p = _kind_probe(a)
        dts.append(p if isinstance(p, np.dtype) else None)
    objs = [raw(a) if isinstance(a, SArr) else a for a in args]
    is_array = builtins.any(isinstance(a, SArr) for a in args)
    # computations on machine integers: cast weak operands happens in the result
    def one(*vals):
        if not builtins.any(is_sym(v) for v in vals):
            if builtins.any(isinstance(v, Fraction) for v in vals):
                r = f(*vals)
            elif builtins.any(not is_num(v) for v in vals):
                r = f(*vals)
            else:
                r = _conc_ufunc(uf, [item(v) for v in vals], dts)
        else:
            try:
                r = f(*[item(v) for v in vals])
            except ZeroDivisionError:
                r = 0
        return cast_scalar(r, rdt) if rdt != OBJ else r
    if not is_array:
        return scalar_out(one(*objs), rdt)
    wrapped = []
    for o in objs:
        if isinstance(o, np.ndarray):
            wrapped.append(o)
        else:
            z = np.empty((), dtype=object)
            z[()] = o
            wrapped.append(z)
    bc = np.broadcast(*wrapped) if len(wrapped) > 1 else None
    shape = bc.shape if bc is not None else wrapped[0].shape
    if where is not True:
        w = asarr(where)
        shape = np.broadcast_shapes(shape, w.shape)
        wr = np.broadcast_to(raw(w), shape)
    res = np.empty(shape, dtype=object)
    bs = [np.broadcast_to(w_, shape) for w_ in wrapped]
    if isinstance(out, tuple):
        out = out[0]
    if where is True and res.size >= 256 and rdt.kind in 'iufb' and _plain(wrapped):
        # large and without symbolic values: numpy itself
        with np.errstate(all='ignore'):
            r = uf(*[np.array(w_.tolist(), dtype=d) if d is not None else w_[()] for w_, d in zip(wrapped, dts)])
        res = np.broadcast_to(r.astype(rdt).astype(object), shape)
        rest = ()
    else:
        rest = np.ndindex(*shape)
    for ix in rest:
        if where is not True and not wr[ix]:
            res[ix] = raw(out)[ix] if out is not None else 0
            continue
        v = one(*[b[ix] for b in bs])
        res[ix] = v
    if out is not None:
        if isinstance(out, SArr):
            if not np.can_cast(rdt, out.dtype, 'same_kind'):
                raise TypeError("Cannot cast ufunc '%s' output from %r to %r with casting rule 'same_kind'" % (name, rdt, out.dtype))
            out[...] = mk(res, rdt)
            return out
        raise Unsupported('out= of a plain array')
    if shape == ():
        return scalar_out(res[()], rdt)
    return mk(res, rdt)


def _ufunc_reduce(name, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if name == 'add':
        return np_sum(a, axis=axis, keepdims=keepdims)
    if name == 'logical_or':
        return np_any(a, axis)
    if name == 'logical_and':
        return np_all(a, axis)
    if name in ('maximum', 'minimum'):
        return (np_max if name == 'maximum' else np_min)(a, axis=axis)
    if name in ('multiply', 'bitwise_or', 'bitwise_and'):
        return _reduce(name, asarr(a), axis, {'multiply': 1, 'bitwise_or': 0, 'bitwise_and': -1}[name])
    raise Unsupported('reduce of ' + name)


def _ufunc_at(name, a, idx, *b):
    f = UF[name][0]
    idx = asarr(idx) if not isinstance(idx, tuple) else idx
    if isinstance(idx, tuple):
        ar = np.broadcast_arrays(*[raw(asarr(i)) for i in idx])
        it = list(zip(*[x.reshape(-1).tolist() for x in ar]))
    else:
        it = raw(idx).reshape(-1).tolist()
    bv = np.broadcast_to(raw(asarr(b[0])), (len(it),)) if b else None
    for k, i in enumerate(it):
        a[i] = f(a[i], bv[k]) if b else f(a[i])


# ---------------------------------------------------------------- construction
def _dt(t):
    if isinstance(t, ShimType):
        return t._t
    if t is float or t is None:
        return np.float64
    if t in (SymIntType,):
        return np.int64
    if isinstance(t, type) and issubclass(t, bool):
        return bool
    if isinstance(t, list):
        return np.dtype([(x[0], _dt(x[1])) + tuple(x[2:]) for x in t])
    return t


class SymIntType(object):
    pass


def asarr(a, dtype=None):
    if isinstance(a, SArr):
        return a if dtype is None or np.dtype(_dt(dtype)) == a.dtype else a.astype(dtype)
    if isinstance(a, SStruct):
        return a
    return np_array(a, dtype=dtype)


def np_array(a, dtype=None, copy=True, ndmin=0, order=None, subok=False, **k):
    if dtype is not None:
        dtype = np.dtype(_dt(dtype))
    if isinstance(a, SStruct):
        return a.astype(dtype) if dtype is not None and dtype != a.dtype else a.copy()
    if isinstance(a, SArr):
        r = a.astype(dtype) if dtype is not None else a.copy()
    elif isinstance(a, (np.ma.MaskedArray,)):
        raise Unsupported('masked array')
    elif isinstance(a, np.ndarray):
        r = from_real(a if dtype is None else a.astype(dtype))
        if isinstance(r, SStruct):
            return r
    elif dtype is not None and dtype.names:
        rows = list(a) if not isinstance(a, tuple) else [a]
        r = SStruct.empty((len(rows),), dtype)
        for i, x in enumerate(rows):
            r[i] = x
        return r[0] if isinstance(a, tuple) else r
    elif isinstance(a, (list, tuple, range)) or hasattr(a, '__next__') or isinstance(a, (map, filter, zip)) or type(a).__name__ in ('dict_values', 'dict_keys'):
        if not isinstance(a, (list, tuple, range)):
            if type(a).__name__ in ('dict_values', 'dict_keys'):
                a = list(a)
            else:
                raise Unsupported('array of an iterator')
        elems = list(a)
        if elems and builtins.any(isinstance(x, (SVoid, SStruct)) for x in elems):
            if isinstance(elems[0], SVoid):
                r = SStruct.empty((len(elems),), elems[0].dtype)
                for i, x in enumerate(elems):
                    r[i] = x
                return r
            raise Unsupported('array of structured arrays')
        if not _has_sym(elems):
            conv = [_unwrap(x) for x in elems]
            r = from_real(np.array(conv, dtype=dtype))
        else:
            parts = [asarr(x) if isinstance(x, (list, tuple, np.ndarray, range)) else x for x in elems]
            shapes = set(p.shape if isinstance(p, np.ndarray) else () for p in parts)
            if len(shapes) != 1:
                raise ValueError('setting an array element with a sequence. inhomogeneous shape')
            sh = shapes.pop()
            o = np.empty((len(parts),) + sh, dtype=object)
            dts = []
            for i, p in enumerate(parts):
                if isinstance(p, np.ndarray):
                    o[i] = raw(p) if sh != () else raw(p)[()]
                    dts.append(p.dtype)
                else:
                    o[i] = item(p)
                    pr = _kind_probe(p)
                    dts.append(pr if isinstance(pr, np.dtype) else np.result_type(pr))
            d = functools.reduce(np.promote_types, dts) if not builtins.any(x == OBJ for x in dts) else OBJ
            r = mk(cast_obj(o, d), d)
            if dtype is not None:
                r = r.astype(dtype)
    elif is_sym(a):
        o = np.empty((), dtype=object)
        o[()] = a
        pr = _kind_probe(a)
        r = mk(o, pr if isinstance(pr, np.dtype) else np.result_type(pr))
        if dtype is not None:
            r = r.astype(dtype)
    else:
        r = np.array(_unwrap(a), dtype=dtype)
        if isinstance(a, np.void):
            return a
        r = from_real(r)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _unwrap(x):
    if isinstance(x, SArr):
        return to_real(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_unwrap(v) for v in x)
    return x


def _has_sym(x):
    if isinstance(x, SArr):
        return not all_concrete(x)
    if isinstance(x, SStruct):
        return True
    if isinstance(x, SVoid):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(_has_sym(v) for v in x)
    if isinstance(x, dict):
        return builtins.any(_has_sym(v) for v in x.values())
    return is_sym(x)


def _shape(s):
    if isinstance(s, SArr):
        s = tuple(s.tolist())
    if isinstance(s, (int, np.integer, SymInt, SymBV)):
        s = (s,)
    return tuple(int(v) for v in s)


_ZERO = {'f': 0.0, 'b': False, 'i': 0, 'u': 0, 'O': 0, 'U': '', 'S': b''}


def np_full(shape, fill_value=None, dtype=None, order=None, **k):
    shape = _shape(shape)
    if dtype is None:
        p = _kind_probe(fill_value) if not isinstance(fill_value, (list, tuple, np.ndarray)) else asarr(fill_value).dtype
        dtype = p if isinstance(p, np.dtype) else np.result_type(p)
    dt = np.dtype(_dt(dtype))
    if dt.names:
        r = SStruct.empty(shape, dt)
        r[...] = fill_value
        return r
    o = np.empty(shape, dtype=object)
    r = mk(o, dt)
    r[...] = fill_value
    return r


def np_zeros(shape, dtype=float, order=None, **k):
    dt = np.dtype(_dt(dtype))
    if dt.names:
        return SStruct.empty(_shape(shape), dt)
    return np_full(shape, _ZERO[dt.kind], dt)


def np_ones(shape, dtype=float, order=None, **k):
    dt = np.dtype(_dt(dtype))
    if dt.names:
        return np_full(shape, 1, dt)
    return np_full(shape, True if dt.kind == 'b' else 1, dt)


class Garbage(object):
    """content of np.empty: reading it is an error of the code"""


def np_empty(shape, dtype=float, order=None, **k):
    """uninitialised memory: every element is an unconstrained value"""
    dt = np.dtype(_dt(dtype))
    if dt.names:
        r = SStruct.empty(_shape(shape), dt)
        for n in dt.names:
            b = dt.fields[n][0].base
            r._cols[n][...] = mk(_garbage(r._cols[n].shape, b), b)
        return r
    return mk(_garbage(_shape(shape), dt), dt)


def _garbage(shape, dt):
    from . import core
    o = np.empty(shape, dtype=object)
    if core.CUR is None:
        o.fill(_ZERO[dt.kind])
        return o
    c = core.CUR
    f = o.reshape(-1)
    for i in range(f.shape[0]):
        if c.x.fixed is not None:
            f[i] = _ZERO[dt.kind]
        elif dt.kind == 'f':
            f[i] = SymReal(c.fresh('garbage'))
        elif dt.kind == 'b':
            f[i] = SymBool(c.fresh('garbage', 'bool'))
        elif dt.kind in 'iu':
            v = c.fresh('garbage', 'int')
            n = 8 * dt.itemsize
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if dt.kind == 'i' else (0, (1 << n) - 1)
            c.add(v >= lo)
            c.add(v <= hi)
            f[i] = SymInt(v)
        else:
            f[i] = _ZERO[dt.kind]
    return f.reshape(shape)


def _like(fn):
    def g(a, dtype=None, order=None, subok=None, shape=None, **k):
        a = asarr(a)
        return fn(a.shape if shape is None else shape, dtype=a.dtype if dtype is None else dtype)
    return g


def np_full_like(a, fill_value, dtype=None, order=None, subok=None, shape=None):
    a = asarr(a)
    return np_full(a.shape if shape is None else shape, fill_value, a.dtype if dtype is None else dtype)


def np_arange(*a, **k):
    a = [int(v) if isinstance(v, (SymInt, SymBV)) else (v.item() if isinstance(v, SArr) else v) for v in a]
    k = {n: (_dt(v) if n == 'dtype' else (int(v) if isinstance(v, (SymInt, SymBV)) else v)) for n, v in k.items()}
    if builtins.any(isinstance(v, SymReal) for v in a):
        # number of elements: ceil((stop - start) / step)
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        n = _div(stop - start, step)
        n = int(n.__ceil__()) if is_sym(n) else int(math.ceil(n))
        n = builtins.max(n, 0)
        return np_array([start + i * step for i in range(n)]) if n else np_zeros(0)
    return from_real(np.arange(*a, **k))


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if not _has_sym(start) and not _has_sym(stop) and not retstep:
        return from_real(np.linspace(_unwrap(start), _unwrap(stop), num, endpoint=endpoint, dtype=_dt(dtype) if dtype is not None else None))
    n = (num - 1) if endpoint else num
    step = _div(stop - start, n) if n else float('nan')
    r = np_array([start + i * step for i in range(num)]) if num else np_zeros(0)
    return (r, step) if retstep else r


def np_eye(N, M=None, k=0, dtype=float, **kw):
    return from_real(np.eye(int(N), None if M is None else int(M), k, dtype=_dt(dtype)))


def np_asarray(a, dtype=None, order=None, **k):
    if isinstance(a, (SArr, SStruct)):
        return asarr(a, dtype) if dtype is not None else a
    return np_array(a, dtype)


def _contig(a, dtype=None, **k):
    r = np_asarray(a, dtype)
    if isinstance(r, SArr) and (r._strided or not raw(r).flags['C_CONTIGUOUS']):
        r = mk(raw(r).copy(), r.dtype)
    return r


def np_copy(a, **k):
    return asarr(a).copy()


# ---------------------------------------------------------------- structure
def _promote(arrs):
    dts = [a.dtype for a in arrs]
    if builtins.any(d == OBJ for d in dts):
        return OBJ
    return functools.reduce(np.promote_types, dts)


def _struct_fn(fn):
    """lift a structural function over a list of arrays"""
    def g(arrs, *a, **k):
        arrs = [asarr(x) for x in (list(arrs) if not isinstance(arrs, (SArr, SStruct)) else list(arrs))]
        k.pop('dtype', None)
        if builtins.any(isinstance(x, SStruct) for x in arrs):
            dt = next(x.dtype for x in arrs if isinstance(x, SStruct))
            arrs = [x for x in arrs if isinstance(x, SStruct) or x.size]
            cols = {}
            for n in dt.names:
                cols[n] = mk(fn([raw(x[n]) for x in arrs], *a, **k), dt.fields[n][0].base)
            return SStruct(cols, dt, cols[dt.names[0]].shape[:1])
        dt = _promote(arrs)
        r = fn([raw(x) for x in arrs], *a, **k)
        return mk(cast_obj(r, dt), dt)
    return g


np_concatenate = _struct_fn(np.concatenate)
np_stack = _struct_fn(np.stack)
np_vstack = _struct_fn(np.vstack)
np_hstack = _struct_fn(np.hstack)
np_column_stack = _struct_fn(np.column_stack)
np_dstack = _struct_fn(np.dstack)
np_row_stack = np_vstack


def _lift1(fn):
    def g(a, *args, **k):
        a = asarr(a)
        args = [int(v) if isinstance(v, SymInt) else v for v in args]
        if isinstance(a, SStruct):
            cols = {n: mk(fn(raw(a[n]), *args, **k), a.dtype.fields[n][0].base) for n in a.dtype.names}
            return SStruct(cols, a.dtype, cols[a.dtype.names[0]].shape)
        r = fn(raw(a), *args, **k)
        if isinstance(r, list):
            return [mk(x, a.dtype) for x in r]
        return mk(r, a.dtype) if isinstance(r, np.ndarray) else r
    return g


def np_append(arr, values, axis=None):
    arr, values = asarr(arr), asarr(values)
    if axis is None and not isinstance(arr, SStruct) and not isinstance(values, SStruct):
        arr, values, axis = arr.reshape(-1), values.reshape(-1), 0
    return np_concatenate((arr, values), axis=axis or 0)


def np_insert(arr, obj, values, axis=None):
    arr = asarr(arr)
    if isinstance(arr, SStruct):
        raise Unsupported('insert into structured array')
    obj = norm_index(obj, (arr.size + 1,)) if is_sym(obj) or isinstance(obj, SArr) else obj
    return mk(np.insert(raw(arr), obj, raw(asarr(values, arr.dtype)) if not is_sym(values) else values, axis=axis), arr.dtype)


def np_delete(arr, obj, axis=None):
    arr = asarr(arr)
    obj = norm_index(obj, arr.shape if axis is None else (arr.shape[axis],))
    return _lift1(np.delete)(arr, obj, axis=axis)


def np_repeat(a, repeats, axis=None):
    a = asarr(a)
    if isinstance(repeats, (SArr, list, tuple, np.ndarray)):
        repeats = np.array([int(v) for v in raw(asarr(repeats)).reshape(-1).tolist()], dtype=np.intp)
    else:
        repeats = int(repeats)
    return _lift1(np.repeat)(a, repeats, axis=axis)


def np_take(a, i, axis=None, mode='raise', **k):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    if mode == 'clip':
        if a.shape[axis] == 0:
            raise IndexError('cannot do a non-empty take from an empty axes.')
        i = np_clip(i, 0, a.shape[axis] - 1)
    elif mode != 'raise':
        raise Unsupported('np.take with mode %s' % mode)
    return a[(slice(None),) * axis + (i,)]


def np_where(c, *xy):
    c = asarr(c)
    if not xy:
        return np_nonzero(c)
    x, y = xy
    x, y = asarr(x) if not _scalar(x) else x, asarr(y) if not _scalar(y) else y
    probes = [_kind_probe(v) for v in (x, y)]
    if not builtins.any(isinstance(p, np.dtype) for p in probes):
        probes = [np.result_type(p) for p in probes]
    dt = OBJ if builtins.any(isinstance(p, np.dtype) and p == OBJ for p in probes) else np.result_type(*probes)
    xs, ys = [raw(v) if isinstance(v, SArr) else o_set(np.empty((), dtype=object), v) for v in (x, y)]
    shape = np.broadcast_shapes(c.shape, xs.shape, ys.shape)
    cb, xb, yb = [np.broadcast_to(v, shape) for v in (raw(c), xs, ys)]
    o = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        o[ix] = select(cb[ix], xb[ix], yb[ix])
    r = mk(cast_obj(o, dt), dt)
    return r


def _scalar(v):
    return is_sym(v) or is_num(v) or isinstance(v, (str, bytes))


def select(c, a, b):
    if not is_sym(c):
        return a if c else b
    if not is_sym(a) and not is_sym(b) and type(a) is type(b) and a == b:
        return a
    if is_special(a) or is_special(b) or ctx().x.nonlinear or isinstance(a, SymBV) or isinstance(b, SymBV):
        return a if c else b
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return mk_bool(z3.If(as_bool_expr(c), as_bool_expr(a), as_bool_expr(b)))
    return ctx().ite(c, a, b)


def np_nonzero(a):
    a = asarr(a)
    if _merging() and a.ndim and builtins.any(is_sym(v) for v in raw(a).reshape(-1).tolist()):
        return _nonzero_merged(a)
    b = np.array([bool(v) if not isinstance(v, (SymInt, SymReal, SymBV)) else bool(v) for v in raw(a).reshape(-1).tolist()], dtype=bool).reshape(a.shape)
    return tuple(from_real(x) for x in np.nonzero(b))


def _nonzero_merged(a):
    """forks only on the number of entries; the positions are symbolic"""
    c = core.CUR
    if c.guards:
        c.decide_guards()
    flat = [as_bool_expr(v) if isinstance(v, (bool, SymBool)) else as_bool_expr(v != 0) for v in raw(a).reshape(-1).tolist()]
    n = len(flat)
    w = max(1, (n - 1).bit_length())
    if n <= 16 or builtins.sum(1 for f in flat if not (z3.is_true(f) or z3.is_false(f))) <= 1:
        b = np.array([c.branch(f) for f in flat], dtype=bool).reshape(a.shape)
        return tuple(from_real(x) for x in np.nonzero(b))
    k = c.concretize_int(z3.Sum([z3.If(f, 1, 0) for f in flat]), limit=n + 1)
    idx = []
    for t in range(k):
        c.n += 1
        idx.append(z3.BitVec('nz!%d' % c.n, w))
    ids = [z3.BitVecVal(j, w) for j in range(n)]
    for t, i in enumerate(idx):
        if n < 1 << w:
            c.add(z3.ULT(i, z3.BitVecVal(n, w)))
        if t:
            c.add(z3.ULT(idx[t - 1], i))
    for j in range(n):
        c.add(flat[j] == z3.Or([i == ids[j] for i in idx]) if idx else z3.Not(flat[j]))
    out = []
    stride = n
    for m in a.shape:
        stride //= m
        o = np.empty(k, dtype=object)
        for t, i in enumerate(idx):
            x = z3.ZeroExt(64 - w, i)
            x = z3.URem(z3.UDiv(x, z3.BitVecVal(stride, 64)), z3.BitVecVal(m, 64)) if stride & (stride - 1) or m & (m - 1) else (z3.LShR(x, z3.BitVecVal(stride.bit_length() - 1, 64)) & z3.BitVecVal(m - 1, 64))
            o[t] = core.mk_bv(x, True)
        out.append(mk(o, np.dtype(np.int64)))
    return tuple(out)


def np_flatnonzero(a):
    return np_nonzero(asarr(a).reshape(-1))[0]


def np_argwhere(a):
    r = np_nonzero(a)
    return np_column_stack(r)


# ---------------------------------------------------------------- reductions
def _axis_apply(a, axis, fn, ldt, keepdims=False):
    """apply fn(list of elements) along an axis"""
    r = raw(a)
    if axis is None:
        v = fn(r.reshape(-1).tolist())
        if keepdims:
            o = np.empty((1,) * r.ndim, dtype=object)
            o[...] = v
            return mk(o, ldt)
        return scalar_out(cast_scalar(v, ldt) if ldt != OBJ else v, ldt)
    if isinstance(axis, tuple):
        ax = [x % r.ndim for x in axis]
        rest = [i for i in range(r.ndim) if i not in ax]
        r = r.transpose(rest + ax)
        r = r.reshape([r.shape[i] for i in range(len(rest))] + [-1])
        axis = r.ndim - 1
    m = np.moveaxis(r, axis, -1)
    o = np.empty(m.shape[:-1], dtype=object)
    for ix in np.ndindex(*o.shape):
        v = fn(m[ix].tolist())
        o[ix] = cast_scalar(v, ldt) if ldt != OBJ else v
    if keepdims:
        o = np.expand_dims(o, axis)
    if o.shape == ():
        return scalar_out(o[()], ldt)
    return mk(o, ldt)


def _fsum(vs):
    t = 0
    vs = [mk_int(as_int_expr(v)) if isinstance(v, SymBool) else v for v in vs]
    if vs and not builtins.any(is_sym(v) for v in vs):
        return builtins.sum(vs)
    for v in vs:
        t = t + v
    return t


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **k):
    if isinstance(a, (list, tuple)) and not a:
        return 0.0
    if isinstance(a, MaArr):
        bad = np_any(np_all(a.mask, axis=axis))
        if is_sym(bad) or bad:
            raise Unsupported('sum of a masked array without valid entries')
        a = np_where(a.mask, 0, a.data)
    a = asarr(a)
    dt = a.dtype
    if dt.kind == 'b':
        dt = I64
    elif dt.kind in 'iu' and dt.itemsize < 8:
        dt = I64 if dt.kind == 'i' else np.dtype(np.uint64)
    if dtype is not None:
        dt = np.dtype(_dt(dtype))
    if where is not True:
        a = np_where(where, a, 0)
    r = _axis_apply(a, axis, _fsum, dt, keepdims)
    if out is not None:
        out[...] = r
        return out
    return r


def _reduce(name, a, axis, init):
    f = UF[name][0]
    return _axis_apply(asarr(a), axis, lambda vs: functools.reduce(f, vs) if vs else init, asarr(a).dtype if asarr(a).dtype.kind != 'b' else I64)


def np_any(a, axis=None, out=None, keepdims=False, **k):
    return _axis_apply(asarr(a), axis, lambda vs: mk_bool(z3.Or([as_bool_expr(v) for v in vs] or [z3.BoolVal(False)])), BOOL, keepdims)


def np_all(a, axis=None, out=None, keepdims=False, **k):
    return _axis_apply(asarr(a), axis, lambda vs: mk_bool(z3.And([as_bool_expr(v) for v in vs] or [z3.BoolVal(True)])), BOOL, keepdims)


def np_count_nonzero(a, axis=None, keepdims=False):
    return _axis_apply(asarr(a), axis, lambda vs: mk_int(z3.Sum([z3.If(as_bool_expr(v), 1, 0) for v in vs])) if vs else 0, I64, keepdims)


def _np_ext(cmp):
    def g(a, axis=None, out=None, keepdims=False, initial=None, **k):
        a = asarr(a)

        def fn(vs):
            if not vs:
                raise ValueError('zero-size array to reduction operation which has no identity')
            return functools.reduce(_s_min if cmp == 'min' else _s_max, vs)
        return _axis_apply(a, axis, fn, a.dtype, keepdims)
    return g


np_min = _np_ext('min')
np_max = _np_ext('max')


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarr(a)
    dt = F64 if a.dtype.kind in 'iub' else a.dtype
    return _axis_apply(a, axis, lambda vs: _div(_fsum(vs), len(vs)), dt, keepdims)


def np_average(a, axis=None, weights=None, returned=False, **k):
    a = asarr(a)
    if weights is None:
        return np_mean(a, axis)
    w = asarr(weights)
    if w.shape != a.shape:
        if axis is None:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        if w.ndim != 1:
            raise TypeError('1D weights expected when shapes of a and weights differ.')
        if w.shape[0] != a.shape[axis]:
            raise ValueError('Length of weights not compatible with specified axis.')
        w = w.reshape(tuple(-1 if i == axis % a.ndim else 1 for i in range(a.ndim)))
        if not bool(np_sum(w) == 0):
            r = ufunc_call('true_divide', np_sum(ufunc_call('multiply', a, w), axis), np_sum(w))
            return (r, np_sum(w)) if returned else r
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    sw = np_sum(w, axis)
    r = ufunc_call('true_divide', np_sum(ufunc_call('multiply', a, w), axis), sw)
    if not isinstance(sw, np.ndarray) and bool(sw == 0):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    return (r, sw) if returned else r


def np_var(a, axis=None, ddof=0, **k):
    a = asarr(a)

    def fn(vs):
        m = _div(_fsum(vs), len(vs))
        return _div(_fsum([(v - m) * (v - m) for v in vs]), len(vs) - ddof)
    return _axis_apply(a, axis, fn, F64)


def np_std(a, axis=None, ddof=0, **k):
    return ufunc_call('sqrt', np_var(a, axis, ddof))


def _nanskip(fn):
    def g(a, axis=None, **k):
        a = asarr(a)
        dt = F64 if a.dtype.kind in 'iub' and fn in (_mean_l,) else a.dtype

        def h(vs):
            vs = [v for v in vs if not _nan(v)]
            return fn(vs)
        return _axis_apply(a, axis, h, dt)
    return g


def _mean_l(vs):
    return _div(_fsum(vs), len(vs)) if vs else float('nan')


np_nanmean = _nanskip(_mean_l)
np_nansum = _nanskip(_fsum)
np_nanmin = _nanskip(lambda vs: functools.reduce(_s_min, vs) if vs else float('nan'))
np_nanmax = _nanskip(lambda vs: functools.reduce(_s_max, vs) if vs else float('nan'))


def _nanarg(f, name):
    def g(a, axis=None, **k):
        a = asarr(a)

        def h(vs):
            best = None
            for i, v in enumerate(vs):
                if _nan(v):
                    continue
                if best is None or bool(f(v, vs[best])):
                    best = i
            if best is None:
                raise ValueError('All-NaN slice encountered')
            return best
        return _axis_apply(a, axis, h, I64)
    return g


np_nanargmin = _nanarg(lambda v, b: v < b, 'nanargmin')
np_nanargmax = _nanarg(lambda v, b: v > b, 'nanargmax')


def np_cumsum(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    dt = I64 if a.dtype.kind == 'b' else a.dtype
    if a.dtype.kind in 'iu' and a.dtype.itemsize < 8:
        dt = I64 if a.dtype.kind == 'i' else np.dtype(np.uint64)
    if dtype is not None:
        dt = np.dtype(_dt(dtype))

    def acc(vs):
        out = []
        t = None
        for v in vs:
            if isinstance(v, SymBool):
                v = mk_int(as_int_expr(v))
            t = (v if not isinstance(v, bool) else int(v)) if t is None else cast_scalar(t + v, dt)
            out.append(t)
        return out
    if axis is None or a.ndim == 1:
        vs = acc(raw(a).reshape(-1).tolist())
        o = np.empty(len(vs), dtype=object)
        for i, v in enumerate(vs):
            o[i] = v
        return mk(cast_obj(o, dt), dt)
    m = np.moveaxis(raw(a), axis, -1)
    o = np.empty(m.shape, dtype=object)
    for ix in np.ndindex(*m.shape[:-1]):
        for j, v in enumerate(acc(m[ix].tolist())):
            o[ix + (j,)] = cast_scalar(v, dt)
    return mk(np.ascontiguousarray(np.moveaxis(o, -1, axis)), dt)


def np_maxacc(a):
    a = asarr(a)
    out, t = [], None
    for v in raw(a).tolist():
        t = v if t is None else _s_max(t, v)
        out.append(t)
    return np_array(out, dtype=a.dtype) if out else a.copy()


def np_diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    for _ in range(n):
        ax = axis % a.ndim
        s1 = (slice(None),) * ax + (slice(1, None),)
        s0 = (slice(None),) * ax + (slice(None, -1),)
        a = ufunc_call('not_equal' if a.dtype == BOOL else 'subtract', a[s1], a[s0])
    return a


def np_ediff1d(a, to_end=None, to_begin=None):
    r = np_diff(asarr(a).reshape(-1))
    parts = ([asarr(to_begin).reshape(-1)] if to_begin is not None else []) + [r] + ([asarr(to_end).reshape(-1)] if to_end is not None else [])
    return np_concatenate(parts) if len(parts) > 1 else r


# ---------------------------------------------------------------- linear algebra
def _pair(a, b):
    a, b = asarr(a), asarr(b)
    dt = np.promote_types(a.dtype, b.dtype) if OBJ not in (a.dtype, b.dtype) else OBJ
    return a, b, dt


def _wrap(r, dt):
    if isinstance(r, np.ndarray):
        return mk(r if r.dtype == OBJ else r.astype(object), dt)
    return scalar_out(r, dt)


def np_matmul(a, b, out=None, **k):
    a, b, dt = _pair(a, b)
    A, B = raw(a), raw(b)
    va, vb = A.ndim == 1, B.ndim == 1
    if va:
        A = A.reshape(1, -1)
    if vb:
        B = B.reshape(-1, 1)
    if A.ndim == 0 or B.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if A.shape[-1] != B.shape[-2]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension')
    lead = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, lead + A.shape[-2:])
    B = np.broadcast_to(B, lead + B.shape[-2:])
    o = np.empty(lead + (A.shape[-2], B.shape[-1]), dtype=object)
    for ix in np.ndindex(*lead):
        for i in range(A.shape[-2]):
            for j in range(B.shape[-1]):
                t = 0.0 if dt.kind == 'f' else 0
                for n in range(A.shape[-1]):
                    t = _add(t, _mul(A[ix + (i, n)], B[ix + (n, j)]))
                o[ix + (i, j)] = t
    if va:
        o = o[..., 0, :]
    if vb:
        o = o[..., 0]
    if not isinstance(o, np.ndarray) or o.ndim == 0:
        return scalar_out(o if not isinstance(o, np.ndarray) else o[()], dt)
    r = mk(cast_obj(o, dt), dt)
    if out is not None:
        out = out[0] if isinstance(out, tuple) else out
        out[...] = r
        return out
    return r


def _mul(a, b):
    return a * b


def _add(a, b):
    return a + b


def np_dot(a, b, out=None):
    a, b, dt = _pair(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return ufunc_call('multiply', a, b)
    if b.ndim <= 2:
        return np_matmul(a, b)
    raise Unsupported('dot with %d dimensions' % b.ndim)


def np_inner(a, b):
    a, b, dt = _pair(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return ufunc_call('multiply', a, b)
    if b.ndim == 1:
        return np_matmul(a, b)
    if b.ndim == 2:
        r = np_matmul(a, b.T)
        return r
    raise Unsupported('inner')


def np_outer(a, b, **k):
    a, b = asarr(a).reshape(-1), asarr(b).reshape(-1)
    return ufunc_call('multiply', a.reshape(-1, 1), b)


def lin_multi_dot(arrays, out=None):
    return functools.reduce(np_dot, list(arrays))


def lin_matrix_power(a, n):
    a = asarr(a)
    if n < 0:
        a, n = lin_inv(a), -n
    r = np_eye(a.shape[-1])
    for _ in range(n):
        r = np_matmul(r, a)
    return r


def np_divmod(a, b):
    return ufunc_call('floor_divide', a, b), ufunc_call('remainder', a, b)


def np_modf(a):
    t = ufunc_call('trunc', a)
    return ufunc_call('subtract', a, t), t


def np_vdot(a, b):
    return np_dot(asarr(a).reshape(-1), asarr(b).reshape(-1))


def np_kron(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported('kron')
    r = ufunc_call('multiply', a.reshape((a.shape[0], 1, a.shape[1], 1)), b.reshape((1, b.shape[0], 1, b.shape[1])))
    return r.reshape((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))


def np_tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, int):
        axes = (list(range(a.ndim - axes, a.ndim)), list(range(axes)))
    xa, xb = [[v] if isinstance(v, int) else list(v) for v in axes]
    xa, xb = [v % a.ndim for v in xa], [v % b.ndim for v in xb]
    la, lb = 'abcdefgh'[:a.ndim], list('ijklmnop'[:b.ndim])
    for i, j in zip(xa, xb):
        lb[j] = la[i]
    out = ''.join(l for i, l in enumerate(la) if i not in xa) + ''.join(l for j, l in enumerate(lb) if j not in xb)
    return np_einsum('%s,%s->%s' % (la, ''.join(lb), out), a, b)


def np_ptp(a, axis=None):
    return np_max(a, axis=axis) - np_min(a, axis=axis)


def np_einsum(spec, *ops, **k):
    ops = [asarr(o) for o in ops]
    dt = functools.reduce(np.promote_types, [o.dtype for o in ops])
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, outs = spec.split('->')
    else:
        ins = spec
        letters = ''.join(c for c in ins if c.isalpha())
        outs = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
        if '...' in ins:
            outs = '...' + outs
    ins = ins.split(',')
    if '...' in spec:
        nell = builtins.max(o.ndim - len(i.replace('...', '')) for i, o in zip(ins, ops))
        ell = 'ABCDEFGH'[:nell]
        ins = [i.replace('...', ell[nell - (o.ndim - len(i.replace('...', ''))):]) if '...' in i else i for i, o in zip(ins, ops)]
        outs = outs.replace('...', ell)
    dim = {}
    for i, o in zip(ins, ops):
        if len(i) != o.ndim:
            raise ValueError('einstein sum subscripts do not match operand dimensions')
        for c, n in zip(i, o.shape):
            if c in dim and dim[c] != n and 1 not in (dim[c], n):
                raise ValueError('operands could not be broadcast together')
            dim[c] = builtins.max(dim.get(c, n), n) if dim.get(c, n) != 0 and n != 0 else 0
    summed = [c for c in dim if c not in outs]
    rs = [raw(o) for o in ops]
    res = np.empty([dim[c] for c in outs], dtype=object)
    for oi in np.ndindex(*res.shape):
        env = dict(zip(outs, oi))
        t = 0.0 if dt.kind == 'f' else 0
        for si in np.ndindex(*[dim[c] for c in summed]):
            env.update(zip(summed, si))
            p = None
            for i, r in zip(ins, rs):
                v = r[tuple(env[c] if r.shape[n] != 1 else 0 for n, c in enumerate(i))]
                p = v if p is None else _mul(p, v)
            t = _add(t, p)
        res[oi] = t
    if res.shape == ():
        return scalar_out(res[()], dt)
    return mk(cast_obj(res, dt), dt)


def np_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = asarr(a), asarr(b)
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported('cross of 2-vectors')
    a0, a1, a2 = a[..., 0], a[..., 1], a[..., 2]
    b0, b1, b2 = b[..., 0], b[..., 1], b[..., 2]
    r = [a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0]
    if not isinstance(r[0], np.ndarray):
        return np_array(r)
    return np_stack(r, axis=-1)


def lin_norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x)
    if ord not in (None, 2, 'fro') or (ord == 2 and x.ndim == 2 and axis is None):
        raise Unsupported('norm of order %r' % (ord,))
    return ufunc_call('sqrt', np_sum(ufunc_call('multiply', x, x), axis=axis, keepdims=keepdims))


def _det(m):
    n = len(m)
    if n == 0:
        return 1.0
    if n == 1:
        return m[0][0]
    t = 0.0
    for j in range(n):
        minor = [[r[k] for k in range(n) if k != j] for r in m[1:]]
        p = m[0][j] * _det(minor)
        t = t + p if j % 2 == 0 else t - p
    return t


def lin_det(a):
    a = asarr(a)
    if a.ndim == 2:
        return scalar_out(_det(raw(a).tolist()), F64)
    return mk(np.array([_det(x) for x in raw(a).reshape((-1,) + a.shape[-2:]).tolist()] + [None], dtype=object)[:-1].reshape(a.shape[:-2]), F64)


def _inv_list(m):
    n = len(m)
    d = _det(m)
    if bool(d == 0):
        raise np.linalg.LinAlgError('Singular matrix')
    r = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [[m[p][q] for q in range(n) if q != i] for p in range(n) if p != j]
            v = _det(minor)
            if (i + j) % 2:
                v = -v
            r[i][j] = _div(v, d)
    return r


def lin_inv(a):
    a = asarr(a)
    if a.shape[-1] != a.shape[-2]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    o = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape[:-2]):
        r = _inv_list(raw(a)[ix].tolist())
        for i in range(len(r)):
            for j in range(len(r)):
                o[ix + (i, j)] = r[i][j]
    return mk(o, F64)


def lin_solve(a, b):
    return np_matmul(lin_inv(a), b)


# ---------------------------------------------------------------- ordering
def _lt(a, b):
    """numpy ordering: nan last"""
    if _nan(a):
        return False
    if _nan(b):
        return True
    return bool(a < b)


def _key(vs):
    def cmp(i, j):
        a, b = vs[i], vs[j]
        if isinstance(a, tuple):
            for x, y in zip(a, b):
                if _lt(x, y):
                    return -1
                if _lt(y, x):
                    return 1
            return 0
        if _lt(a, b):
            return -1
        if _lt(b, a):
            return 1
        return 0
    return functools.cmp_to_key(cmp)


def _argsort_list(vs):
    if not builtins.any(_has_sym(v) for v in vs) and vs and not isinstance(vs[0], tuple):
        return np.argsort(np.array(vs), kind='stable').tolist()
    return sorted(range(len(vs)), key=_key(vs))


def np_argsort(a, axis=-1, kind=None, order=None, **k):
    a = asarr(a)
    if isinstance(a, SStruct):
        names = list(a.dtype.names) if order is None else ([order] if isinstance(order, str) else list(order))
        names = names + [n for n in a.dtype.names if n not in names]
        return from_real(np.array(_argsort_list([tuple(a[n][i] for n in names) for i in range(a.shape[0])]), dtype=np.intp))
    if a.ndim == 1 or axis is None:
        return from_real(np.array(_argsort_list(raw(a).reshape(-1).tolist()), dtype=np.intp))
    m = np.moveaxis(raw(a), axis, -1)
    o = np.empty(m.shape, dtype=object)
    for ix in np.ndindex(*m.shape[:-1]):
        o[ix] = np.array(_argsort_list(m[ix].tolist()) + [None], dtype=object)[:-1]
    return mk(np.moveaxis(o, -1, axis), I64)


def np_sort(a, axis=-1, kind=None, order=None, **k):
    a = asarr(a)
    if isinstance(a, SStruct):
        return a[np_argsort(a, order=order)]
    if a.ndim == 1 or axis is None:
        f = a.reshape(-1)
        return f[np_argsort(f)]
    m = np.moveaxis(raw(a), axis, -1)
    o = np.empty(m.shape, dtype=object)
    for ix in np.ndindex(*m.shape[:-1]):
        l = m[ix].tolist()
        for j, i in enumerate(_argsort_list(l)):
            o[ix + (j,)] = l[i]
    return mk(np.ascontiguousarray(np.moveaxis(o, -1, axis)), a.dtype)


def np_lexsort(keys, axis=-1):
    ks = [raw(asarr(k)).tolist() for k in keys]
    vs = list(zip(*reversed(ks)))
    return from_real(np.array(_argsort_list(vs), dtype=np.intp))


def _arg(cmp):
    def g(a, axis=None, out=None, keepdims=False, **k):
        a = asarr(a)

        def fn(vs):
            if not vs:
                raise ValueError('attempt to get %s of an empty sequence' % cmp)
            best = 0
            for i in range(1, len(vs)):
                if _nan(vs[best]):
                    break
                if _nan(vs[i]):
                    best = i
                    continue
                x, y = vs[i], vs[best]
                if isinstance(x, (SymBool, bool)) and isinstance(y, (SymBool, bool)):
                    x, y = as_int_b(x), as_int_b(y)
                if bool(x > y if cmp == 'argmax' else x < y):
                    best = i
            return best
        return _axis_apply(a, axis, fn, I64)
    return g


def as_int_b(v):
    return mk_int(as_int_expr(v)) if is_sym(v) else int(v)


np_argmin = _arg('argmin')
np_argmax = _arg('argmax')


def _bisect(vs, v, side):
    lo, hi = 0, len(vs)
    while lo < hi:
        mid = lo + (hi - lo) // 2
        if (_lt(vs[mid], v) if side == 'left' else not _lt(v, vs[mid])):
            lo = mid + 1
        else:
            hi = mid
    return lo


def np_searchsorted(a, v, side='left', sorter=None):
    a = asarr(a)
    if sorter is not None:
        a = a[sorter]
    vs = raw(a).tolist()
    if _scalar(v) or isinstance(v, np.generic):
        return np.int64(_bisect(vs, item(v), side))
    v = asarr(v)
    o = np.empty(v.shape, dtype=object)
    for ix in np.ndindex(*v.shape):
        o[ix] = _bisect(vs, raw(v)[ix], side)
    return mk(o, I64)


def np_digitize(x, bins, right=False):
    bins = asarr(bins)
    bl = raw(bins).tolist()
    if len(bl) > 1 and bool(bl[0] > bl[-1]):
        raise Unsupported('digitize with decreasing bins')
    return np_searchsorted(bins, x, side='left' if right else 'right')


def _eqv(a, b):
    if isinstance(a, tuple):
        return builtins.all(_eqv(x, y) for x, y in zip(a, b))
    if _nan(a) and _nan(b):
        return True
    return bool(a == b)


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if axis is not None:
        raise Unsupported('unique along an axis')
    a = asarr(a)
    if isinstance(a, SStruct):
        vs = [tuple(r) for r in a]
        flat = a
    else:
        flat = a.reshape(-1)
        vs = raw(flat).tolist()
    order = _argsort_list(vs)
    first, inv, counts = [], [0] * len(vs), []
    for i in order:
        if first and _eqv(vs[first[-1]], vs[i]):
            counts[-1] += 1
        else:
            first.append(i)
            counts.append(1)
        inv[i] = len(first) - 1
    fi = from_real(np.array(first, dtype=np.intp))
    res = [flat[fi]]
    if return_index:
        res.append(fi)
    if return_inverse:
        res.append(from_real(np.array(inv, dtype=np.intp).reshape(a.shape)))
    if return_counts:
        res.append(from_real(np.array(counts, dtype=np.intp)))
    return res[0] if len(res) == 1 else tuple(res)


def np_isin(ar1, ar2, assume_unique=False, invert=False, **k):
    a = asarr(ar1)
    b = asarr(ar2)
    bl = [tuple(r) for r in b] if isinstance(b, SStruct) else raw(b).reshape(-1).tolist()

    def eq(v, w):
        if isinstance(v, tuple):
            return z3.And([as_bool_expr(x == y) for x, y in zip(v, w)])
        return as_bool_expr(v == w)
    al = [tuple(r) for r in a] if isinstance(a, SStruct) else raw(a).reshape(-1).tolist()
    o = np.empty(len(al), dtype=object)
    for i, v in enumerate(al):
        e = z3.Or([eq(v, w) for w in bl] or [z3.BoolVal(False)])
        o[i] = mk_bool(z3.Not(e) if invert else e)
    return mk(o.reshape(a.shape), BOOL)


def np_in1d(a, b, **k):
    return np_isin(asarr(a).ravel(), b, **k)


def np_intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices:
        a, ia = np_unique(a, return_index=True)
        b, ib = np_unique(b, return_index=True)
        sel = np_isin(a, b)
        selb = np_isin(b, a)
        return a[sel], ia[sel], ib[selb]
    a, b = np_unique(a), np_unique(b)
    return a[np_isin(a, b)]


def np_union1d(a, b):
    return np_unique(np_concatenate((asarr(a).reshape(-1), asarr(b).reshape(-1))))


def np_setdiff1d(a, b, assume_unique=False):
    a = np_unique(a) if not assume_unique else asarr(a).reshape(-1)
    return a[np_isin(a, b, invert=True)]


def np_bincount(x, weights=None, minlength=0):
    x = asarr(x)
    if x.dtype.kind == 'f':
        raise TypeError('Cannot cast array data from float64 to int64 according to the rule safe')
    vs = [int(v) for v in raw(x).tolist()]
    if builtins.any(v < 0 for v in vs):
        raise ValueError("'list' argument must have no negative elements")
    n = builtins.max([v + 1 for v in vs] + [int(minlength)])
    if weights is None:
        return from_real(np.bincount(np.array(vs, dtype=np.int64), minlength=n) if vs else np.zeros(n, dtype=np.int64))
    o = [0.0] * n
    for v, w in zip(vs, raw(asarr(weights)).tolist()):
        o[v] = o[v] + w
    return np_array(o, dtype=float)


def np_histogram(a, bins=10, range=None, weights=None, density=None):
    a = asarr(a)
    vs = raw(a).reshape(-1).tolist()
    if isinstance(bins, str):
        raise Unsupported('automatic bins')
    if isinstance(bins, (int, np.integer, SymInt)):
        n = int(bins)
        if range is None:
            lo, hi = (np_min(a), np_max(a)) if vs else (0.0, 1.0)
        else:
            lo, hi = range
        if bool(lo == hi):
            lo, hi = lo - 0.5, hi + 0.5
        edges = np_linspace(lo, hi, n + 1)
    else:
        edges = asarr(bins)
    el = raw(edges).tolist()
    n = len(el) - 1
    counts = [0] * n
    ws = raw(asarr(weights)).reshape(-1).tolist() if weights is not None else None
    for k, v in enumerate(vs):
        i = _bin_of(v, el)
        if i is not None:
            counts[i] = counts[i] + (1 if ws is None else ws[k])
    if density:
        tot = _fsum(counts)
        r = np_array([_div(_div(cn, tot), el[i + 1] - el[i]) for i, cn in enumerate(counts)])
        return r, edges
    return np_array(counts, dtype=np.int64 if ws is None else float), edges


def _bin_of(v, el):
    if _nan(v) or bool(v < el[0]) or bool(v > el[-1]):
        return None
    n = len(el) - 1
    for i in range(n - 1):
        if bool(v < el[i + 1]):
            return i
    return n - 1


def np_histogram2d(x, y, bins=10, range=None, weights=None, density=None):
    x, y = raw(asarr(x)).tolist(), raw(asarr(y)).tolist()
    if isinstance(bins, (int, np.integer)):
        bins = (bins, bins)
    edges = []
    for d, b in enumerate(bins):
        if isinstance(b, (int, np.integer, SymInt)):
            if range is None:
                raise Unsupported('histogram2d without range')
            edges.append(np_linspace(range[d][0], range[d][1], int(b) + 1))
        else:
            edges.append(asarr(b))
    ex, ey = raw(edges[0]).tolist(), raw(edges[1]).tolist()
    h = np_zeros((len(ex) - 1, len(ey) - 1))
    for k, (u, v) in enumerate(zip(x, y)):
        i = _bin_of(u, ex)
        if i is None:
            continue
        j = _bin_of(v, ey)
        if j is not None:
            h[i, j] = h[i, j] + (1 if weights is None else weights[k])
    return h, edges[0], edges[1]


def np_around(a, decimals=0, out=None):
    if decimals:
        raise Unsupported('round to decimals')
    if _scalar(a) and not isinstance(a, (list, tuple)):
        return a.rint() if isinstance(a, SymReal) else (a if is_sym(a) else np.around(a))
    return ufunc_call('rint', asarr(a)).astype(asarr(a).dtype)


def np_clip(a, a_min=None, a_max=None, out=None, **k):
    if a_min is not None:
        a = ufunc_call('maximum', a, a_min)
    if a_max is not None:
        a = ufunc_call('minimum', a, a_max)
    return a


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarr(a), asarr(b)

    def f(x, y):
        if _nan(x) or _nan(y):
            return bool(equal_nan and _nan(x) and _nan(y))
        if not is_sym(x) and not is_sym(y):
            return bool(np.isclose(x, y, rtol=rtol, atol=atol))
        if is_special(x) or is_special(y):
            return False
        d = x - y
        t = atol + rtol * abs(y)
        return mk_bool(z3.And(as_real_expr(d) <= as_real_expr(t), -as_real_expr(d) <= as_real_expr(t)))
    shape = np.broadcast_shapes(a.shape, b.shape)
    A, B = np.broadcast_to(raw(a), shape), np.broadcast_to(raw(b), shape)
    o = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        o[ix] = f(A[ix], B[ix])
    return mk(o, BOOL) if shape else o[()]


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np_all(np_isclose(a, b, rtol, atol, equal_nan))


def np_array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return np_all(a == b)


def np_nan_to_num(a, copy=True, nan=0.0, **k):
    if _scalar(a):
        return nan if _nan(a) else a
    a = asarr(a)
    o = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        v = raw(a)[ix]
        o[ix] = nan if _nan(v) else v
    r = mk(o, a.dtype)
    if not copy:
        a[...] = r
        return a
    return r


def np_unravel_index(indices, shape=None, order='C', dims=None):
    i = asarr(indices)
    r = np.unravel_index(np.array([int(v) for v in raw(i).reshape(-1).tolist()], dtype=np.intp).reshape(i.shape), shape)
    return tuple(from_real(x) for x in r) if i.ndim else tuple(int(x) for x in r)


def np_ravel_multi_index(mi, dims, mode='raise', order='C'):
    t = 0
    for m, d in zip(mi, dims):
        t = t * d + asarr(m)
    return t


def np_meshgrid(*xs, **k):
    rs = [raw(asarr(x)) for x in xs]
    return [mk(np.array(r), asarr(x).dtype) for r, x in zip(np.meshgrid(*rs, **k), xs)]


def np_broadcast_to(a, shape, **k):
    a = asarr(a)
    return mk(np.broadcast_to(raw(a), _shape(shape)), a.dtype)


def np_apply_along_axis(f, axis, a, *args, **k):
    a = asarr(a)
    m = np.moveaxis(raw(a), axis, -1)
    res = [f(mk(m[ix].copy(), a.dtype), *args, **k) for ix in np.ndindex(*m.shape[:-1])]
    r = np_array(res)
    return r.reshape(m.shape[:-1] + r.shape[1:])


def np_issubdtype(a, b):
    return np.issubdtype(_dt(a), b._t if isinstance(b, ShimType) else b)


def np_median(a, axis=None, **k):
    a = asarr(a)

    def fn(vs):
        n = len(vs)
        if n == 0 or builtins.any(_nan(v) for v in vs):
            return float('nan')
        s = [vs[i] for i in _argsort_list(vs)]
        return s[n // 2] if n % 2 else _div(s[n // 2 - 1] + s[n // 2], 2)
    return _axis_apply(a, axis, fn, F64)


def np_trapz(*a, **k):
    raise Unsupported('trapz')


def np_vectorize(f, *a, **k):
    def g(*args):
        arrs = [raw(asarr(x)) for x in args]
        shape = np.broadcast_shapes(*[x.shape for x in arrs])
        bs = [np.broadcast_to(x, shape) for x in arrs]
        res = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            res[ix] = f(*[b[ix] for b in bs])
        return np_array(res.tolist()) if shape else res[()]
    return g


def np_interp(x, xp, fp, **k):
    xs = asarr(x)
    xp, fp = raw(asarr(xp)).tolist(), raw(asarr(fp)).tolist()

    def f(v):
        if bool(v <= xp[0]):
            return fp[0]
        if bool(v >= xp[-1]):
            return fp[-1]
        for i in range(len(xp) - 1):
            if bool(v < xp[i + 1]):
                return fp[i] + _div(fp[i + 1] - fp[i], xp[i + 1] - xp[i]) * (v - xp[i])
    o = np.empty(xs.shape, dtype=object)
    for ix in np.ndindex(*xs.shape):
        o[ix] = f(raw(xs)[ix])
    return mk(o, F64) if xs.ndim else o[()]


# ---------------------------------------------------------------- the module
class ShimType(object):
    """np.int64 and the like: usable as dtype, as constructor and in isinstance"""

    def __init__(self, t):
        self._t = t
        self.dtype = np.dtype(t)
        self.__name__ = t.__name__

    def __call__(self, v=0, *a):
        if is_sym(v):
            return cast_scalar(v, self.dtype)
        if isinstance(v, (SArr, SStruct)):
            return v.astype(self.dtype)
        if isinstance(v, (list, tuple)) and _has_sym(v):
            return np_array(v).astype(self.dtype)
        return self._t(v, *a)

    def __eq__(self, o):
        return (o._t if isinstance(o, ShimType) else o) == self._t

    def __hash__(self):
        return hash(self._t)

    def __instancecheck__(self, o):
        return isinstance(o, self._t)

    def __repr__(self):
        return repr(self._t)


class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (np.ndarray, SStruct))


class NdarrayShim(metaclass=_TypeMeta):
    pass


class GenericMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._real) or isinstance(o, cls._sym)


def _abstract(real, sym):
    return GenericMeta(real.__name__, (), {'_real': real, '_sym': sym, 'dtype': None})


class LinalgShim(object):
    norm = staticmethod(lin_norm)
    det = staticmethod(lin_det)
    inv = staticmethod(lin_inv)
    solve = staticmethod(lin_solve)
    multi_dot = staticmethod(lin_multi_dot)
    matrix_power = staticmethod(lin_matrix_power)
    cross = staticmethod(lambda a, b, axis=-1: np_cross(a, b))
    outer = staticmethod(lambda a, b: np_outer(a, b))
    matmul = staticmethod(lambda a, b: np_matmul(a, b))
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        from engine.loader import hooks
        h = hooks.get('numpy.linalg.' + n)
        if h is not None:
            return h
        return _generic(getattr(np.linalg, n), 'linalg.' + n)


class RandomShim(object):
    """every random draw is an arbitrary (nondeterministic) value"""
    hook = None

    def __getattr__(self, n):
        def f(*a, **k):
            h = ctx().random_hook if hasattr(ctx(), 'random_hook') else None
            if h is not None:
                return h(n, *a, **k)
            if n == 'seed':
                return None
            raise Unsupported('np.random.%s' % n)
        return f


class MaArr(object):
    """masked array: data and mask (the few operations the code uses)"""
    def __init__(self, data, mask=False, copy=False):
        self.data = asarr(data)
        if copy:
            self.data = self.data.copy()
        m = SHIM.zeros(self.data.shape, dtype=bool)
        m[...] = mask
        self.mask = m

    @property
    def shape(self):
        return self.data.shape

    def __len__(self):
        return len(self.data)


class MaShim(object):
    def array(self, data, mask=False, copy=False, **k):
        if k:
            raise Unsupported('np.ma.array(%s)' % ', '.join(k))
        return MaArr(data, mask, copy)

    def masked_invalid(self, a, copy=True):
        a = asarr(a)
        return MaArr(a, ~SHIM.isfinite(a), True)

    def __getattr__(self, n):
        return _generic(getattr(np.ma, n), 'ma.' + n)


class LibStride(object):
    pass


def _generic(fn, name):
    """real numpy function for concrete arguments"""
    if not callable(fn) or isinstance(fn, type) and issubclass(fn, BaseException):
        return fn

    def g(*a, **k):
        if _has_sym(list(a)) or _has_sym(k):
            raise Unsupported('numpy function %s on symbolic values' % name)
        a = [_deep(x) for x in a]
        k = {n: _deep(x) for n, x in k.items()}
        with np.errstate(all='ignore'):
            r = fn(*a, **k)
        return _deepback(r)
    g.__name__ = name
    return g


def _deep(x):
    if isinstance(x, SArr):
        return to_real(x)
    if isinstance(x, ShimType):
        return x._t
    if isinstance(x, list):
        return [_deep(v) for v in x]
    if isinstance(x, tuple):
        return tuple(_deep(v) for v in x)
    return x


def _deepback(r):
    if isinstance(r, np.ndarray) and not isinstance(r, np.ma.MaskedArray):
        return from_real(r)
    if isinstance(r, (list, tuple)) and type(r) in (list, tuple):
        return type(r)(_deepback(v) for v in r)
    return r


def _uf(name):
    def g(*a, **k):
        return ufunc_call(name, *a, **k)
    g.__name__ = name
    return g


class UfuncShim(object):
    def __init__(self, name):
        self.name = name
        self.__name__ = name

    def __call__(self, *a, **k):
        return ufunc_call(self.name, *a, **k)

    def reduce(self, *a, **k):
        return _ufunc_reduce(self.name, *a, **k)

    def accumulate(self, a, **k):
        if self.name == 'add':
            return np_cumsum(a)
        if self.name == 'maximum':
            return np_maxacc(a)
        raise Unsupported('accumulate')

    def at(self, *a):
        return _ufunc_at(self.name, *a)

    def outer(self, a, b):
        a, b = asarr(a), asarr(b)
        return ufunc_call(self.name, a.reshape(a.shape + (1,) * b.ndim), b)


class Shim(object):
    __name__ = 'numpy'

    def __init__(self):
        d = self.__dict__
        g = globals()
        for n, f in g.items():
            if n.startswith('np_'):
                d[n[3:]] = f
        for n in UF:
            d[n] = UfuncShim(n)
        d['abs'] = d['absolute']
        d['divide'] = d['true_divide']
        d['bitwise_not'] = d['invert']
        d['radians'], d['degrees'] = d['deg2rad'], d['rad2deg']
        d['matmul'] = np_matmul
        d['amin'], d['amax'] = np_min, np_max
        d['round'], d['round_'] = np_around, np_around
        d['asanyarray'] = d['atleast_1d_'] = np_asarray
        d['ascontiguousarray'] = d['asfortranarray'] = _contig
        d['require'] = lambda a, dtype=None, *x, **k: _contig(a, dtype)
        d['zeros_like'] = _like(np_zeros)
        d['ones_like'] = _like(np_ones)
        d['empty_like'] = _like(np_empty)
        d['identity'] = lambda n, dtype=float: np_eye(n, dtype=dtype)
        d['asin'], d['acos'], d['atan'], d['atan2'] = d['arcsin'], d['arccos'], d['arctan'], d['arctan2']
        for n in ('reshape ravel transpose swapaxes moveaxis rollaxis expand_dims squeeze flip fliplr flipud roll rot90 tile diagonal array_split split hsplit vsplit '
                  'triu tril atleast_1d atleast_2d atleast_3d permute_dims').split():
            if hasattr(np, n):
                d[n] = _lift1(getattr(np, n))
        d['ravel'] = lambda a, *x, **k: asarr(a).ravel()
        d['reshape'] = lambda a, shape=None, *x, **k: asarr(a).reshape(_shape(shape if shape is not None else k.get('newshape')))
        d['size'] = lambda a, axis=None: asarr(a).size if axis is None else asarr(a).shape[axis]
        d['shape'] = lambda a: asarr(a).shape
        d['ndim'] = lambda a: asarr(a).ndim
        d['isscalar'] = lambda a: is_sym(a) or np.isscalar(a)
        d['diag'] = lambda v, k=0: _lift1(np.diag)(v, k) if asarr(v).ndim == 2 else _diag(v, k)
        d['diagonal'] = lambda a, *x, **k: mk(np.diagonal(raw(asarr(a)), *x, **k).copy(), asarr(a).dtype)
        d['trace'] = lambda a, *x, **k: np_sum(d['diagonal'](a))
        d['ndarray'] = NdarrayShim
        d['recarray'] = NdarrayShim
        d['linalg'] = LinalgShim()
        d['random'] = RandomShim()
        d['ma'] = MaShim()
        d['dtype'] = lambda x, *a, **k: np.dtype(_dt(x), *a, **k)
        for n in 'int8 int16 int32 int64 uint8 uint16 uint32 uint64 float32 float64 float16 bool_ intp uintp longlong'.split():
            d[n] = ShimType(getattr(np, n))
        d['bool'] = d['bool_']
        d['int_'] = d['int64']
        d['uint'] = d['uint64']
        d['double'] = d['float64']
        d['integer'] = _abstract(np.integer, (SymInt, SymBV))
        d['floating'] = _abstract(np.floating, (SymReal,))
        d['number'] = _abstract(np.number, (SymInt, SymReal, SymBV))
        d['generic'] = _abstract(np.generic, (SymInt, SymReal, SymBV, SymBool))
        d['newaxis'] = None
        d['s_'] = np.s_
        d['nan'], d['inf'], d['pi'], d['e'] = float('nan'), float('inf'), math.pi, math.e
        d['errstate'] = np.errstate
        d['seterr'] = lambda **k: None
        d['iinfo'] = lambda t: np.iinfo(_dt(t))
        d['finfo'] = lambda t: np.finfo(_dt(t))
        d['prod'] = lambda a, axis=None, **k: _reduce('multiply', a, axis, 1)
        d['ndenumerate'] = lambda a: (((ix, scalar_out(raw(asarr(a))[ix], asarr(a).dtype)) for ix in np.ndindex(*asarr(a).shape)))
        d['iterable'] = np.iterable
        d['shares_memory'] = lambda a, b: np.shares_memory(raw(a), raw(b))

    def __getattr__(self, n):
        r = getattr(np, n)
        if isinstance(r, np.ufunc):
            return UfuncShim(r.__name__)
        if isinstance(r, type) or not callable(r):
            return r
        return _generic(r, n)


_HARMLESS = {'order', 'subok', 'like', 'casting', 'kind', 'stable', 'assume_unique', 'copy', 'sort'}


def _strict(f):
    """an argument the model ignores is an error, not a different result"""
    import dis
    import functools
    import inspect
    code = f.__code__
    used = {i.argval for i in dis.get_instructions(code) if i.opname.startswith('LOAD') or i.opname in ('STORE_FAST', 'MAKE_CELL')}
    ps = inspect.signature(f).parameters
    var = [p.name for p in ps.values() if p.kind == p.VAR_KEYWORD]
    unused = {n: p.default for n, p in ps.items() if p.kind == p.POSITIONAL_OR_KEYWORD and p.default is not p.empty and n not in used}
    swallow = var and var[0] not in used
    if not swallow and not unused:
        return f

    @functools.wraps(f)
    def w(*a, **k):
        for n, v in k.items():
            if n in _HARMLESS and (n != 'order' or v in ('C', 'K', 'A', 'F')) or v is None:
                continue
            if n in ps and n not in var:
                if n in unused and v is not unused[n]:
                    raise Unsupported('%s with %s=%r' % (f.__name__, n, v))
            elif swallow and not (n == 'dtype' and np.dtype(_dt(v)) == np.float64) and not (n == 'keepdims' and v is False):
                raise Unsupported('%s with %s=%r' % (f.__name__, n, v))
        return f(*a, **k)
    return w


for _n, _f in list(globals().items()):
    if _n.startswith('np_') and _n != 'np_vectorize' and hasattr(_f, '__code__'):
        globals()[_n] = _strict(_f)
for _c in (SArr, SStruct):
    for _n, _f in list(vars(_c).items()):
        if not _n.startswith('_') and hasattr(_f, '__code__'):
            setattr(_c, _n, _strict(_f))


def _diag(v, k=0):
    v = asarr(v)
    n = v.shape[0] + abs(k)
    r = np_zeros((n, n), dtype=v.dtype)
    for i in range(v.shape[0]):
        r[i + builtins.max(-k, 0), i + builtins.max(k, 0)] = v[i]
    return r


SHIM = Shim()
