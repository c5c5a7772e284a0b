"""Concrete counterpart of SymCtx: runs a harness on the real code with given inputs."""
import math

import numpy as np

RTOL, ATOL = 1e-6, 1e-6


class Skip(Exception):
    """the inputs do not satisfy an assumption of the harness"""


def plain(v):
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return v.item()
    return v


def ceq(a, b, rtol=RTOL, atol=ATOL):
    a, b = plain(a), plain(b)
    if isinstance(a, float) or isinstance(b, float):
        if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            return a == b
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    return bool(a == b)


def allb(c):
    if isinstance(c, np.ndarray):
        return bool(c.all())
    return bool(c)


class ConcCtx(object):
    symbolic = False

    def __init__(self, inputs):
        self.fixed = inputs
        self.failures = []
        self.covers = set()
        self.observed = []
        self.random_hook = None

    def _get(self, name):
        if name not in self.fixed:
            raise Skip('input %s not given' % name)
        return self.fixed[name]

    def int(self, name, lo=None, hi=None):
        v = int(self._get(name))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Skip('input %s out of range' % name)
        return v

    def real(self, name, lo=None, hi=None):
        return float(self._get(name))

    def bool(self, name):
        return bool(self._get(name))

    def bv(self, name, width, signed=False):
        return int(self._get(name))

    def rat(self, a, b):
        return a / b

    def angle(self, name):
        return float(self._get(name))

    def pick(self, name, options):
        return list(options)[int(self._get(name))]

    def maybe_nan(self, name, lo=None, hi=None):
        if self.pick(name + '.nan', [False, True]):
            return float('nan')
        return self.real(name, lo, hi)

    def assume(self, c):
        if not allb(c):
            raise Skip('assumption')

    def check(self, c, msg):
        if not allb(c):
            self.failures.append(msg)

    def fail(self, msg):
        self.failures.append(msg)

    def cover(self, label):
        self.covers.add(label)

    def b(self, c):
        return allb(c)

    def both(self, *cs):
        return all(allb(c) for c in cs)

    def either(self, *cs):
        return any(allb(c) for c in cs)

    def neg(self, c):
        return not allb(c)

    def implies(self, a, c):
        return (not allb(a)) or allb(c)

    def iff(self, a, c):
        return allb(a) == allb(c)

    def ite(self, c, a, d):
        return a if allb(c) else d

    def eq(self, a, b):
        return ceq(a, b)

    real_eq = eq

    def exact(self, a, b):
        """equality without tolerance"""
        a, b = plain(a), plain(b)
        if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
            return True
        return bool(a == b)

    def le(self, a, b):
        return a <= b + ATOL + RTOL * max(abs(a), abs(b))

    def isnan(self, a):
        return isinstance(plain(a), float) and math.isnan(a)

    def count(self, cs):
        return sum(1 for c in cs if allb(c))

    def cos(self, v):
        return math.cos(v)

    def sin(self, v):
        return math.sin(v)

    def sqrt(self, v):
        return math.sqrt(v) if v >= 0 else float('nan')

    def observe(self, label, v):
        self.observed.append((label, flat(v)))


def flat(v):
    """nested lists of plain scalars"""
    if hasattr(v, 'dtype') and getattr(v.dtype, 'names', None) and hasattr(v, 'shape'):
        return [[n, flat(v[n])] for n in v.dtype.names]
    if isinstance(v, np.ndarray):
        return flat(v.tolist())
    if isinstance(v, (list, tuple)):
        return [flat(x) for x in v]
    if isinstance(v, dict):
        return [[k, flat(v[k])] for k in sorted(v)]
    if isinstance(v, bytes):
        return v.decode('latin1')
    return plain(v)


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        return ceq(a, b)
    except (TypeError, ValueError):
        return a == b
