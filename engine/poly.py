"""Rational-function normal form of real terms, modulo the definitions of the path (c^2+s^2=1, r^2=x, orthonormality given by
the harness).  Used as a preprocessing step for equalities: a term whose reduced numerator is the zero polynomial is zero.
Denominators are non-zero on the path (division forks on a zero denominator)."""
from fractions import Fraction
from .core import z3, Unsupported

LIMIT = 60000


class TooBig(Exception):
    pass


class NoForm(Exception):
    pass


def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, n in b:
        d[v] = d.get(v, 0) + n
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > LIMIT * 10:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                del r[k]
    if len(r) > LIMIT:
        raise TooBig()
    return r


class Norm(object):
    def __init__(self, ctx):
        self.vars = {}
        self.names = []
        self.cache = {}
        self.keep = []
        self.rules = {}    # variable index -> polynomial for variable^2
        self.ctx = ctx
        for (_, c, s) in ctx.trig.values():
            # only atoms with fresh symbols for c and s
            if z3.is_const(c) and z3.is_const(s) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                ci, si = self.var(c), self.var(s)
                self.rules[si] = {(): Fraction(1), ((ci, 2),): Fraction(-1)}
        for (r, x) in ctx.sqrts:
            n, d = self.rat(x)
            if d == {(): Fraction(1)}:
                self.rules[self.var(r)] = self.reduce(n)

    def var(self, t):
        k = t.decl().name()
        if k not in self.vars:
            self.vars[k] = len(self.names)
            self.names.append(t)
        return self.vars[k]

    def reduce(self, p):
        """replace v^2 by its definition until no square of a defined variable is left"""
        if not self.rules:
            return p
        for _ in range(200):
            out = {}
            changed = False
            for m, c in p.items():
                for v, n in m:
                    if n >= 2 and v in self.rules:
                        changed = True
                        rest = tuple((u, k) for u, k in m if u != v)
                        if n > 2:
                            rest = m_mul(rest, ((v, n - 2),))
                        t = p_mul({rest: c}, self.rules[v])
                        out = p_add(out, t)
                        break
                else:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
            p = out
            if len(p) > LIMIT:
                raise TooBig()
            if not changed:
                return p
        raise TooBig()

    def rat(self, t):
        k = t.get_id()
        if k in self.cache:
            return self.cache[k]
        r = self._rat(t)
        self.cache[k] = r
        self.keep.append(t)
        return r

    ONE = {(): Fraction(1)}

    def _rat(self, t):
        if z3.is_rational_value(t):
            return p_const(t.as_fraction()), self.ONE
        if z3.is_add(t) or z3.is_sub(t):
            ch = t.children()
            n, d = self.rat(ch[0])
            for c in ch[1:]:
                n2, d2 = self.rat(c)
                s = -1 if z3.is_sub(t) else 1
                if d == d2:
                    n = self.reduce(p_add(n, n2, s))
                elif d2 == self.ONE:
                    n = self.reduce(p_add(n, p_mul(n2, d), s))
                elif d == self.ONE:
                    n, d = self.reduce(p_add(p_mul(n, d2), n2, s)), d2
                else:
                    n, d = self.reduce(p_add(p_mul(n, d2), p_mul(n2, d), s)), self.reduce(p_mul(d, d2))
            return n, d
        if z3.is_mul(t):
            n, d = self.ONE, self.ONE
            for c in t.children():
                n2, d2 = self.rat(c)
                n, d = cancel(p_mul(n, n2), p_mul(d, d2))
                n, d = self.reduce(n), self.reduce(d)
            return n, d
        if z3.is_div(t):
            a, b = self.rat(t.arg(0)), self.rat(t.arg(1))
            n, d = cancel(p_mul(a[0], b[1]), p_mul(a[1], b[0]))
            return self.reduce(n), self.reduce(d)
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            n, d = self.rat(t.arg(0))
            return {m: -c for m, c in n.items()}, d
        if z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_rational_value(t.arg(1)):
            e = t.arg(1).as_fraction()
            if e.denominator == 1 and 0 <= e.numerator <= 8:
                n, d = self.ONE, self.ONE
                b = self.rat(t.arg(0))
                for _ in range(e.numerator):
                    n, d = self.reduce(p_mul(n, b[0])), self.reduce(p_mul(d, b[1]))
                return n, d
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return {((self.var(t), 1),): Fraction(1)}, self.ONE
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL) and z3.is_const(t.arg(0)):
            if z3.is_int_value(t.arg(0)):
                return p_const(t.arg(0).as_long()), self.ONE
            return {((self.var(t.arg(0)), 1),): Fraction(1)}, self.ONE
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            return self.rat(t.arg(0))
        if z3.is_int_value(t):
            return p_const(t.as_long()), self.ONE
        raise NoForm()

    def to_z3(self, p):
        ts = []
        for m, c in p.items():
            t = z3.RealVal(c)
            for v, n in m:
                x = self.names[v]
                if x.is_int():
                    x = z3.ToReal(x)
                for _ in range(n):
                    t = t * x
            ts.append(t)
        return z3.Sum(ts) if ts else z3.RealVal(0)


def _isqrt(c):
    from math import isqrt
    if c < 0:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    return Fraction(a, b) if a * a == c.numerator and b * b == c.denominator else None


def cancel(num, den):
    """divide both by their common monomial factor (non-zero as part of the denominator)"""
    ms = list(num) + list(den)
    if not num or not den:
        return num, den
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        common = {v: min(n, d.get(v, 0)) for v, n in common.items() if d.get(v, 0)}
        if not common:
            return num, den
    def f(p):
        return {tuple(sorted((v, n - common.get(v, 0)) for v, n in m if n > common.get(v, 0))): c for m, c in p.items()}
    return f(num), f(den)


def square_root(ctx, e):
    """linear polynomial q (z3 term) with q*q == e, or None"""
    try:
        n = Norm(ctx)
        num, den = n.rat(e)
        num, den = cancel(n.reduce(num), n.reduce(den))
    except (NoForm, TooBig):
        return None
    if set(den) != {()} or not num or len(num) > 200:
        return None
    k = den[()]
    p = {m: c / k for m, c in num.items()}
    lead = [m[0][0] for m in p if len(m) == 1 and m[0][1] == 2]
    if not lead:
        return None
    v = lead[0]
    a = _isqrt(p[((v, 2),)])
    if not a:
        return None
    q = {((v, 1),): a}
    for m, c in p.items():
        d = dict(m)
        if d.get(v) == 1 and len(m) <= 2:
            rest = tuple((u, x) for u, x in m if u != v)
            q[rest] = c / (2 * a)
    if n.reduce(p_add(p_mul(q, q), p, -1)):
        return None
    return n.to_z3(q)


def linear(ctx, e):
    """an equal term that is a polynomial of degree one, or None"""
    try:
        n = Norm(ctx)
        num, den = n.rat(e)
        num, den = cancel(n.reduce(num), n.reduce(den))
    except (NoForm, TooBig):
        return None
    if set(den) != {()} or any(sum(x for _, x in m) > 1 for m in num):
        return None
    return n.to_z3({m: c / den[()] for m, c in num.items()})


def numerator_zero(ctx, e):
    """condition equivalent to e == 0 (denominators and positive square roots are not zero), or None"""
    try:
        n = Norm(ctx)
        num, den = n.rat(e)
        num, _ = cancel(n.reduce(num), n.reduce(den))
    except (NoForm, TooBig):
        return None
    if not num:
        return z3.BoolVal(True)
    if len(num) > 50:
        return None
    pos = {n.vars[v] for v in ctx.positive if v in n.vars}
    for v in pos:
        k = min(dict(m).get(v, 0) for m in num)
        if k:
            num = {tuple((u, x - k if u == v else x) for u, x in m if u != v or x > k): c for m, c in num.items()}
    return z3.simplify(n.to_z3(num) == 0)


def reduce_zero(ctx, e):
    """True if e reduces to zero; a z3 condition equivalent to e == 0; None without polynomial form"""
    try:
        n = Norm(ctx)
        num, _ = n.rat(e)
        num = n.reduce(num)
    except (NoForm, TooBig):
        return None
    if not num:
        return True
    if len(num) > 400:
        return None
    return n.to_z3(num) == 0


def constant(ctx, e):
    """the number the term reduces to, or None"""
    try:
        n = Norm(ctx)
        num, den = n.rat(e)
        num, den = n.reduce(num), n.reduce(den)
    except (NoForm, TooBig):
        return None
    if not num:
        return Fraction(0)
    if not den or len(num) != len(den):
        return None
    m = next(iter(den))
    if m not in num:
        return None
    k = num[m] / den[m]
    return k if not p_add(num, den, -k) else None
