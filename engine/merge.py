"""Merging of paths: an `if` whose branches only assign is executed without forking.

The loader rewrites such statements (see eligible()); at run time, when the harness asked for merging and the condition
is symbolic, both branches are executed under a guard and every assignment becomes ite(guard, new, old).  A decision
that is needed under a guard, and not implied by the guard and the path condition, first decides the guard itself.
"""
import ast

import numpy as np
import z3

from . import core
from .core import SymBool, SymInt, SymReal, SymBV, is_sym, is_num, is_special, is_intlike, mk_bool, mk_int, mk_real, mk_bv, as_bool_expr, as_int_expr, as_real_expr

UNDEF = object()
SAFE_METHODS = {'astype', 'copy', 'sum', 'any', 'all', 'min', 'max', 'dot', 'reshape', 'tolist', 'mean', 'item', 'get'}


class GuardExit(BaseException):
    """the guard is false on this path"""

    def __init__(self, level):
        self.level = level


def active():
    c = core.CUR
    return c is not None and c.merge


def mergeable(c):
    return active() and isinstance(c, (SymBool, SymInt, SymBV))


class Guard(object):
    def __init__(self, cond, negate=False):
        e = as_bool_expr(cond) if isinstance(cond, SymBool) else (cond != 0).e
        self.e = z3.Not(e) if negate else e

    def __enter__(self):
        c = core.CUR
        self.level = len(c.guards)
        c.guards.append(z3.simplify(self.e))

    def __exit__(self, t, v, tb):
        c = core.CUR
        try:
            if t is None:
                return False
            if issubclass(t, GuardExit):
                return v.level == self.level
            if issubclass(t, Exception):
                # an error that happens only if the guards hold
                del c.guards[self.level + 1:]
                try:
                    c.decide_guards(self.level)
                except GuardExit as g:
                    if g.level == self.level:
                        return True
                    raise
            return False
        finally:
            del c.guards[self.level:]


def ite_value(g, a, b):
    """value of If(g, a, b) or None if the two cannot be merged"""
    if a is b:
        return a
    if isinstance(a, np.ndarray) and a.ndim == 0:
        a = a.item()
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b.item()
    if not ((is_sym(a) or is_num(a) or isinstance(a, (bool, np.bool_))) and (is_sym(b) or is_num(b) or isinstance(b, (bool, np.bool_)))):
        return None
    if is_special(a) or is_special(b):
        return None
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return mk_bool(z3.simplify(z3.If(g, as_bool_expr(a), as_bool_expr(b))))
    if isinstance(a, SymBV) or isinstance(b, SymBV):
        if isinstance(a, (SymInt, SymReal)) or isinstance(b, (SymInt, SymReal)):
            return None
        x, sx = core.bv64(a)
        y, sy = core.bv64(b)
        return mk_bv(z3.If(g, x, y), sx and sy)
    if not is_sym(a) and not is_sym(b) and type(a) is type(b) and a == b:
        return a
    if is_intlike(a) and is_intlike(b):
        return mk_int(z3.simplify(z3.If(g, as_int_expr(a), as_int_expr(b))))
    return mk_real(z3.simplify(z3.If(g, as_real_expr(a), as_real_expr(b))))


def gexpr():
    c = core.CUR
    g = c.guards
    return z3.And(g) if len(g) > 1 else g[0]


def sel(new, env, name):
    """new value of a local variable that is assigned under a guard"""
    c = core.CUR
    if c is None or not c.guards:
        return new
    old = env.get(name, UNDEF)
    if old is UNDEF or old is new:
        return new
    r = merge(new, old)
    return r


def merge(new, old):
    c = core.CUR
    g = gexpr()
    r = ite_value(g, new, old)
    if r is not None:
        return r
    if isinstance(new, tuple) and isinstance(old, tuple) and len(new) == len(old):
        return tuple(merge(x, y) for x, y in zip(new, old))
    c.decide_guards()  # raises GuardExit where the guard is false
    return new


def aug(op, old, new):
    """old OP= new under guards for a variable (in-place operators of arrays change their object)"""
    c = core.CUR
    if c is not None and c.guards and not (is_sym(old) or is_num(old) or isinstance(old, (bool, str, tuple))):
        c.decide_guards()
    return op


def setitem(t, k, v):
    c = core.CUR
    if c is None or not c.guards or hasattr(type(t), '__array_ufunc__'):
        t[k] = v
        return
    if isinstance(t, (list, dict)) and not isinstance(k, slice):
        try:
            old = t[k]
        except (KeyError, IndexError):
            old = UNDEF
        if old is not UNDEF:
            t[k] = merge(v, old)
            return
    c.decide_guards()
    t[k] = v


def and_(first, *rest):
    v = first()
    if not rest:
        return v
    if mergeable(v):
        w = False
        with Guard(v):
            w = and_(*rest)
            if not isinstance(w, (SymBool, bool, np.bool_)):
                w = w != 0 if is_sym(w) or is_num(w) else bool(w)
        return mk_bool(z3.And(as_bool_expr(v if isinstance(v, SymBool) else v != 0), as_bool_expr(w)))
    return and_(*rest) if v else v


def or_(first, *rest):
    v = first()
    if not rest:
        return v
    if mergeable(v):
        w = False
        with Guard(v, True):
            w = or_(*rest)
            if not isinstance(w, (SymBool, bool, np.bool_)):
                w = w != 0 if is_sym(w) or is_num(w) else bool(w)
        return mk_bool(z3.Or(as_bool_expr(v if isinstance(v, SymBool) else v != 0), as_bool_expr(w)))
    return v if v else or_(*rest)


def not_(v):
    if mergeable(v):
        return mk_bool(z3.Not(as_bool_expr(v if isinstance(v, SymBool) else v != 0)))
    return not v


def cmp_chain(l, *rest):
    """a < b < c without forking"""
    r = None
    for op, o in rest:
        o = o()
        v = op(l, o)
        if r is None:
            r = v
        elif active() and (isinstance(r, SymBool) or isinstance(v, SymBool)):
            r = mk_bool(z3.And(as_bool_expr(r), as_bool_expr(v)))
        else:
            r = r and v
        if not (active() and is_sym(r)) and not r:
            return r
        l = o
    return r


def ifexp(c, a, b):
    if mergeable(c):
        x = y = UNDEF
        with Guard(c):
            x = a()
        with Guard(c, True):
            y = b()
        if x is UNDEF:
            return y
        if y is UNDEF:
            return x
        e = as_bool_expr(c if isinstance(c, SymBool) else c != 0)
        r = ite_value(e, x, y)
        if r is None:
            return x if core.CUR.branch(e) else y
        return r
    return a() if c else b()


def minmax(builtin, less):
    def f(*a, **k):
        if active() and not k:
            v = list(a[0]) if len(a) == 1 else list(a)
            if v and any(is_sym(x) for x in v) and all((is_sym(x) or is_num(x)) and not is_special(x) for x in v):
                r = v[0]
                for x in v[1:]:
                    c = (x < r) if less else (x > r)
                    r = ite_value(as_bool_expr(c), x, r) if is_sym(c) else (x if c else r)
                return r
            return builtin(v)
        return builtin(*a, **k)
    return f


def cast(t, v):
    """numba: a variable with a declared type"""
    from . import symnp
    dt = getattr(t, 'dtype', None)
    if dt is None:
        return v
    if is_sym(v) or is_num(v) or isinstance(v, bool):
        return symnp.cast_scalar(v, dt)
    return v


# ---------------------------------------------------------------- rewriting
def _pure(e):
    """no visible side effects on Python objects"""
    for n in ast.walk(e):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Lambda)):
            return False
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            root = n.func.value
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id in ('np', 'math', 'analysis_utils', 'geometry_utils', 'numpy'):
                continue
            if n.func.attr not in SAFE_METHODS:
                return False
    return True


def _target_ok(t):
    if isinstance(t, ast.Name):
        return True
    if isinstance(t, ast.Tuple):
        return all(isinstance(x, ast.Name) for x in t.elts)
    if isinstance(t, ast.Subscript):
        return _pure(t)
    return False


def eligible(s, banned):
    if isinstance(s, ast.Pass):
        return True
    if isinstance(s, ast.Expr):
        return isinstance(s.value, ast.Constant)
    if isinstance(s, ast.Assign):
        return len(s.targets) == 1 and _target_ok(s.targets[0]) and _pure(s.value) and not (names(s.targets[0]) & banned)
    if isinstance(s, ast.AugAssign):
        return isinstance(s.target, (ast.Name, ast.Subscript)) and _target_ok(s.target) and _pure(s.value) and not (names(s.target) & banned)
    if isinstance(s, ast.If):
        return _pure(s.test) and all(eligible(x, banned) for x in s.body + s.orelse)
    return False


def names(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, ast.Tuple):
        return {x.id for x in t.elts if isinstance(x, ast.Name)}
    return set()


def _call(f, *a):
    return ast.Call(ast.Name('__m_%s__' % f, ast.Load()), list(a), [])


def _lam(e):
    return ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), e)


class Test(ast.NodeTransformer):
    """short-circuit operators of a condition"""

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return _call('and' if isinstance(n.op, ast.And) else 'or', *[_lam(v) for v in n.values])

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        return _call('not', n.operand) if isinstance(n.op, ast.Not) else n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) > 1 and all(type(o) in _OPS for o in n.ops):
            return _call('chain', n.left, *[ast.Tuple([ast.Name('__m_%s__' % _OPS[type(o)], ast.Load()), _lam(c)], ast.Load()) for o, c in zip(n.ops, n.comparators)])
        return n

    def visit_Lambda(self, n):
        return n


_OPS = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne'}


class Scope(ast.NodeVisitor):
    """names of a function that are not plain local variables"""

    def __init__(self):
        self.banned = set()

    def visit_Global(self, n):
        self.banned |= set(n.names)

    visit_Nonlocal = visit_Global


_k = [0]


def guarded(stmts):
    """statements of an eligible branch with merging assignments"""
    out = []
    for s in stmts:
        if isinstance(s, ast.Assign):
            t = s.targets[0]
            if isinstance(t, ast.Name):
                out.append(ast.Assign([t], _call('sel', s.value, _call('locals'), ast.Constant(t.id))))
            elif isinstance(t, ast.Tuple):
                _k[0] += 1
                tmp = '__m%d' % _k[0]
                tn = [tmp + '_%d' % i for i in range(len(t.elts))]
                out.append(ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in tn], ast.Store())], s.value))
                for x, y in zip(t.elts, tn):
                    out.append(ast.Assign([ast.Name(x.id, ast.Store())], _call('sel', ast.Name(y, ast.Load()), _call('locals'), ast.Constant(x.id))))
            else:
                out.append(ast.Expr(_call('setitem', _load(t.value), _key(t.slice), s.value)))
        elif isinstance(s, ast.AugAssign):
            t = s.target
            if isinstance(t, ast.Name):
                # arrays are changed in place: decide the guard first
                out.append(ast.Expr(_call('aug', ast.Constant(None), ast.Name(t.id, ast.Load()), ast.Constant(None))))
                v = ast.BinOp(ast.Name(t.id, ast.Load()), s.op, s.value)
                out.append(ast.Assign([ast.Name(t.id, ast.Store())], _call('sel', v, _call('locals'), ast.Constant(t.id))))
            else:
                v = ast.BinOp(ast.Subscript(_load(t.value), t.slice, ast.Load()), s.op, s.value)
                out.append(ast.Expr(_call('setitem', _load(t.value), _key(t.slice), v)))
        elif isinstance(s, ast.If):
            out.append(convert(s))
        else:
            out.append(s)
    return out


def _load(e):
    return e


def _key(s):
    if isinstance(s, ast.Slice):
        return ast.Call(ast.Name('__m_slice__', ast.Load()), [x if x is not None else ast.Constant(None) for x in (s.lower, s.upper, s.step)], [])
    if isinstance(s, ast.Tuple):
        return ast.Tuple([_key(x) for x in s.elts], ast.Load())
    return s


def convert(s):
    """the statement `if`, executed with merging where possible"""
    import copy
    _k[0] += 1
    v = '__mc%d' % _k[0]
    test = Test().visit(copy.deepcopy(s.test))
    plain_body, plain_else = copy.deepcopy(s.body), copy.deepcopy(s.orelse)

    def block(stmts, neg):
        return ast.With([ast.withitem(_call('guard', ast.Name(v, ast.Load()), ast.Constant(neg)))], guarded(copy.deepcopy(stmts)))
    merged = [block(s.body, False)] + ([block(s.orelse, True)] if s.orelse else [])
    r = [ast.Assign([ast.Name(v, ast.Store())], test),
         ast.If(_call('able', ast.Name(v, ast.Load())), merged, [ast.If(ast.Name(v, ast.Load()), [conv_nested(x) for x in plain_body], [conv_nested(x) for x in plain_else])])]
    w = ast.If(ast.Constant(True), r, [])
    w._done = True
    return ast.copy_location(w, s)


def conv_nested(x):
    return convert(x) if isinstance(x, ast.If) else x


class IfExps(ast.NodeTransformer):
    def visit_IfExp(self, n):
        self.generic_visit(n)
        if _pure(n):
            return ast.copy_location(_call('ifexp', Test().visit(n.test), _lam(n.body), _lam(n.orelse)), n)
        return n

    def visit_ListComp(self, n):  # class/comprehension scopes are left alone
        return n
    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_Lambda = visit_ListComp


def normalise_continue(body):
    """`if c: ...; continue` followed by statements -> if/else"""
    for i, s in enumerate(body):
        if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], ast.Continue):
            rest = normalise_continue(body[i + 1:])
            s2 = ast.copy_location(ast.If(s.test, s.body[:-1] or [ast.Pass()], rest), s)
            return body[:i] + [s2]
    return body


class Merge(ast.NodeTransformer):
    def __init__(self):
        self.stack = []

    def visit_FunctionDef(self, n):
        sc = Scope()
        for s in n.body:
            sc.visit(s)
        self.stack.append(sc.banned)
        casts = numba_locals(n)
        if casts:
            n.body = [Cast(casts).visit(s) for s in n.body]
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_ClassDef(self, n):
        self.stack.append(None)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_For(self, n):
        if self.stack and self.stack[-1] is not None:
            nb = normalise_continue(n.body)
            if nb is not n.body and all(eligible(s, self.stack[-1]) for s in nb):
                n.body = nb
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        if getattr(n, '_done', False):
            return n
        if self.stack and self.stack[-1] is not None and eligible(n, self.stack[-1]):
            return convert(n)
        self.generic_visit(n)
        return n

    def visit_Assign(self, n):
        if self.stack and self.stack[-1] is not None:
            n.value = IfExps().visit(n.value)
        return n


def numba_locals(f):
    r = {}
    for d in f.decorator_list:
        if isinstance(d, ast.Call):
            for k in d.keywords:
                if k.arg == 'locals' and isinstance(k.value, ast.Dict):
                    for a, b in zip(k.value.keys, k.value.values):
                        if isinstance(a, ast.Constant):
                            r[a.value] = b
    return r


class Cast(ast.NodeTransformer):
    def __init__(self, casts):
        self.casts = casts

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_FunctionDef

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in self.casts:
            n.value = _call('cast', self.casts[n.targets[0].id], n.value)
        return n

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and n.target.id in self.casts:
            v = ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value)
            return ast.copy_location(ast.Assign([n.target], _call('cast', self.casts[n.target.id], v)), n)
        return n


def builtins_():
    import operator
    import builtins
    return {'__m_sel__': sel, '__m_locals__': builtins.locals, '__m_setitem__': setitem, '__m_aug__': aug, '__m_and__': and_, '__m_or__': or_, '__m_not__': not_,
            '__m_chain__': cmp_chain, '__m_guard__': Guard, '__m_able__': mergeable, '__m_ifexp__': ifexp, '__m_slice__': slice, '__m_cast__': cast,
            'min': minmax(builtins.min, True), 'max': minmax(builtins.max, False),
            **{'__m_%s__' % v: getattr(operator, v) for v in _OPS.values()}}
