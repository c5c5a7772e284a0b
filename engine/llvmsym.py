"""Symbolic interpreter for the LLVM IR of the C++ kernels behind `analysis_functions`.

clang translates cpp/AnalysisFunctions.h (unoptimised IR); the Cython glue is translated to Python from the .pyx.
Integers are mathematical integers kept in the signed range of their type (every operation wraps explicitly);
every load and store is checked against the bounds of the region it addresses.
"""
import hashlib
import os
import re
import subprocess
import tempfile
import shutil
import types

import numpy as np

from . import core, symnp
from .core import z3, Unsupported, is_sym, SymInt, SymBool, SymBV, SymReal, mk_int, mk_bool, as_int_expr, ctx
from .symnp import SArr, SHIM, raw, mk, from_real


class MemoryViolation(Exception):
    """access outside of an array"""


class CppTerminate(Exception):
    """a C++ exception leaves a function that is not declared `except +`"""


CXX_EXC = {'out_of_range': IndexError, 'invalid_argument': ValueError, 'domain_error': ValueError, 'overflow_error': OverflowError, 'range_error': ArithmeticError,
           'underflow_error': ArithmeticError, 'bad_alloc': MemoryError, 'bad_cast': TypeError, 'length_error': RuntimeError, 'runtime_error': RuntimeError, 'logic_error': RuntimeError}


# ---------------------------------------------------------------- integers
def width(t):
    m = re.match(r'i(\d+)$', t)
    if not m:
        raise Unsupported('LLVM type %s' % t)
    return int(m.group(1))


def wrap(v, n):
    """signed representative modulo 2**n"""
    if n == 1:
        if isinstance(v, (SymBool, bool)):
            return v
    if not is_sym(v):
        v = int(v) & ((1 << n) - 1)
        return v - (1 << n) if v >> (n - 1) and n > 1 else v
    if isinstance(v, SymBool):
        return v if n == 1 else mk_int(as_int_expr(v))
    lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
    if ctx().branch(z3.And(v.e >= lo, v.e <= hi)):
        return v
    m = v.e % (1 << n)
    return mk_int(z3.If(m > hi, m - (1 << n), m))


def uns(v, n):
    """unsigned value of a signed representative"""
    if isinstance(v, (SymBool, bool)):
        return v if isinstance(v, SymBool) and n == 1 else (mk_int(as_int_expr(v)) if is_sym(v) else int(v))
    if not is_sym(v):
        return int(v) & ((1 << n) - 1)
    if ctx().branch(v.e >= 0):
        return v
    return mk_int(v.e + (1 << n))


class Ptr(object):
    __slots__ = ('r', 'off')

    def __init__(self, r, off=0):
        self.r = r
        self.off = off


NULL = Ptr(None, 0)


class Scratch(object):
    """alloca: typed cells at concrete offsets"""

    def __init__(self, size, name):
        self.size = size
        self.cells = {}
        self.name = name

    def load(self, off, size, ty):
        off = int(off)
        if off < 0 or off + size > self.size:
            raise MemoryViolation('read outside of %s' % self.name)
        c = self.cells.get(off)
        if c is None:
            if ty == 'ptr':
                raise Unsupported('uninitialised pointer %s' % self.name)
            return wrap(mk_int(ctx().fresh('uninit', 'int')), 8 * size) if ty != 'i1' else False
        s, v = c
        if s != size:
            raise Unsupported('access with another size in %s' % self.name)
        return v

    def store(self, off, size, v):
        off = int(off)
        if off < 0 or off + size > self.size:
            raise MemoryViolation('write outside of %s' % self.name)
        self.cells[off] = (size, v)


class ArrayRegion(object):
    """a numpy array; the elements stay in the array"""

    def __init__(self, arr, name):
        self.arr = arr
        self.name = name
        self.item = arr.dtype.itemsize
        self.n = arr.shape[0] if arr.ndim else 1
        self.kind = arr.dtype.kind

    def index(self, off, size, what):
        if size != self.item:
            raise Unsupported('access with another element size in %s' % self.name)
        if not is_sym(off):
            if off % size:
                raise Unsupported('misaligned access')
            i = off // size
            if not 0 <= i < self.n:
                raise MemoryViolation('%s outside of array %s: element %d of %d' % (what, self.name, i, self.n))
            return int(i)
        e = as_int_expr(off)
        c = ctx()
        if not c.branch(z3.And(e >= 0, e < self.n * size)):
            raise MemoryViolation('%s outside of array %s of %d elements' % (what, self.name, self.n))
        return c.concretize_int(e, limit=self.n + 1) // size

    def load(self, off, size, ty):
        i = self.index(off, size, 'read')
        v = raw(self.arr)[i]
        if isinstance(v, SymBV):
            v = mk_int(as_int_expr(v))
        if self.kind == 'f':
            raise Unsupported('floating point array')
        if self.kind == 'b':
            v = mk_int(as_int_expr(v)) if is_sym(v) else int(v)
        # unsigned element -> signed representative
        if self.kind == 'u':
            v = wrap(v, 8 * size)
        return v if is_sym(v) else int(v)

    def store(self, off, size, v):
        i = self.index(off, size, 'write')
        if self.kind == 'u':
            v = uns(v, 8 * size)
        self.arr[i] = v


# ---------------------------------------------------------------- IR parsing
TYPE = r'(?:i\d+|ptr|void|float|double|%"[^"]+"|%[\w.:]+|\[[^\]]*\]|\{[^}]*\})'


class Func(object):
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.blocks = {}
        self.entry = None


def split_args(s):
    out, d, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                d += 1
            elif ch in ')]}>':
                d -= 1
            elif ch == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


ATTR = re.compile(r'\b(noundef|nonnull|signext|zeroext|noalias|readonly|nocapture|returned|immarg|writable|dead_on_unwind|captures\([^)]*\)|align \d+|dereferenceable(?:_or_null)?\(\d+\)|sret\((?:[^()]|\([^()]*\))*\)|byval\((?:[^()]|\([^()]*\))*\))\s*')


class Module(object):
    def __init__(self, text):
        self.funcs = {}
        self.globals = {}
        self.types = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            m = re.match(r'(%(?:"[^"]+"|[\w.]+)) = type (.*)$', ln)
            if m:
                self.types[m.group(1)] = m.group(2)
            m = re.match(r'@("[^"]+"|[\w.$]+) = (.*)$', ln)
            if m:
                self.globals[m.group(1)] = m.group(2)
            if ln.startswith('define '):
                m = re.match(r'define (.*?)@("[^"]+"|[\w.$]+)\((.*)\)[^)]*\{$', ln)
                if not m:
                    raise Unsupported('cannot parse %s' % ln)
                ret = ATTR.sub('', m.group(1)).split()
                ret = ret[-1]
                params = []
                # parameters may contain parentheses in their attributes
                depth, j = 0, ln.index('@' + m.group(2)) + len(m.group(2)) + 1
                k = j
                while True:
                    if ln[k] == '(':
                        depth += 1
                    elif ln[k] == ')':
                        depth -= 1
                        if depth == 0:
                            break
                    k += 1
                for p in split_args(ln[j + 1:k]):
                    p = ATTR.sub('', p).split()
                    params.append((p[0], p[-1] if len(p) > 1 else '%%%d' % len(params)))
                f = Func(m.group(2), params, ret)
                i += 1
                cur = None
                while lines[i] != '}':
                    l = lines[i]
                    if re.match(r'[\w."$-]+:', l):
                        cur = l.split(':')[0].strip('"')
                        f.blocks[cur] = []
                        f.entry = f.entry or cur
                    elif l.strip():
                        if cur is None:
                            cur = '0'
                            f.blocks[cur] = []
                            f.entry = cur
                        s = l.strip()
                        if s.startswith(('to label', 'cleanup', 'catch', 'filter')) or (f.blocks[cur] and f.blocks[cur][-1].startswith('switch') and not f.blocks[cur][-1].endswith(']')):
                            f.blocks[cur][-1] += ' ' + s
                        else:
                            f.blocks[cur].append(s)
                    i += 1
                for b in f.blocks.values():
                    for n, s in enumerate(b):
                        b[n] = re.sub(r', !\w+ !\d+', '', re.sub(r', !llvm\.loop !\d+', '', s))
                self.funcs[f.name] = f
            i += 1

    def size(self, t):
        t = t.strip()
        if t == 'ptr' or t == 'double':
            return 8
        if t == 'float':
            return 4
        m = re.match(r'i(\d+)$', t)
        if m:
            return max(1, (int(m.group(1)) + 7) // 8)
        m = re.match(r'\[(\d+) x (.*)\]$', t)
        if m:
            return int(m.group(1)) * self.size(m.group(2))
        return self.layout(t)[0]

    def layout(self, t):
        d = self.types.get(t, t)
        packed = d.startswith('<{')
        m = re.match(r'<?\{(.*)\}>?$', d.strip())
        if not m:
            return (1 << 12, [])
        off, offs, amax = 0, [], 1
        for x in split_args(m.group(1)):
            s = self.size(x)
            a = 1 if packed else self.align(x)
            amax = max(amax, a)
            off = (off + a - 1) // a * a
            offs.append((off, x))
            off += s
        off = (off + amax - 1) // amax * amax
        return off, offs

    def align(self, t):
        m = re.match(r'\[(\d+) x (.*)\]$', t)
        if m:
            return self.align(m.group(2))
        if t.startswith(('%', '{', '<')):
            _, offs = self.layout(t)
            return max([self.align(x) for _, x in offs] or [1])
        return self.size(t)


class Interp(object):
    STEP_LIMIT = 200000

    def __init__(self, module):
        self.m = module
        self.steps = 0
        self.called = set()
        self.gregions = {}

    # operands
    def val(self, s, ty, env):
        s = s.strip()
        if s.startswith('%'):
            return env[s]
        if ty == 'ptr':
            if s == 'null':
                return NULL
            if s.startswith('@'):
                return Ptr(self.glob(s[1:]), 0)
            raise Unsupported('pointer operand %s' % s)
        if s in ('true', 'false'):
            return s == 'true'
        if s in ('undef', 'poison', 'zeroinitializer'):
            return 0
        if ty in ('float', 'double'):
            if s.startswith('0x'):
                import struct
                return struct.unpack('>d', bytes.fromhex(s[2:].zfill(16)))[0]
            return float(s)
        return wrap(int(s), width(ty))

    def glob(self, name):
        r = self.gregions.get(name)
        if r is None:
            g = self.m.globals.get(name)
            if g is None:
                return Scratch(1 << 12, name)
            m = re.match(r'.*?(?:global|constant) (%s) (.*?)(?:, .*)?$' % TYPE, g)
            if m:
                r = Scratch(self.m.size(m.group(1)), '@' + name)
                if re.match(r'i\d+$', m.group(1)):
                    r.cells[0] = (self.m.size(m.group(1)), wrap(int(m.group(2)) if m.group(2).lstrip('-').isdigit() else 0, width(m.group(1))))
            else:
                r = Scratch(1 << 12, '@' + name)
            self.gregions[name] = r
        return r

    def load(self, p, ty):
        if not isinstance(p, Ptr):
            raise Unsupported('load through a non-pointer')
        if p.r is None:
            raise MemoryViolation('null pointer read')
        v = p.r.load(p.off, self.m.size(ty), ty)
        if ty == 'i1' and not isinstance(v, (bool, SymBool)):
            return bool(v & 1) if not is_sym(v) else mk_bool(as_int_expr(v) % 2 == 1)
        return v

    def store(self, p, ty, v):
        if p.r is None:
            raise MemoryViolation('null pointer write')
        p.r.store(p.off, self.m.size(ty), v)

    def call(self, name, args):
        f = self.m.funcs.get(name)
        if f is None:
            return self.external(name, args)
        self.called.add(name)
        env = {}
        for (t, n), a in zip(f.params, args):
            env[n] = a
        blk, prev = f.entry, None
        while True:
            for ins in f.blocks[blk]:
                self.steps += 1
                if self.steps > self.STEP_LIMIT:
                    from .loader import NonTermination
                    raise NonTermination('kernel %s does not terminate within %d steps' % (name, self.STEP_LIMIT))
                if self.steps % 2048 == 0:
                    ctx().x.budget()
                r = self.ins(ins, env, f, prev)
                if r is not None:
                    if r[0] == 'br':
                        prev, blk = blk, r[1]
                        break
                    return r[1]
            else:
                raise Unsupported('block without terminator')

    def external(self, name, args):
        if name == '__cxa_throw':
            ti = args[1].r.name if isinstance(args[1], Ptr) and args[1].r is not None else ''
            m = re.match(r'@?_ZTISt(\d+)(\w+)', ti)
            raise CxxThrow(m.group(2) if m else ti)
        if name.startswith('_ZSt') and '__throw_' in name:
            m = re.search(r'__throw_([a-z_]+?)(?:_fmt)?(?:PKc|z|v|i)', name)
            raise CxxThrow(m.group(1) if m else 'exception')
        if name == '__cxa_allocate_exception':
            return Ptr(Scratch(int(args[0]) + 64, 'exception'), 0)
        if name.startswith('llvm.'):
            return self.intrinsic(name, args)
        if name in ('_Znwm', '_Znam', 'malloc'):
            return Ptr(Scratch(int(args[0]), 'heap'), 0)
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free', '_ZdaPvm'):
            return 0
        if name in ('abort', 'exit', '_ZSt9terminatev'):
            raise CppTerminate(name)
        if re.match(r'_Z(St|N|NK|NS|NKS)?', name) and ('St' in name or 'So' in name or 'Ss' in name):
            # libstdc++ strings and streams: only used to build messages
            return Ptr(Scratch(1 << 12, name), 0)
        raise Unsupported('external function %s' % name)

    def intrinsic(self, name, a):
        n = None
        m = re.search(r'\.i(\d+)$', name)
        if m:
            n = int(m.group(1))
        b = name.split('.')[1]
        if b in ('lifetime', 'dbg', 'assume', 'donothing', 'stacksave', 'stackrestore', 'experimental'):
            return 0
        if b in ('umax', 'umin'):
            x, y = uns(a[0], n), uns(a[1], n)
            return (a[0] if (x >= y if b == 'umax' else x <= y) else a[1])
        if b in ('smax', 'smin'):
            return (a[0] if (a[0] >= a[1] if b == 'smax' else a[0] <= a[1]) else a[1])
        if b == 'abs':
            return a[0] if a[0] >= 0 else wrap(-a[0], n)
        if b in ('memset', 'memcpy', 'memmove'):
            cnt = int(a[2])
            p = a[0]
            if isinstance(p.r, ArrayRegion):
                it = p.r.item
                for k in range(0, cnt, it):
                    if b == 'memset':
                        byte = uns(a[1], 8)
                        if is_sym(byte):
                            raise Unsupported('memset with symbolic value')
                        v = wrap(int.from_bytes(bytes([byte]) * it, 'little'), 8 * it)
                    else:
                        v = a[1].r.load(a[1].off + k, it, 'i%d' % (8 * it))
                    p.r.store(p.off + k, it, v)
                return 0
            if b == 'memcpy' and isinstance(p.r, Scratch) and isinstance(a[1].r, Scratch):
                for o, c in list(a[1].r.cells.items()):
                    if a[1].off <= o < a[1].off + cnt:
                        p.r.cells[p.off + o - a[1].off] = c
                return 0
            if b == 'memset' and isinstance(p.r, Scratch):
                p.r.zero = True
                raise Unsupported('memset of a local object')
        raise Unsupported(name)

    def ins(self, s, env, f, prev):
        dst = None
        m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = (.*)$', s)
        if m:
            dst, s = m.group(1), m.group(2)
        op = s.split(' ', 1)[0]
        h = getattr(self, 'i_' + op, None)
        if h is None:
            raise Unsupported('LLVM instruction %s' % op)
        r = h(s[len(op):].strip(), env, prev)
        if op in ('br', 'ret', 'switch', 'invoke', 'unreachable'):
            if op == 'invoke':
                v, lab = r
                if dst:
                    env[dst] = v
                return ('br', lab)
            return r
        if dst:
            env[dst] = r
        return None

    def i_alloca(self, s, env, prev):
        t = split_args(s)[0]
        return Ptr(Scratch(self.m.size(t), 'local'), 0)

    def i_load(self, s, env, prev):
        s = re.sub(r'^volatile ', '', s)
        a = split_args(s)
        return self.load(self.val(a[1].split(None, 1)[1], 'ptr', env), a[0])

    def i_store(self, s, env, prev):
        s = re.sub(r'^volatile ', '', s)
        a = split_args(s)
        t, v = a[0].rsplit(' ', 1)
        self.store(self.val(a[1].split(None, 1)[1], 'ptr', env), t, self.val(v, t, env))

    def i_getelementptr(self, s, env, prev):
        s = re.sub(r'^(inbounds|nuw|nusw|inrange\([^)]*\))\s+', '', s)
        a = split_args(s)
        t = a[0]
        p = self.val(a[1].split(None, 1)[1], 'ptr', env)
        off = p.off
        for k, x in enumerate(a[2:]):
            xt, xv = x.rsplit(' ', 1)
            i = self.val(xv, xt, env)
            if isinstance(i, Ptr):
                raise Unsupported('gep')
            if k == 0:
                off = off + i * self.m.size(t)
            else:
                mm = re.match(r'\[(\d+) x (.*)\]$', t)
                if mm:
                    t = mm.group(2)
                    off = off + i * self.m.size(t)
                else:
                    o, ft = self.m.layout(t)[1][int(i)]
                    off, t = off + o, ft
        return Ptr(p.r, off)

    def i_icmp(self, s, env, prev):
        s = re.sub(r'^samesign ', '', s)
        pred, rest = s.split(' ', 1)
        a = split_args(rest)
        t, x = a[0].rsplit(' ', 1)
        x, y = self.val(x, t, env), self.val(a[1], t, env)
        if t == 'ptr':
            same = x.r is y.r
            if pred in ('eq', 'ne'):
                r = (same and x.off == y.off)
                return r if pred == 'eq' else (not r)
            if not same:
                raise Unsupported('comparison of unrelated pointers')
            x, y = x.off, y.off
            pred = pred.replace('u', 's')
            n = 64
        else:
            n = width(t)
        if pred == 'eq':
            return x == y
        if pred == 'ne':
            return x != y
        if pred[0] == 'u':
            x, y = uns(x, n), uns(y, n)
        return {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[pred[1:]]()

    def _bin(self, s, env):
        s = re.sub(r'^((nsw|nuw|exact|disjoint)\s+)+', '', s)
        a = split_args(s)
        t, x = a[0].rsplit(' ', 1)
        return width(t), self.val(x, t, env), self.val(a[1], t, env)

    def i_add(self, s, env, prev):
        n, x, y = self._bin(s, env)
        return wrap(x + y, n)

    def i_sub(self, s, env, prev):
        n, x, y = self._bin(s, env)
        if isinstance(x, Ptr):
            raise Unsupported('pointer arithmetic')
        return wrap(x - y, n)

    def i_mul(self, s, env, prev):
        n, x, y = self._bin(s, env)
        return wrap(x * y, n)

    def _div(self, s, env, signed, rem):
        n, x, y = self._bin(s, env)
        if not signed:
            x, y = uns(x, n), uns(y, n)
        if y == 0:
            raise MemoryViolation('integer division by zero in C++')
        if not is_sym(x) and not is_sym(y):
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        else:
            ax, ay = abs(x), abs(y)
            q = ax // ay
            if not (bool(x < 0) == bool(y < 0)):
                q = -q
        return wrap(x - q * y if rem else q, n)

    def i_udiv(self, s, env, prev):
        return self._div(s, env, False, False)

    def i_urem(self, s, env, prev):
        return self._div(s, env, False, True)

    def i_sdiv(self, s, env, prev):
        return self._div(s, env, True, False)

    def i_srem(self, s, env, prev):
        return self._div(s, env, True, True)

    def _logic(self, s, env, op):
        n, x, y = self._bin(s, env)
        if n == 1:
            x = x if isinstance(x, (bool, SymBool)) else bool(x & 1)
            y = y if isinstance(y, (bool, SymBool)) else bool(y & 1)
            return {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}[op]()
        return wrap(core._bits(op, uns(x, n), uns(y, n)) if is_sym(x) or is_sym(y) else {'and': x & y, 'or': x | y, 'xor': x ^ y}[op], n)

    def i_and(self, s, env, prev):
        return self._logic(s, env, 'and')

    def i_or(self, s, env, prev):
        return self._logic(s, env, 'or')

    def i_xor(self, s, env, prev):
        return self._logic(s, env, 'xor')

    def i_shl(self, s, env, prev):
        n, x, y = self._bin(s, env)
        return wrap(x * (1 << int(uns(y, n))), n)

    def i_lshr(self, s, env, prev):
        n, x, y = self._bin(s, env)
        return wrap(uns(x, n) // (1 << int(uns(y, n))), n)

    def i_ashr(self, s, env, prev):
        n, x, y = self._bin(s, env)
        return wrap(x // (1 << int(uns(y, n))), n)

    def _conv(self, s, env):
        s = re.sub(r'^(nneg|nuw|nsw)\s+', '', s)
        m = re.match(r'(\S+) (\S+) to (\S+)$', s)
        return m.group(1), self.val(m.group(2), m.group(1), env), m.group(3)

    def i_zext(self, s, env, prev):
        t, v, to = self._conv(s, env)
        return uns(v, width(t)) if not isinstance(v, bool) else int(v)

    def i_sext(self, s, env, prev):
        t, v, to = self._conv(s, env)
        if t == 'i1':
            return -uns(v, 1)
        return v

    def i_trunc(self, s, env, prev):
        t, v, to = self._conv(s, env)
        if to == 'i1':
            return mk_bool(as_int_expr(v) % 2 == 1) if is_sym(v) else bool(v & 1)
        return wrap(v, width(to))

    def i_freeze(self, s, env, prev):
        t, v = s.rsplit(' ', 1)
        return self.val(v, t, env)

    def i_bitcast(self, s, env, prev):
        return self._conv(s, env)[1]

    def i_ptrtoint(self, s, env, prev):
        raise Unsupported('ptrtoint')

    def i_select(self, s, env, prev):
        a = split_args(s)
        c = self.val(a[0].rsplit(' ', 1)[1], 'i1', env)
        k = 1 if c else 2
        t, v = a[k].rsplit(' ', 1)
        return self.val(v, t, env)

    def i_phi(self, s, env, prev):
        t = re.match(TYPE, s).group(0)
        for m in re.finditer(r'\[ ([^,]+), %("[^"]+"|[\w.$-]+) \]', s):
            if m.group(2).strip('"') == prev:
                return self.val(m.group(1), t, env)
        raise Unsupported('phi')

    def i_br(self, s, env, prev):
        m = re.match(r'label %("[^"]+"|[\w.$-]+)$', s)
        if m:
            return ('br', m.group(1).strip('"'))
        m = re.match(r'i1 (\S+), label %("[^"]+"|[\w.$-]+), label %("[^"]+"|[\w.$-]+)', s)
        c = self.val(m.group(1), 'i1', env)
        return ('br', (m.group(2) if c else m.group(3)).strip('"'))

    def i_switch(self, s, env, prev):
        m = re.match(r'(i\d+) (\S+), label %([\w.$-]+) \[(.*)\]', s)
        v = self.val(m.group(2), m.group(1), env)
        for c in re.finditer(r'i\d+ (-?\d+), label %([\w.$-]+)', m.group(4)):
            if v == int(c.group(1)):
                return ('br', c.group(2))
        return ('br', m.group(3))

    def i_ret(self, s, env, prev):
        if s == 'void':
            return ('ret', None)
        t, v = s.rsplit(' ', 1)
        return ('ret', self.val(v, t, env))

    def i_unreachable(self, s, env, prev):
        raise Unsupported('unreachable reached')

    def _call(self, s, env):
        m = re.match(r'(.*?)@("[^"]+"|[\w.$]+)\(', s)
        if not m:
            raise Unsupported('indirect call')
        k = m.end() - 1
        d, j = 0, k
        while True:
            if s[j] == '(':
                d += 1
            elif s[j] == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        args = []
        for a in split_args(s[k + 1:j]):
            a = ATTR.sub('', a)
            if a.startswith('metadata'):
                continue
            t, v = a.rsplit(' ', 1)
            args.append(self.val(v, t.strip(), env))
        ret = ATTR.sub('', m.group(1)).split()
        r = self.call(m.group(2), args)
        if ret and re.match(r'i\d+$', ret[-1]) and isinstance(r, Ptr):
            r = 0
        return r, s[j + 1:]

    def i_call(self, s, env, prev):
        return self._call(s, env)[0]

    i_tail = i_call

    def i_invoke(self, s, env, prev):
        r, rest = self._call(s, env)
        m = re.search(r'to label %("[^"]+"|[\w.$-]+)', rest)
        return r, m.group(1).strip('"')


class CxxThrow(Exception):
    def __init__(self, name):
        Exception.__init__(self, name)
        self.name = name


# ---------------------------------------------------------------- Cython glue
CY_T = {'int64_t': 'i8', 'int32_t': 'i4', 'int16_t': 'i2', 'int8_t': 'i1', 'uint64_t': 'u8', 'uint32_t': 'u4', 'uint16_t': 'u2', 'uint8_t': 'u1', 'float64_t': 'f8', 'float32_t': 'f4'}
C_INT = {'unsigned int': (32, False), 'int': (32, True), 'uint32_t': (32, False), 'int64_t': (64, True), 'uint64_t': (64, False), 'size_t': (64, False), 'long': (64, True), 'unsigned long': (64, False), 'Py_ssize_t': (64, True)}


def compile_ir(repo):
    cpp = os.path.join(repo, 'beam_telescope_analysis', 'cpp')
    d = tempfile.mkdtemp(prefix='vir')
    try:
        with open(os.path.join(d, 'w.cpp'), 'w') as f:
            f.write('#include "AnalysisFunctions.h"\n')
        clang = next(c for c in ('/usr/bin/clang++-18', '/usr/bin/clang++', 'clang++') if c == 'clang++' or os.path.exists(c))
        # -O0 leaves out inline functions nobody calls; the kernels are plain functions
        subprocess.run([clang, '-std=c++14', '-O0', '-S', '-emit-llvm', '-fno-discard-value-names', '-femit-all-decls', '-I', cpp, 'w.cpp', '-o', 'w.ll'], cwd=d, check=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        with open(os.path.join(d, 'w.ll')) as f:
            return f.read()
    finally:
        shutil.rmtree(d)


class Ext(object):
    pass


def load_extension(world):
    cpp = os.path.join(world.repo, 'beam_telescope_analysis', 'cpp')
    module = Module(compile_ir(world.repo))
    with open(os.path.join(cpp, 'analysis_functions.pyx')) as f:
        src = f.read()
    world.ext = module
    decls = {}
    m = re.search(r'^cdef extern from .*?:\n((?:[ \t]+.*\n|\n)*)', src, re.M)
    for ln in m.group(1).split('\n'):
        mm = re.match(r'\s+([\w ]+?)\s*\b(\w+)\s*\((.*)\)\s*(except.*|nogil.*)?$', ln)
        if not mm or 'cppclass' in ln:
            continue
        ps = []
        for p in split_args(mm.group(3)):
            p = re.sub(r'\bconst\b', '', p)
            k = re.match(r'\s*([\w ]*?)\s*((?:[*&]\s*)*)(\w+)\s*$', p)
            if k and k.group(1).strip() in C_INT or k and '*' in k.group(2):
                ps.append((k.group(1).strip(), k.group(2).replace(' ', '')))
            else:
                k = re.match(r'\s*([\w ]+?)\s*((?:[*&]\s*)*)$', p)
                ps.append((k.group(1).strip(), k.group(2).replace(' ', '')))
        decls[mm.group(2)] = (mm.group(1).strip(), ps, bool(mm.group(4) and 'except' in mm.group(4)))
    env = {'__builtins__': world.builtins, 'np': SHIM}
    helper = Glue(module, world)
    for name, (ret, ps, exc) in decls.items():
        key = next((k for k in module.funcs if re.match(r'_Z%d%s[A-Z]' % (len(name), name), k) or k == name), None)
        if key:
            env[name] = helper.kernel(name, key, ret, ps, exc)
    env['__ptr'] = helper.ptr
    env['__arg'] = helper.check_array
    env['__uint'] = helper.check_uint
    body = src[m.end():]
    out = []
    for ln in body.split('\n'):
        mm = re.match(r'(cp?def|def)\s+(?:[\w.\[\] ,=]+\s)?(\w+)\((.*)\):\s*$', ln)
        if mm:
            names, pre = [], []
            for a in split_args(mm.group(3)):
                k = re.match(r'(?:cnp|np)\.ndarray\[\s*(?:cnp|np)\.(\w+)\s*(?:,\s*ndim\s*=\s*(\d+))?.*?\]\s*(\w+)(\s*=.*)?$', a)
                k2 = re.match(r'ndarray\[\s*(?:cnp\.)?(\w+)\s*(?:,\s*ndim\s*=\s*(\d+))?.*?\]\s*(\w+)(\s*=.*)?$', a)
                k = k or k2
                if k:
                    names.append(k.group(3) + (k.group(4) or ''))
                    pre.append('    %s = __arg(%s, %r, %d, %r)' % (k.group(3), k.group(3), CY_T[k.group(1)], int(k.group(2) or 1), k.group(3)))
                    continue
                k = re.match(r'(?:const\s+)?(unsigned int|int|uint32_t|int64_t|uint64_t|size_t|long|unsigned long|Py_ssize_t)\s*&?\s*(\w+)(\s*=.*)?$', a)
                if k:
                    names.append(k.group(2) + (k.group(3) or ''))
                    pre.append('    %s = __uint(%s, %r)' % (k.group(2), k.group(2), k.group(1)))
                    continue
                k = re.match(r'(?:object\s+|bint\s+)?(\w+(\s*=.*)?)$', a)
                if not k:
                    raise Unsupported('Cython argument %s' % a)
                names.append(k.group(1))
            out.append('def %s(%s):' % (mm.group(2), ', '.join(names)))
            out.extend(pre)
            continue
        # casts: <T*&> x.data -> __ptr(x); <T&> e -> e
        ln = re.sub(r'<\s*(?:const\s+)?[\w ]+\*\s*&?\s*>\s*(?:&\s*)?(\w+)(?:\.data|\[0\])', r'__ptr(\1)', ln)
        ln = re.sub(r'<\s*(?:const\s+)?[\w ]+&?\s*>\s*', '', ln)
        ln = re.sub(r'^(\s*)cdef\s+(?:const\s+)?(?:unsigned int|int|uint32_t|int64_t|long|size_t|Py_ssize_t|object|bint)\s+(\w+\s*=)', r'\1\2', ln)
        ln = re.sub(r'^(\s*)cdef\s+.*\b(\w+)\s*$', r'\1\2 = None', ln)
        ln = re.sub(r'^(\s*)cdef\s+cnp\.ndarray(?:\[.*?\])?\s+(\w+\s*=)', r'\1\2', ln)
        out.append(ln)
    try:
        code = compile('\n'.join(out), 'analysis_functions.pyx', 'exec')
    except SyntaxError as e:
        raise Unsupported('Cython source not understood: %s' % e)
    exec(code, env)
    mod = types.ModuleType('beam_telescope_analysis.analysis_functions')
    for k, v in env.items():
        if not k.startswith('__'):
            setattr(mod, k, v)
    return mod


class Glue(object):
    def __init__(self, module, world):
        self.module = module
        self.world = world

    def check_array(self, a, dt, ndim, name):
        if a is None:
            return a
        if isinstance(a, np.ndarray) and not isinstance(a, SArr):
            a = from_real(a)
        if not isinstance(a, SArr):
            raise TypeError("Argument '%s' has incorrect type (expected numpy.ndarray, got %s)" % (name, type(a).__name__))
        if a.ndim != ndim:
            raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (ndim, a.ndim))
        if a.dtype != np.dtype(dt):
            raise ValueError("Buffer dtype mismatch, expected '%s' but got '%s'" % (np.dtype(dt), a.dtype))
        return a

    def check_uint(self, v, t):
        n, signed = C_INT[t]
        if isinstance(v, (float, SymReal)):
            raise TypeError('an integer is required')
        if isinstance(v, np.ndarray):
            v = v.item()
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if v < lo or v > hi:
            raise OverflowError("can't convert value to %s" % t)
        return v

    def ptr(self, a):
        if getattr(a, '_strided', False) and a.shape[0] > 1 or (a.shape[0] > 1 and raw(a).strides[0] != raw(a).itemsize):
            raise MemoryViolation('strided array handed to a kernel that reads it as contiguous')
        return Ptr(ArrayRegion(a, 'argument'), 0)

    def kernel(self, name, key, ret, ps, exc):
        def call(*args):
            it = Interp(self.module)
            cargs = []
            if len(args) != len(ps):
                raise TypeError('wrong number of arguments')
            for a, (t, ind) in zip(args, ps):
                if ind in ('*', '*&'):
                    if not isinstance(a, Ptr):
                        raise Unsupported('pointer argument expected')
                    if ind == '*':
                        cargs.append(a)
                        continue
                    s = Scratch(8, 'pointer argument')
                    s.store(0, 8, a)
                    cargs.append(Ptr(s, 0))
                else:
                    n, signed = C_INT[t]
                    a = wrap(a, n)
                    if ind == '&':
                        s = Scratch(n // 8, 'scalar argument')
                        s.store(0, n // 8, a)
                        cargs.append(Ptr(s, 0))
                    else:
                        cargs.append(a)
            try:
                r = it.call(key, cargs)
            except CxxThrow as e:
                if not exc:
                    raise CppTerminate('C++ exception %s is not caught' % e.name)
                raise CXX_EXC.get(e.name, RuntimeError)('C++ %s' % e.name)
            finally:
                self.world.used.setdefault('C++ kernels (LLVM IR)', set()).add(name)
            if r is None:
                return None
            n, signed = C_INT.get(ret, (32, False))
            return r if signed else uns(r, n)
        call.__name__ = name
        return call
