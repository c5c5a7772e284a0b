"""Loads the package under test from its current sources for symbolic execution.

The source text of every module of /repo/beam_telescope_analysis is parsed, `'...' % x` is made lazy about symbolic
values, loops get a tick, and the code is executed in a namespace whose imports and builtins are symbolic models:
numpy -> symnp.SHIM, numba -> plain Python, tables -> faketables, analysis_functions -> LLVM IR of the C++ kernels.
"""
import ast
import builtins
import itertools
import math
import os
import re
import sys
import types

import numpy as np

from . import core, symnp, faketables, merge
from .core import Unsupported, is_sym, SymInt, SymReal, SymBV, SymBool
from .symnp import SHIM, ShimType, SArr, SStruct

REPO = os.environ.get('BTA_REPO', '/repo')
PKG = 'beam_telescope_analysis'


class NonTermination(Exception):
    """a loop of the code under test exceeded the iteration bound"""


TICK_LIMIT = 20000


class Universal(object):
    """stand-in for libraries without influence on the checked behaviour (plots, progress bars, logging)"""

    def __init__(self, name='stub'):
        self.__dict__['_name'] = name

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        u = Universal(self._name + '.' + n)
        self.__dict__[n] = u
        return u

    def __setattr__(self, n, v):
        self.__dict__[n] = v

    def __call__(self, *a, **k):
        return Universal(self._name + '()')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return iter(())

    def __getitem__(self, k):
        return Universal(self._name + '[]')

    def __setitem__(self, k, v):
        pass

    def __lt__(self, o):
        return False
    __gt__ = __le__ = __ge__ = __lt__

    def __len__(self):
        return 0

    def __bool__(self):
        return True

    def __mro_entries__(self, bases):
        return (object,)

    def __add__(self, o):
        return self
    __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __add__


class Missing(object):
    """library function that has no model"""

    def __init__(self, name):
        self.__dict__['_name'] = name

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Missing(self._name + '.' + n)

    def __call__(self, *a, **k):
        h = hooks.get(self._name)
        if h is not None:
            return h(*a, **k)
        raise Unsupported('no model for %s' % self._name)

    def __mro_entries__(self, bases):
        return (object,)


hooks = {}  # name of a library function -> model, set by harnesses


class Tqdm(object):
    def __init__(self, it=None, *a, **k):
        self.it = it
        self.n = 0
        self.total = k.get('total')

    def __iter__(self):
        return iter(self.it)

    def update(self, n=1):
        pass

    def close(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, n):
        return lambda *a, **k: None

    @staticmethod
    def write(*a, **k):
        pass


# ---------------------------------------------------------------- math
class MathShim(object):
    pi, e, nan, inf, tau = math.pi, math.e, math.nan, math.inf, math.tau

    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return f
        un = {'sqrt': 'sqrt', 'cos': 'cos', 'sin': 'sin', 'tan': 'tan', 'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'atan2': 'arctan2', 'fabs': 'absolute',
              'isnan': 'isnan', 'isinf': 'isinf', 'isfinite': 'isfinite', 'hypot': 'hypot', 'degrees': 'rad2deg', 'radians': 'deg2rad', 'copysign': 'copysign', 'exp': 'exp', 'log': 'log', 'pow': 'power'}

        def g(*a):
            a = [symnp._unwrap0(x) for x in a]
            if not any(is_sym(x) for x in a):
                return f(*a)
            if n == 'floor':
                return a[0].__floor__()
            if n == 'ceil':
                return a[0].__ceil__()
            if n == 'trunc':
                return a[0].__trunc__()
            if n == 'fmod':
                raise Unsupported('fmod')
            if n in un:
                return symnp.ufunc_call(un[n], *a)
            raise Unsupported('math.%s' % n)
        return g


def _unwrap0(x):
    if isinstance(x, np.ndarray):
        return x.item()
    return x


symnp._unwrap0 = _unwrap0


# ---------------------------------------------------------------- builtins
class IntShim(ShimType):
    def __init__(self):
        self._t = int
        self.dtype = np.dtype(np.int64)
        self.__name__ = 'int'

    def __call__(self, v=0, *a):
        v = _unwrap0(v) if isinstance(v, np.ndarray) else v
        if is_sym(v):
            if isinstance(v, SymReal):
                return v.__trunc__()
            if isinstance(v, SymBool):
                return core.mk_int(core.as_int_expr(v))
            return v
        return int(v, *a)

    def __instancecheck__(self, o):
        return isinstance(o, (int, SymInt))

    def __getattr__(self, n):
        return getattr(int, n)


class FloatShim(ShimType):
    def __init__(self):
        self._t = float
        self.dtype = np.dtype(float)
        self.__name__ = 'float'

    def __call__(self, v=0.0):
        v = _unwrap0(v) if isinstance(v, np.ndarray) else v
        if is_sym(v):
            return core._toreal(v)
        return float(v)

    def __instancecheck__(self, o):
        return isinstance(o, (float, SymReal))

    def __getattr__(self, n):
        return getattr(float, n)


def _sym_round(v, n=None):
    v = _unwrap0(v) if isinstance(v, np.ndarray) else v
    if is_sym(v):
        return v.__round__(n)
    return round(v) if n is None else round(v, n)


def _safe(v):
    if is_sym(v):
        return 0
    if isinstance(v, (SArr, SStruct, symnp.SVoid)):
        return '<array>'
    if isinstance(v, np.ndarray) and v.dtype == object:
        return '<array>'
    if isinstance(v, tuple):
        return tuple(_safe(x) for x in v)
    if isinstance(v, list):
        return [_safe(x) for x in v]
    if isinstance(v, dict):
        return {k: _safe(x) for k, x in v.items()}
    return v


def _safe_fmt(f, v):
    sv = _safe(v)
    try:
        return f % sv
    except (TypeError, ValueError):
        if sv is not v or isinstance(sv, tuple):
            try:
                return re.sub(r'%[-+ #0-9.*]*[diouxXeEfFgGcrs]', '%s', f) % sv
            except (TypeError, ValueError):
                pass
        return f % v


def _no_print(*a, **k):
    pass


class Transform(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Name('__symfmt__', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_FormattedValue(self, n):
        self.generic_visit(n)
        n.value = ast.copy_location(ast.Call(ast.Name('__symsafe__', ast.Load()), [n.value], []), n.value)
        return n

    def _tick(self, n):
        self.generic_visit(n)
        t = ast.Expr(ast.Call(ast.Name('__tick__', ast.Load()), [], []))
        ast.copy_location(t, n)
        n.body.insert(0, t)
        return n

    visit_While = _tick
    visit_For = _tick


# ---------------------------------------------------------------- numba
def _jit(*a, **k):
    if a and isinstance(a[0], tuple) and a[0] and all(isinstance(t, NumbaType) for t in a[0]):
        a = (Signature(None, a[0]),)
    if a and isinstance(a[0], Signature):
        return a[0].wrap
    if a and callable(a[0]) and not isinstance(a[0], (NumbaType,)):
        f = a[0]
        if not hasattr(f, 'py_func'):
            try:
                f.py_func = f
            except AttributeError:
                pass
        return f
    return _jit


class NumbaType(object):
    def __getitem__(self, k):
        return self

    def __call__(self, *a, **k):
        return self


class Signature(NumbaType):
    """declared types of a compiled function"""

    def __init__(self, ret, args):
        self.ret = ret
        self.args = args

    def wrap(self, f):
        def g(*a):
            a = [merge.cast(t, v) if isinstance(t, NumbaScalar) else v for t, v in zip(self.args, a)]
            r = f(*a)
            return merge.cast(self.ret, r) if isinstance(self.ret, NumbaScalar) else r
        g.__name__ = f.__name__
        g.py_func = f
        return g


class NumbaShim(object):
    jit = njit = vectorize = guvectorize = generated_jit = staticmethod(_jit)
    prange = range

    class errors(object):
        class NumbaError(Exception):
            pass

    def __getattr__(self, n):
        if n in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64', 'boolean', 'void', 'bool_', 'b1'):
            t = {'boolean': 'bool_', 'void': 'bool_', 'b1': 'bool_'}.get(n, n)
            s = getattr(SHIM, t)
            return NumbaScalar(s)
        if n == 'typed':
            m = types.SimpleNamespace(List=TypedList, Dict=dict)
            return m
        if n == 'types':
            return self
        raise AttributeError(n)


class NumbaScalar(ShimType, NumbaType):
    def __init__(self, s):
        self._t = s._t
        self.dtype = s.dtype
        self.__name__ = s.__name__

    def __call__(self, *a):
        if len(a) == 1 and not isinstance(a[0], NumbaType):
            return ShimType.__call__(self, a[0])
        return Signature(self, a)

    def __getitem__(self, k):
        return NumbaType()


class TypedList(list):
    @staticmethod
    def empty_list(*a, **k):
        return TypedList()


class InspectShim(object):
    """inspect with a fast getouterframes"""

    def __getattr__(self, n):
        import inspect
        return getattr(inspect, n)

    def currentframe(self):
        return sys._getframe(1)

    def getouterframes(self, frame, context=1):
        import linecache
        r = []
        while frame is not None:
            co = frame.f_code
            if co.co_filename.startswith(_ENGINE):
                break
            lines = linecache.getlines(co.co_filename)
            start = max(0, min(frame.f_lineno - 1 - context // 2, len(lines) - context))
            r.append((frame, co.co_filename, frame.f_lineno, co.co_name, lines[start:start + context] if lines else None, frame.f_lineno - 1 - start))
            frame = frame.f_back
        return r


class YamlShim(object):
    """safe_dump and safe_load that keep symbolic values; documents without symbolic values written as text are parsed
    by the real module"""

    def __init__(self, world):
        import yaml
        self.yaml = yaml
        self.world = world
        self.YAMLError = yaml.YAMLError
        self.docs = {}

    def __getattr__(self, n):
        raise Unsupported('yaml.%s' % n)

    def _norm(self, x):
        if x is None or type(x) in (str, bool, int, float):
            return x
        if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
            return [self._norm(v) for v in x]
        if type(x) is dict:
            ks = list(x)
            try:
                ks = sorted(ks)
            except TypeError:
                pass
            return {self._norm(k): self._norm(x[k]) for k in ks}
        if type(x).__name__ in ('SymReal', 'SymInt', 'SymBool'):
            return x
        raise self.yaml.representer.RepresenterError('cannot represent an object', x)

    def safe_dump(self, data, stream=None, default_flow_style=False, sort_keys=True, **k):
        if k:
            raise Unsupported('yaml.safe_dump(%s)' % ', '.join(k))
        doc = self._norm(data)
        key = 'symbolic document %d' % len(self.docs)
        self.docs[key] = doc
        if stream is None:
            return key
        stream.write(key)

    def dump(self, data, stream=None, Dumper=None, **k):
        if Dumper is not self.yaml.SafeDumper:
            raise Unsupported('yaml.dump')
        return self.safe_dump(data, stream, **k)

    def safe_load(self, stream):
        text = stream if isinstance(stream, str) else stream.read()
        if text in self.docs:
            return self._norm(self.docs[text])
        if 'symbolic document' in text:
            raise self.yaml.YAMLError('mixed documents')
        return self.yaml.safe_load(text)


_ENGINE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '')


# ---------------------------------------------------------------- the world
class SymWorld(object):
    symbolic = True

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.fs = faketables.FS()
        self.modules = {}
        self.used = {}
        self.np = SHIM
        self.ticks = 0
        self.tables = faketables.make_tables(self)
        self.ext = None
        self.overrides = {}
        self.patched = []
        self.stubs = {
            'numpy': SHIM, 'numba': NumbaShim(), 'tables': self.tables, 'math': MathShim(), 'tqdm': types.SimpleNamespace(tqdm=Tqdm, trange=range),
            'progressbar': Universal('progressbar'), 'matplotlib': Universal('matplotlib'), 'mpl_toolkits': Universal('mpl_toolkits'),
            'logging': self._logging(), 'scipy': self._scipy(), 'pylandau': Missing('pylandau'), 
            'numexpr': types.SimpleNamespace(evaluate=self._ne_evaluate), 'dill': Missing('dill'), 'multiprocessing': Missing('multiprocessing'),
            'os': self._os(), 'pymosa_mimosa26_interpreter': Missing('pymosa'), 'pybar': Missing('pybar'), 'contextlib2': __import__('contextlib'),
            'time': types.SimpleNamespace(time=lambda: 0.0, asctime=lambda *a: 'now', localtime=lambda *a: None, struct_time=tuple, sleep=lambda *a: None, strftime=lambda *a: '', perf_counter=lambda: 0.0),
            'yaml': YamlShim(self), 'inspect': InspectShim(), 'importlib': types.SimpleNamespace(import_module=self._import_module),
            'psutil': Missing('psutil'), 'threading': Missing('threading'), 'random': Missing('random'),
        }
        self.reals = {'__future__', 're', 'itertools', 'functools', 'collections', 'copy', 'json', 'warnings', 'ast', 'errno', 'typing', 'abc',
                      'contextlib', 'operator', 'six', 'numbers', 'string', 'enum', 'sys', 'datetime', 'pkg_resources', 'types', 'dataclasses', 'bisect', 'heapq', 'shutil', 'glob', 'io', 'struct', 'gc', 'traceback', 'textwrap', 'tempfile', 'fractions', 'decimal', 'statistics'}
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b['int'] = IntShim()
        b['float'] = FloatShim()
        b['round'] = _sym_round
        b['print'] = _no_print
        b['open'] = self._open
        b['__symfmt__'] = _safe_fmt
        b['__symsafe__'] = _safe
        b['__tick__'] = self._tick
        b.update(merge.builtins_())
        self.builtins = b

    def _tick(self):
        self.ticks += 1
        if self.ticks > TICK_LIMIT:
            raise NonTermination('more than %d loop iterations' % TICK_LIMIT)
        if self.ticks % 512 == 0 and core.CUR is not None:
            core.CUR.x.budget()

    def reset(self):
        """fresh files for a new path"""
        for o, n, v in reversed(self.patched):
            setattr(o, n, v)
        del self.patched[:]
        self.fs.files.clear()
        self.fs.text.clear()
        self.ticks = 0
        hooks.clear()

    # -- model modules
    def _logging(self):
        u = Universal('logging')
        u.__dict__.update(DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50)
        for n in 'info debug warning warn error critical exception log basicConfig'.split():
            u.__dict__[n] = _no_print
        return u

    def _scipy(self):
        return Missing('scipy')

    def _ne_evaluate(self, expr, local_dict=None, global_dict=None, **k):
        env = {}
        if local_dict is None:
            fr = sys._getframe(1)
            env.update(fr.f_globals)
            env.update(fr.f_locals)
        else:
            env.update(local_dict)
        if global_dict:
            env.update(global_dict)
        return faketables.evaluate(expr, env)

    def _os(self):
        w = self

        class P(object):
            @staticmethod
            def isfile(p):
                return p in w.fs.files or p in w.fs.text
            exists = isfile

            @staticmethod
            def isdir(p):
                return True

            @staticmethod
            def abspath(p):
                return p

            def __getattr__(self, n):
                return getattr(os.path, n)

        class O(object):
            path = P()

            @staticmethod
            def remove(p):
                if p not in w.fs.files and p not in w.fs.text:
                    raise OSError('no file %s' % p)
                w.fs.files.pop(p, None)
                w.fs.text.pop(p, None)
            unlink = remove

            @staticmethod
            def rename(a, b):
                w.fs.files[b] = w.fs.files.pop(a)

            @staticmethod
            def getcwd():
                return '/virt'

            @staticmethod
            def makedirs(*a, **k):
                pass

            @staticmethod
            def listdir(*a):
                return []
            mkdir = makedirs
            sep = '/'
            name = 'posix'
            environ = {}
            linesep = '\n'
            error = OSError

            def __getattr__(self, n):
                raise Unsupported('os.%s' % n)
        return O()

    def _open(self, path, mode='r', *a, **k):
        import io
        w = self
        path = str(path)
        if 'r' in mode and '+' not in mode:
            if path not in w.fs.text:
                raise OSError(2, 'No such file or directory', path)
            return io.StringIO(w.fs.text[path])
        if 'w' in mode or 'a' in mode:
            class F(io.StringIO):
                def close(self_):
                    w.fs.text[path] = (w.fs.text.get(path, '') if 'a' in mode else '') + self_.getvalue()
                    io.StringIO.close(self_)

                def __exit__(self_, *a):
                    self_.close()
            return F()
        raise Unsupported('open mode %s' % mode)

    # -- imports
    def _import_module(self, name, package=None):
        if name.startswith('.'):
            name = (package or PKG) + name
        return self._import(name, fromlist=('__name__',))

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or PKG
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            name = base + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == PKG:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f == '*':
                        continue
                    if not hasattr(m, f) and self._path(name + '.' + f):
                        setattr(m, f, self.load(name + '.' + f))
                    elif f == 'analysis_functions' and name == PKG:
                        setattr(m, f, self.load(name + '.' + f))
                return m
            return self.load(PKG)
        if top == 'pixel_clusterizer':
            m = self._third(name)
            if not fromlist:
                return self._third(top)
            for f in fromlist:
                if not hasattr(m, f):
                    setattr(m, f, self._third(name + '.' + f))
            return m
        if top in self.stubs:
            s = self.stubs[top]
            if not fromlist:
                return s
            for p in name.split('.')[1:]:
                s = getattr(s, p)
            return s
        if top in self.reals:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        try:
            builtins.__import__(name)
        except ImportError:
            raise
        raise Unsupported('import of %s' % name)

    def _third(self, name):
        """third-party code that is executed symbolically as well"""
        if name in self.modules:
            return self.modules[name]
        import importlib.util
        path = importlib.util.find_spec(name.split('.')[0]).origin
        if '.' in name:
            path = os.path.join(os.path.dirname(path), *name.split('.')[1:]) + '.py'
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name.split('.')[0]
        m.__dict__['__builtins__'] = self.builtins
        self.modules[name] = m
        if '.' in name:
            setattr(self._third(name.split('.')[0]), name.split('.')[1], m)
            with open(path) as f:
                tree = Transform().visit(merge.Merge().visit(ast.parse(f.read(), path)))
            ast.fix_missing_locations(tree)
            exec(compile(tree, path, 'exec', dont_inherit=True), m.__dict__)
        return m

    def _path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py' if os.path.isfile(p + '.py') else None

    def load(self, name):
        if not name.startswith(PKG):
            name = PKG + '.' + name
        if name in self.modules:
            return self.modules[name]
        if name == PKG + '.tools.plot_utils' and name not in self.overrides:
            m = Universal('plot_utils')
            self.modules[name] = m
            return m
        if name == PKG + '.analysis_functions':
            from . import llvmsym
            m = llvmsym.load_extension(self)
            self.modules[name] = m
            return m
        path = self._path(name)
        if path is None:
            raise ImportError('No module named %s' % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if path.endswith('__init__.py') else name.rpartition('.')[0]
        m.__dict__['__builtins__'] = self.builtins
        self.modules[name] = m
        parent, _, leaf = name.rpartition('.')
        if parent:
            pm = self.load(parent)
            setattr(pm, leaf, m)
        if name == PKG:  # version lookup only
            m.__version__ = '0'
            m.__path__ = [os.path.dirname(path)]
            return m
        with open(path) as f:
            src = f.read()
        if not src.strip():
            return m
        tree = Transform().visit(merge.Merge().visit(ast.parse(src, path)))
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec', dont_inherit=True)
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        return m

    def mod(self, name):
        return self.load(PKG + '.' + name)

    # -- harness interface
    def path(self, name):
        return '/virt/' + name

    def write_h5(self, path, nodes, attrs=None, index=None):
        with self.fs.open_file(path, 'w') as f:
            for n, d in nodes.items():
                if isinstance(d, SStruct):
                    f.create_table(f.root, n, d.dtype, obj=d if len(d) else None)
                else:
                    f.create_carray(f.root, n, obj=d)
                for col in (index or {}).get(n, ()):
                    f.root._children[n].colindexed[col] = True
                for k, v in (attrs or {}).get(n, {}).items():
                    setattr(f.root._children[n].attrs, k, v)

    def nodes(self, path):
        g = self.fs.files[path]
        return sorted(n for n, v in g._children.items() if not isinstance(v, faketables.Group))

    def read_h5(self, path, node):
        return self.fs.files[path]._children[node]._d.copy()

    def open(self, path, mode='r'):
        return self.fs.open_file(path, mode)

    def write_text(self, path, text):
        self.fs.text[path] = text

    def exists(self, path):
        return path in self.fs.files or path in self.fs.text

    def hook(self, name, f):
        """model of a library function that has none; in real mode the library runs"""
        hooks[name] = f

    def patch(self, obj, name, v):
        self.patched.append((obj, name, getattr(obj, name)))
        setattr(obj, name, v)

    def to_struct(self, fields, rows):
        return symnp.np_array([tuple(r) for r in rows], dtype=np.dtype(fields)) if rows else SStruct.empty((0,), np.dtype(fields))

    def to_list(self, vals):
        """numba list of integers"""
        return TypedList(vals)

    def to_array(self, vals, dtype):
        return symnp.np_array(vals, dtype=np.dtype(dtype)) if len(vals) else symnp.np_zeros((0,), dtype=np.dtype(dtype))
