"""In-memory model of the part of PyTables the code uses: files of named tables and arrays."""
import builtins

import numpy as np

from .core import Unsupported
from . import symnp
from .symnp import SStruct, from_real, np_array, asarr, mk, raw, _dt


class NodeError(AttributeError, Exception):
    pass


class NoSuchNodeError(NodeError):
    pass


class ClosedNodeError(ValueError):
    pass


class ClosedFileError(ValueError):
    pass


class HDF5ExtError(RuntimeError):
    pass


class Filters(object):
    def __init__(self, *a, **k):
        self.__dict__.update(k)


class Atom(object):
    def __init__(self, dtype, dflt=0):
        self.dtype = np.dtype(dtype)
        self.dflt = dflt

    @classmethod
    def from_dtype(cls, dtype, dflt=0):
        return cls(_dt(dtype), dflt)

    from_sctype = from_dtype

    @classmethod
    def from_kind(cls, kind, itemsize=None, **k):
        return cls(np.dtype(kind if itemsize is None else '%s%d' % (kind, 8 * itemsize)))


def _atom(t):
    return lambda *a, **k: Atom(t)


class Col(object):
    def __init__(self, dtype, pos=None):
        self.dtype = np.dtype(dtype)
        self.pos = pos


def _col(t):
    return lambda *a, **k: Col(t, k.get('pos'))


def StringCol(itemsize=None, *a, **k):
    return Col('S%d' % itemsize, k.get('pos'))


class IsDescription(object):
    pass


def desc_dtype(d):
    if isinstance(d, type) and issubclass(d, IsDescription):
        d = {n: c for n, c in vars(d).items() if isinstance(c, Col)}
    if isinstance(d, dict):
        it = sorted(d.items(), key=lambda x: (x[1].pos if x[1].pos is not None else 1 << 30, x[0]))
        return np.dtype([(n, c.dtype) for n, c in it])
    if isinstance(d, (SStruct,)):
        return d.dtype
    return np.dtype(_dt(d))


class Attrs(object):
    def __getitem__(self, k):
        return getattr(self, k)

    def __setitem__(self, k, v):
        setattr(self, k, v)

    def __contains__(self, k):
        return k in self.__dict__

    def _f_list(self, *a):
        return list(self.__dict__)


class Node(object):
    def __init__(self, parent, name, title=''):
        self._v_parent = parent
        self.__dict__['name'] = name
        self.title = title or ''
        self.attrs = Attrs()
        self.filters = None

    @property
    def _v_attrs(self):
        return self.attrs

    @property
    def _v_name(self):
        return self.name

    @property
    def _v_title(self):
        return self.title

    @property
    def _v_pathname(self):
        return (self._v_parent._v_pathname.rstrip('/') + '/' + self.name) if self._v_parent is not None else '/'

    @property
    def _v_file(self):
        n = self
        while n._v_parent is not None:
            n = n._v_parent
        return n._file

    def _chk(self, write=False):
        f = self._v_file
        if f is None or not f.isopen:
            raise ClosedNodeError('the node object is closed')
        if write and f.mode == 'r':
            raise HDF5ExtError('the file is not writable')

    def _f_remove(self, *a, **k):
        self._chk(True)
        del self._v_parent._children[self.name]

    remove = _f_remove

    def _f_rename(self, newname, overwrite=False):
        p = self._v_parent
        if newname in p._children and not overwrite:
            raise NodeError('node %s exists' % newname)
        del p._children[self.name]
        self.name = newname
        p._children[newname] = self

    rename = _f_rename

    def _f_copy(self, newparent=None, newname=None, overwrite=False, recursive=False, **k):
        return newparent._v_file._copy_node(self, newparent, newname or self.name, overwrite)

    copy = _f_copy

    def _f_close(self, *a):
        pass

    close = flush = _f_close


class Group(Node):
    def __init__(self, parent, name, title=''):
        Node.__init__(self, parent, name, title)
        self._children = {}
        self._file = None

    def __getattr__(self, n):
        if n.startswith('__') or n in ('_children', '_file'):
            raise AttributeError(n)
        try:
            return self._children[n]
        except KeyError:
            raise NoSuchNodeError('group has no child named %s' % n)

    def __getitem__(self, n):
        return self._v_file.get_node(self, n)

    def __iter__(self):
        return iter(sorted_children(self))

    def __contains__(self, n):
        return n in self._children

    @property
    def _v_children(self):
        return self._children

    def _f_list_nodes(self, classname=None):
        return self._v_file.list_nodes(self, classname)

    def _f_iter_nodes(self, classname=None):
        return iter(self._f_list_nodes(classname))


class RootGroup(Group):
    pass


def sorted_children(g):
    # PyTables iterates over the children sorted by name
    return [g._children[n] for n in sorted(g._children)]


class Leaf(Node):
    pass


class _ColIndexed(dict):
    def __missing__(self, k):
        return False


class Table(Leaf):
    def __init__(self, parent, name, dtype, title='', data=None):
        Node.__init__(self, parent, name, title)
        self.dtype = dtype
        self._d = SStruct.empty((0,), dtype) if data is None else data
        self.colindexed = _ColIndexed()
        self.indexed = False
        self._pendingrow = None
        self._rowbuf = []

    @property
    def _v_dtype(self):
        return self.dtype

    @property
    def nrows(self):
        return len(self._d)

    @property
    def shape(self):
        return (len(self._d),)

    def __len__(self):
        return len(self._d)

    @property
    def colnames(self):
        return list(self.dtype.names)

    @property
    def coldtypes(self):
        return {n: self.dtype.fields[n][0] for n in self.dtype.names}

    @property
    def description(self):
        return self.dtype

    @property
    def cols(self):
        t = self

        class C(object):
            def __getattr__(self, n):
                return t.col(n)
        return C()

    @property
    def row(self):
        return Row(self)

    def _chunk_dtype(self):
        return self.dtype

    def append(self, rows):
        self._chk(True)
        if isinstance(rows, np.ndarray) and not isinstance(rows, symnp.SArr) and rows.dtype.names:
            rows = from_real(rows)
        if not isinstance(rows, SStruct):
            if isinstance(rows, (list, tuple)):
                rows = np_array([tuple(r) for r in rows], dtype=self.dtype)
            else:
                raise ValueError('rows parameter cannot be converted into a recarray object compliant with table')
        if len(rows.dtype.names) != len(self.dtype.names):
            raise ValueError('rows parameter cannot be converted into a recarray object compliant with table %s' % self.name)
        rows = rows.reshape((rows.size,)) if rows.ndim != 1 else rows
        self._d = symnp.np_concatenate([self._d, rows.astype(self.dtype)])

    def read(self, start=None, stop=None, step=None, field=None, out=None):
        self._chk()
        n = len(self._d)
        start, stop, step = [None if v is None else _ix(v) for v in (start, stop, step)]
        if start is not None and stop is None and step is None:  # as PyTables: one row
            if 0 < n <= start:
                raise IndexError('start of range (%s) is greater than number of rows (%s)' % (start, n))
            stop = n if start == -1 else start + 1
        return self._slice(start, stop, step, field)

    def _slice(self, start, stop, step, field=None):
        if field is not None and field not in self.dtype.names:
            raise KeyError('Field %s not found in table' % field)
        d = self._d[slice(start, stop, step)]
        return (d if field is None else d[field]).copy()

    def __getitem__(self, k):
        self._chk()
        if isinstance(k, (slice,)):
            return self._slice(k.start, k.stop, k.step)
        if k is Ellipsis:
            return self._d.copy()
        if isinstance(k, (int, np.integer)):
            return self._d[int(k)].copy()
        if symnp.is_sym(k):
            return self._d[k].copy()
        return self._d[k].copy()

    def __setitem__(self, k, v):
        self._chk(True)
        self._d[k] = v

    def __iter__(self):
        return iter(self._d.copy())

    def iterrows(self, *a, **k):
        return iter(self.read(*a, **k))

    def col(self, name):
        return self._d[name].copy()

    def modify_column(self, start=None, stop=None, step=None, column=None, colname=None):
        self._d[colname][slice(start, stop, step)] = column

    def remove_rows(self, start=None, stop=None, step=None):
        keep = np.ones(len(self._d), dtype=bool)
        keep[slice(start, stop, step)] = False
        self._d = self._d[keep]

    def flush(self):
        pass

    def _where(self, condition, condvars):
        raise Unsupported('table query')

    def get_where_list(self, condition, condvars=None, sort=False, start=None, stop=None, step=None):
        start, stop = self._range(start, stop, step)
        idx = symnp.np_flatnonzero(self._query(condition, condvars, start, stop))
        return idx + start if start else idx

    def read_where(self, condition, condvars=None, field=None, start=None, stop=None, step=None):
        start, stop = self._range(start, stop, step)
        d = self._d[start:stop][self._query(condition, condvars, start, stop)]
        return d if field is None else d[field]

    def where(self, condition, condvars=None, **k):
        return iter(self.read_where(condition, condvars, **k))

    def _range(self, start, stop, step):
        if step not in (None, 1) or (start is None) != (stop is None):
            raise Unsupported('range of a table query')
        n = len(self._d)
        if start is None:
            return 0, n
        return min(_ix(start), n), min(_ix(stop), n)

    def _query(self, condition, condvars, start, stop):
        d = self._d[start:stop]
        env = {n: d[n] for n in self.dtype.names}
        env.update(condvars or {})
        return evaluate(condition, env)


def _ix(v):
    """row number: an integer, not a float"""
    import operator
    return operator.index(v)


def evaluate(expr, env):
    """numexpr style expression over arrays"""
    from .symnp import SHIM
    fns = {n: getattr(SHIM, n) for n in ('sqrt', 'sin', 'cos', 'tan', 'arctan2', 'arcsin', 'arccos', 'exp', 'log', 'where', 'isnan')}
    fns['abs'] = SHIM.abs
    fns['__builtins__'] = {}
    import ast
    names = {x.id for x in ast.walk(ast.parse(expr.strip(), mode='eval')) if isinstance(x, ast.Name)}
    e = dict(fns)
    for n in names:
        if n in env:
            e[n] = env[n]
    return eval(compile(expr.strip(), '<numexpr>', 'eval'), e)


class Row(object):
    def __init__(self, t):
        self._t = t
        self._v = {}

    def __setitem__(self, k, v):
        self._v[k] = v

    def append(self):
        r = SStruct.empty((1,), self._t.dtype)
        for k, v in self._v.items():
            if isinstance(v, str):
                v = v.encode()
            r[k][0] = v
        self._v = {}
        self._t.append(r)


class Array(Leaf):
    def __init__(self, parent, name, data, title=''):
        Node.__init__(self, parent, name, title)
        self._d = data

    @property
    def dtype(self):
        return self._d.dtype

    @property
    def shape(self):
        return self._d.shape

    @property
    def nrows(self):
        return self._d.shape[0]

    @property
    def atom(self):
        return Atom(self.dtype)

    def __len__(self):
        return self._d.shape[0]

    def read(self, start=None, stop=None, step=None, out=None):
        self._chk()
        return self._d[slice(start, stop, step)].copy()

    def __getitem__(self, k):
        self._chk()
        r = self._d[k]
        return r.copy() if isinstance(r, (np.ndarray, SStruct)) else r

    def __setitem__(self, k, v):
        self._chk(True)
        self._d[k] = v

    def __iter__(self):
        return iter(self._d.copy())

    def flush(self):
        pass

    def append(self, v):
        self._chk(True)
        v = asarr(v)
        self._d = symnp.np_concatenate([self._d, v.astype(self._d.dtype)])


class CArray(Array):
    pass


class EArray(Array):
    pass


class VLArray(Array):
    pass


class File(object):
    def __init__(self, fs, filename, mode, root):
        self.filename = filename
        self.mode = mode
        self.root = root
        self.isopen = True
        self._fs = fs
        root._file = self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.isopen = False

    def flush(self):
        pass

    def __iter__(self):
        return self.walk_nodes('/')

    def __contains__(self, path):
        try:
            self.get_node(path)
            return True
        except NoSuchNodeError:
            return False

    def _group(self, where):
        if isinstance(where, Node):
            return where
        g = self.root
        for p in where.strip('/').split('/'):
            if p:
                if not isinstance(g, Group) or p not in g._children:
                    raise NoSuchNodeError('no node %s' % where)
                g = g._children[p]
        return g

    def get_node(self, where, name=None, classname=None):
        g = self._group(where)
        if name:
            if not isinstance(g, Group) or name not in g._children:
                raise NoSuchNodeError('group has no child named %s' % name)
            g = g._children[name]
        if classname and not _is_class(g, classname):
            raise NoSuchNodeError('no %s node' % classname)
        return g

    def list_nodes(self, where, classname=None):
        return [n for n in sorted_children(self._group(where)) if classname is None or _is_class(n, classname)]

    def iter_nodes(self, where, classname=None):
        return iter(self.list_nodes(where, classname))

    def walk_nodes(self, where='/', classname=None):
        g = self._group(where)
        todo = [g]
        while todo:
            n = todo.pop(0)
            if classname is None or _is_class(n, classname):
                yield n
            if isinstance(n, Group):
                todo.extend(sorted_children(n))

    def _new(self, where, node, createparents=False):
        if self.mode == 'r':
            raise HDF5ExtError('file is not writable')
        if not self.isopen:
            raise ClosedFileError('file is closed')
        g = self._group(where)
        if node.name in g._children:
            raise NodeError('group already has a child named %s' % node.name)
        node._v_parent = g
        g._children[node.name] = node
        return node

    def create_group(self, where, name, title='', **k):
        return self._new(where, Group(None, name, title))

    def create_table(self, where, name, description=None, title='', filters=None, expectedrows=0, chunkshape=None, byteorder=None, createparents=False, obj=None, **k):
        dt = desc_dtype(description if description is not None else obj)
        t = self._new(where, Table(None, name, dt, title))
        t.filters = filters
        if obj is not None:
            t.append(obj)
        return t

    def create_carray(self, where, name, atom=None, shape=None, title='', filters=None, chunkshape=None, byteorder=None, createparents=False, obj=None, **k):
        d = asarr(obj).copy() if obj is not None else symnp.np_full(tuple(shape), atom.dflt, dtype=atom.dtype)
        n = self._new(where, CArray(None, name, d, title))
        n.filters = filters
        return n

    def create_array(self, where, name, obj=None, title='', **k):
        return self._new(where, Array(None, name, asarr(obj).copy(), title))

    def create_earray(self, where, name, atom=None, shape=None, title='', filters=None, expectedrows=0, obj=None, **k):
        d = asarr(obj).copy() if obj is not None else symnp.np_full(tuple(shape), 0, dtype=atom.dtype)
        return self._new(where, EArray(None, name, d, title))

    def remove_node(self, where, name=None, recursive=False):
        self.get_node(where, name)._f_remove()

    def rename_node(self, where, newname, name=None, overwrite=False):
        self.get_node(where, name)._f_rename(newname, overwrite)

    def copy_node(self, where, newparent=None, newname=None, name=None, overwrite=False, **k):
        n = self.get_node(where, name)
        p = self._group(newparent) if newparent is not None else n._v_parent
        return p._v_file._copy_node(n, p, newname or n.name, overwrite)

    def _copy_node(self, n, parent, name, overwrite):
        if name in parent._children:
            if not overwrite:
                raise NodeError('node %s exists' % name)
            del parent._children[name]
        c = Table(None, name, n.dtype, n.title, n._d.copy()) if isinstance(n, Table) else type(n)(None, name, n._d.copy(), n.title)
        c.attrs.__dict__.update(n.attrs.__dict__)
        c.filters = n.filters
        return self._new(parent, c)

    def get_node_attr(self, where, attrname, name=None):
        return getattr(self.get_node(where, name).attrs, attrname)

    def set_node_attr(self, where, attrname, value, name=None):
        setattr(self.get_node(where, name).attrs, attrname, value)


def _is_class(n, classname):
    return any(c.__name__ == classname for c in type(n).__mro__)


class FS(object):
    """all files of one path"""

    def __init__(self):
        self.files = {}
        self.text = {}

    def open_file(self, filename, mode='r', *a, **k):
        if not isinstance(filename, str):
            raise TypeError('file name must be a string')
        if mode not in ('r', 'w', 'a', 'r+'):
            raise ValueError('invalid mode %s' % mode)
        if mode in ('r', 'r+') and filename not in self.files:
            raise OSError('``%s`` does not exist' % filename)
        old = self.files.get(filename)
        if old is not None and old._file is not None and old._file.isopen and (mode != 'r' or old._file.mode != 'r'):
            raise ValueError('The file %s is already opened' % filename)
        if mode == 'w' or old is None:
            self.files[filename] = RootGroup(None, '/')
        root = self.files[filename]
        if old is not None and mode == 'r' and old._file is not None and old._file.isopen:
            return SharedFile(self, filename, mode, root, old._file)
        return File(self, filename, mode, root)


class SharedFile(File):
    """second read handle of an open file: nodes stay open as long as one handle is open"""

    def __init__(self, fs, filename, mode, root, first):
        self.first = first
        first_close = first.close
        self.count = getattr(first, '_handles', 1) + 1
        first._handles = self.count
        self.filename, self.mode, self.root, self._fs = filename, mode, root, fs
        self._open = True

        def close():
            first._handles -= 1
            if first._handles <= 0:
                first.isopen = False
        first.close = close

    @property
    def isopen(self):
        return self._open

    def close(self):
        if self._open:
            self._open = False
            self.first.close()


class _Mod(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def make_tables(world):
    m = _Mod()
    d = m.__dict__
    for c in (NodeError, NoSuchNodeError, ClosedNodeError, ClosedFileError, HDF5ExtError, Filters, Atom, IsDescription, Group, Leaf, Table, Array, CArray, EArray, VLArray, File, Node):
        d[c.__name__] = c
    d['StringCol'] = StringCol
    for n in 'Int8 Int16 Int32 Int64 UInt8 UInt16 UInt32 UInt64 Float32 Float64 Bool'.split():
        d[n + 'Col'] = _col(n.lower())
        d[n + 'Atom'] = _atom(n.lower())
    d['exceptions'] = _Mod(NodeError=NodeError, NoSuchNodeError=NoSuchNodeError, ClosedNodeError=ClosedNodeError, HDF5ExtError=HDF5ExtError)
    d['group'] = _Mod(Group=Group, RootGroup=RootGroup)
    d['table'] = _Mod(Table=Table)
    d['file'] = _Mod(File=File)
    d['carray'] = _Mod(CArray=CArray)
    d['earray'] = _Mod(EArray=EArray)
    d['array'] = _Mod(Array=Array)
    d['leaf'] = _Mod(Leaf=Leaf)
    d['node'] = _Mod(Node=Node)
    d['open_file'] = lambda filename, mode='r', *a, **k: world.fs.open_file(filename, mode)
    d['is_hdf5_file'] = lambda f: f in world.fs.files
    d['parameters'] = _Mod(MAX_NUMEXPR_THREADS=1, MAX_BLOSC_THREADS=1)
    d['__name__'] = 'tables'
    return m
