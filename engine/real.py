"""The real package: imported from /repo, with the extension built from its current sources."""
import glob
import hashlib
import importlib
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

PKG = 'beam_telescope_analysis'
PY = sys.executable


def sources_hash(repo):
    h = hashlib.sha256()
    fs = []
    for d, _, names in os.walk(os.path.join(repo, PKG, 'cpp')):
        fs += [os.path.join(d, n) for n in names if n.endswith(('.pyx', '.pxd', '.pxi', '.h', '.hpp', 'data_struct.py'))]
    for f in sorted(fs):
        h.update(f.encode() + b'\0' + open(f, 'rb').read())
    return h.hexdigest()


def build_ext(repo, dest, asan=False):
    """build analysis_functions from the current sources into dest; path of the shared object"""
    src = os.path.join(dest, 'src')
    os.makedirs(os.path.join(src, PKG))
    shutil.copytree(os.path.join(repo, PKG, 'cpp'), os.path.join(src, PKG, 'cpp'))
    for d in (PKG, PKG + '/cpp'):
        open(os.path.join(src, d, '__init__.py'), 'a').close()
    pyx = os.path.join(PKG, 'cpp', 'analysis_functions.pyx')
    cpp = os.path.join(dest, 'analysis_functions.cpp')
    subprocess.run([PY, '-m', 'cython', '--cplus', '-I', '.', pyx, '-o', cpp], cwd=src, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    so = os.path.join(dest, 'analysis_functions' + sysconfig.get_config_var('EXT_SUFFIX'))
    import numpy
    flags = ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'] if asan else ['-O2']
    subprocess.run(['g++', '-shared', '-fPIC', '-w'] + flags + ['-I' + numpy.get_include(), '-I' + sysconfig.get_path('include'), '-I' + os.path.join(src, PKG, 'cpp'), cpp, '-o', so],
                   check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return so


def preload_ext(so):
    name = PKG + '.analysis_functions'
    spec = importlib.util.spec_from_file_location(name, so)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    pkg = importlib.import_module(PKG)
    pkg.analysis_functions = m


class RealWorld(object):
    symbolic = False

    def __init__(self, repo, so=None):
        import logging
        logging.disable(logging.CRITICAL)
        import warnings
        warnings.simplefilter('ignore')
        self.repo = repo
        sys.path.insert(0, repo)
        if so:
            preload_ext(so)
        import numpy
        self.np = numpy
        self.base = tempfile.mkdtemp(prefix='vreal')
        self.dir = None
        self.k = 0
        self.patched = []

    def reset(self):
        for o, n, v in reversed(self.patched):
            setattr(o, n, v)
        self.patched = []
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
        self.k += 1
        self.dir = os.path.join(self.base, str(self.k))
        os.makedirs(self.dir)

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    def mod(self, name):
        return importlib.import_module(PKG + '.' + name)

    def path(self, name):
        if self.dir is None:
            self.reset()
        return os.path.join(self.dir, name)

    def write_h5(self, path, nodes, attrs=None, index=None):
        import tables as tb
        with tb.open_file(path, 'w') as f:
            for n, d in nodes.items():
                if d.dtype.names:
                    t = f.create_table(f.root, n, d.dtype)
                    if len(d):
                        t.append(d)
                else:
                    t = f.create_carray(f.root, n, obj=d)
                for col in (index or {}).get(n, ()):
                    getattr(t.cols, col).create_index()
                for k, v in (attrs or {}).get(n, {}).items():
                    setattr(t.attrs, k, v)

    def nodes(self, path):
        import tables as tb
        with tb.open_file(path, 'r') as f:
            return sorted(n.name for n in f.root if not isinstance(n, tb.group.Group))

    def read_h5(self, path, node):
        import tables as tb
        with tb.open_file(path, 'r') as f:
            return f.get_node(f.root, node)[:]

    def open(self, path, mode='r'):
        import tables as tb
        return tb.open_file(path, mode)

    def write_text(self, path, text):
        with open(path, 'w') as f:
            f.write(text)

    def exists(self, path):
        return os.path.exists(path)

    def hook(self, name, f):
        pass

    def patch(self, obj, name, v):
        self.patched.append((obj, name, getattr(obj, name)))
        setattr(obj, name, v)

    def to_struct(self, fields, rows):
        import numpy as np
        return np.array([tuple(r) for r in rows], dtype=fields) if rows else np.zeros(0, dtype=fields)

    def to_list(self, vals):
        import numba
        r = numba.typed.List.empty_list(numba.types.int64)
        for v in vals:
            r.append(v)
        return r

    def to_array(self, vals, dtype):
        import numpy as np
        return np.array(vals, dtype=dtype)
