"""helpers shared by the harnesses"""
import numpy as np

I64 = 2 ** 63 - 1


def sorted_ints(c, name, n, lo=0, hi=2 ** 40, strict=False):
    v = [c.int('%s%d' % (name, i), lo, hi) for i in range(n)]
    for a, b in zip(v, v[1:]):
        c.assume(a < b if strict else a <= b)
    return v


def is_in(c, x, vals):
    return c.either(*[c.eq(x, v) for v in vals]) if len(vals) else c.b(False)


def count_eq(c, x, vals):
    return c.count([c.eq(x, v) for v in vals])


def rows_equal(c, a, b, fields):
    """two rows (dicts) agree in all fields; nan equals nan"""
    return c.both(*[same_value(c, a[f], b[f]) for f in fields])


def same_value(c, x, y):
    return c.exact(x, y)


def rec(m, c, name, n, spec):
    """table of n rows; spec: list of (field, dtype, maker(row index) -> value).  Returns (struct, list of dicts)"""
    rows = []
    for i in range(n):
        rows.append({f: mk(i) for f, _, mk in spec})
    return m.to_struct([(f, d) for f, d, _ in spec], [tuple(r[f] for f, _, _ in spec) for r in rows]), rows


def row_dicts(arr):
    """rows of a structured array as dicts of plain values"""
    names = arr.dtype.names
    cols = {n: arr[n].tolist() for n in names}
    return [{n: cols[n][i] for n in names} for i in range(arr.shape[0])]


def telescope(m, duts, **kw):
    """a Telescope object; duts: list of attribute dicts (default: small rectangular sensors at z = 1000 * index)"""
    tel = m.mod('telescope.telescope').Telescope(**kw)
    for i, d in enumerate(duts):
        a = dict(name='DUT%d' % i, translation_x=0.0, translation_y=0.0, translation_z=1000.0 * i, rotation_alpha=0.0, rotation_beta=0.0, rotation_gamma=0.0,
                 column_size=50.0, row_size=20.0, n_columns=4, n_rows=3)
        d = dict(d)
        t = d.pop('dut_type', 'RectangularPixelDut')
        if t != 'RectangularPixelDut' and t != 'RectangularPixelDutWithDoubleColumns':
            for k in ('column_size', 'row_size', 'n_columns', 'n_rows'):
                a.pop(k)
        a.update(d)
        tel.add_dut(dut_type=t, dut_id=d.pop('dut_id', i) if 'dut_id' in d else i, **{k: v for k, v in a.items() if k != 'dut_id'})
    return tel


def use_telescope(m, mod, tel):
    """the module under test gets this telescope instead of reading a configuration file"""
    class Given(tel.__class__):
        def __new__(cls, *a, **k):
            return tel

        def __init__(self, *a, **k):
            pass
    tel.__class__ = Given
    m.patch(mod, 'Telescope', Given)


class Now(object):
    """pool whose tasks run at once on copies of their arguments (as pickling does)"""

    def __init__(self, *a, **k):
        pass

    def apply_async(self, f, args=(), kwds=None):
        r = f(*[_cp(x) for x in args], **{k: _cp(v) for k, v in (kwds or {}).items()})

        class R(object):
            def get(self, timeout=None):
                return r
        return R()

    def map(self, f, xs):
        return [f(_cp(x)) for x in xs]

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _cp(x):
    if type(x).__name__ in ('SArr', 'SStruct', 'ndarray', 'recarray'):
        return x.copy()
    return x


def merging(c):
    """merge paths where branches only assign (symbolic execution only)"""
    if c.symbolic:
        c.merge = True


def use_smc(m, mod, skip=()):
    """the split-map-combine step runs sequentially (C21 decides that the parallel one gives the same); `skip`: names
    of histograms that are not computed in symbolic execution"""
    def SMC(input_filename, output_filename, func, func_kwargs=None, node_desc=None, table=None, align_at=None, n_cores=None, mode='w', chunk_size=1000000):
        au = m.mod('tools.analysis_utils')
        desc = [node_desc] if not isinstance(node_desc, (list, tuple)) else list(node_desc)
        desc = [dict(d or {}) for d in desc]
        with m.open(input_filename, 'r') as f:
            names = [table] if isinstance(table, str) else list(table)
            have = [n.name for n in f.root]
            node = getattr(f.root, [n for n in names if n in have][0])
            name = node.name
            chunks = []
            if not (m.symbolic and desc[0].get('name') in skip):
                for data, _ in au.data_aligned_at_events(node, chunk_size=chunk_size):
                    r = func(data.copy(), **(func_kwargs or {}))
                    r = list(r) if isinstance(r, (list, tuple)) else [r]
                    chunks.append([_cp(x) for x in r])
        if not chunks:
            if m.symbolic and desc[0].get('name') in skip:
                chunks = [[m.np.ones(skip[desc[0]['name']], dtype='int64')]]
        with m.open(output_filename, mode) as f:
            for i, d in enumerate(desc):
                n = d.get('name', name)
                parts = [c[i] for c in chunks]
                if not parts:
                    continue
                if n in [x.name for x in f.root]:
                    f.remove_node(f.root, n)
                if parts[0].dtype.names:
                    t = f.create_table(f.root, name=n, description=parts[0].dtype)
                    for p in parts:
                        t.append(p)
                else:
                    size = max(p.shape[0] for p in parts)
                    h = m.np.zeros((size,) + parts[0].shape[1:], dtype=parts[0].dtype)
                    for p in parts:
                        h[:p.shape[0]] += p
                    f.create_carray(f.root, name=n, obj=h)
    m.patch(mod.smc, 'SMC', SMC)
