"""C03: index histograms"""
from engine.driver import T

BOUNDS = 'up to 3 (thorough: 4) entries with any 32 bit index, histogram shapes up to 3 bins per dimension, index arrays of 32 and 64 bit integers (any value); counters at any start value for the overflow'
OUTSIDE = 'more entries, larger histograms, unsigned and floating point index arrays'


def _hist(c, m, cfg):
    n, shape, dt = cfg['n'], tuple(cfg['shape']), cfg.get('dtype', 'int32')
    lo, hi = (-2 ** 31, 2 ** 31 - 1) if dt == 'int32' else (-2 ** 63, 2 ** 63 - 1)
    cols = [[c.int('%s%d' % ('xyz'[d], i), lo, hi) for i in range(n)] for d in range(len(shape))]
    arrs = [m.to_array(v, dt) for v in cols]
    if cfg.get('strided'):
        arrs = [m.to_struct([('a', dt), ('b', 'uint8')], [(v, 0) for v in col])['a'] for col in cols]
    au = m.mod('tools.analysis_utils')
    f = [au.hist_1d_index, au.hist_2d_index, au.hist_3d_index][len(shape) - 1]
    inside = c.both(*[c.both(v >= 0, v < s) for col, s in zip(cols, shape) for v in col])
    try:
        h = f(*arrs, shape=shape)
    except (IndexError, OverflowError, ValueError):
        c.check(c.neg(inside), 'indices inside the shape are counted without an error')
        c.cover('error')
        c.observe('hist', 'error')
        return
    c.check(inside, 'an index outside the shape raises an error')
    if c.symbolic is False and not inside:
        return
    c.check(tuple(h.shape) == shape, 'the histogram has the requested shape')
    c.observe('hist', h.tolist())
    c.cover('counted')
    import itertools
    for ix in itertools.product(*[range(s) for s in shape]):
        v = h[ix]
        want = c.count([c.both(*[c.eq(cols[d][i], ix[d]) for d in range(len(shape))]) for i in range(n)])
        c.check(v == want, 'a bin holds the number of entries with its indices')


def hist(c, m, cfg):
    _hist(c, m, cfg)


def overflow(c, m, cfg):
    """the kernels on counters that already have any value"""
    dim = cfg['dim']
    ext = m.mod('analysis_functions')
    shape = (2,) * dim
    nb = 2 ** dim
    top = 2 ** 16 - 1 if dim == 3 else 2 ** 32 - 1
    start = [c.int('s%d' % i, 0, top) for i in range(nb)]
    res = m.to_array(start, 'uint16' if dim == 3 else 'uint32')
    n = cfg['n']
    cols = [[c.int('%s%d' % ('xyz'[d], i), 0, 1) for i in range(n)] for d in range(dim)]
    arrs = [m.to_array(v, 'int32') for v in cols]
    want = []
    for b in range(nb):
        bits = [(b >> (dim - 1 - d)) & 1 for d in range(dim)]
        want.append(start[b] + c.count([c.both(*[c.eq(cols[d][i], bits[d]) for d in range(dim)]) for i in range(n)]))
    fits = c.both(*[w <= top for w in want])
    try:
        getattr(ext, 'hist_%dd' % dim)(*(arrs + list(shape) + [res]))
    except IndexError:
        c.check(c.neg(fits), 'a counter that does not overflow raises no error')
        c.cover('overflow')
        return
    c.check(fits, 'a counter overflow raises an error')
    for b in range(nb):
        c.check(c.implies(fits, res[b] == want[b]), 'the entries are added to the counters')
    c.observe('res', res.tolist())
    c.cover('added')


def tasks(tier):
    q = tier == 'quick'
    ts = []
    for dt in ('int32', 'int64'):
        for n in ((0, 1, 2, 3) if q else (0, 1, 2, 3, 4)):
            cov = (['counted'] if n == 0 else ['counted', 'error'])
            ts.append(T(hist, dict(n=n, shape=(1,), dtype=dt), cov))
            ts.append(T(hist, dict(n=n, shape=(3,), dtype=dt), cov))
        for n in (1, 2) if q else (0, 1, 2, 3):
            cov = (['counted'] if n == 0 else ['counted', 'error'])
            for sh in ((2, 3), (3, 2), (1, 2)):
                ts.append(T(hist, dict(n=n, shape=sh, dtype=dt), cov))
            for sh in ((2, 3, 2), (1, 2, 3)) if q else ((2, 3, 2), (1, 2, 3), (3, 2, 1), (2, 1, 3)):
                if n < 3:
                    ts.append(T(hist, dict(n=n, shape=sh, dtype=dt), cov))
    ts.append(T(hist, dict(n=2, shape=(2, 2), dtype='int32', strided=True), ['counted', 'error']))
    for d in (1, 2, 3):
        ts.append(T(overflow, dict(dim=d, n=2 if d < 3 or not q else 1), ['added', 'overflow']))
    return ts
