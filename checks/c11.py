"""C11: Morton code and cluster shape"""
from engine.driver import T
from checks.util import merging
from checks.c12 import end_of_cluster, RANGE

BOUNDS = 'Morton code: all pairs of 32-bit numbers and all 64-bit codes; hit arrays: all 8 x 8 patterns with up to 3 (thorough: 5) hits, all 2^63 shapes; clusters: 1 and 2 hits with any columns and rows in 0..65535 and 3 hits within 9 x 9 pixels at any place, the first of them at 9 (thorough: 25) places of these, any order'
OUTSIDE = 'hit arrays with more hits (decoding is covered for all of them)'


def interleave(x, y):
    return sum((x >> i & 1) << 2 * i | (y >> i & 1) << 2 * i + 1 for i in range(32))


def bit(c, v, i):
    if c.symbolic:
        from engine.core import SymBV, SymInt, mk_bool, z3
        if isinstance(v, SymBV):
            return mk_bool(z3.Extract(i, i, v.ext(64)) == 1)
        if isinstance(v, SymInt):
            return (v // 2 ** i) % 2 == 1
    return bool(int(v) >> i & 1)


def morton(c, m, cfg):
    a = m.mod('tools.analysis_utils')
    x, y = c.bv('x', 32), c.bv('y', 32)
    d = a.xy2d_morton(x, y)
    for i in range(32):
        c.check(c.both(c.iff(bit(c, d, 2 * i), bit(c, x, i)), c.iff(bit(c, d, 2 * i + 1), bit(c, y, i))), 'the code interleaves the bits of column and row')
    u, v = a.d2xy_morton(d)
    c.observe('uv', [u, v])
    for i in range(64):
        c.check(c.both(c.iff(bit(c, u, i), bit(c, x, i) if i < 32 else c.b(False)), c.iff(bit(c, v, i), bit(c, y, i) if i < 32 else c.b(False))), 'decoding gives column and row back')
    c.cover('done')


def code(c, m, cfg):
    a = m.mod('tools.analysis_utils')
    d = c.bv('d', 64)
    u, v = a.d2xy_morton(d)
    for i in range(64):
        if i >= 32:
            c.check(c.neg(c.either(bit(c, u, i), bit(c, v, i))), 'decoded numbers have 32 bits')
        else:
            c.check(c.both(c.iff(bit(c, u, i), bit(c, d, 2 * i)), c.iff(bit(c, v, i), bit(c, d, 2 * i + 1))), 'every code decodes to the pair it encodes')
    c.cover('done')


def decode(c, m, cfg):
    merging(c)
    a = m.mod('tools.analysis_utils')
    s = c.bv('s', 64)
    r = a.calculate_cluster_array(s)
    c.check(r.shape == (8, 8), 'the hit array has 8 x 8 pixels')
    for i in range(8):
        for j in range(8):
            c.check(c.iff(r[i, j], bit(c, s, interleave(i, j))), 'a pixel is hit exactly when its bit is set')
    c.cover('done')


def encode(c, m, cfg):
    merging(c)
    a = m.mod('tools.analysis_utils')
    b = [[c.bool('b%d%d' % (i, j)) for j in range(8)] for i in range(8)]
    c.assume(c.count([x for r in b for x in r]) == cfg['k'])
    s = a.calculate_cluster_shape(m.to_array(b, 'bool'))
    for i in range(8):
        for j in range(8):
            c.check(c.iff(bit(c, s, interleave(i, j)), b[i][j]), 'a bit is set exactly when its pixel is hit')
    c.cover('done')


def pattern(c, m, cfg):
    """the shape belongs to the set of relative positions"""
    merging(c)
    k, win = cfg['k'], cfg['win']
    col = place(c, 'c', k, win, cfg.get('c'))
    row = place(c, 'r', k, win, cfg.get('r'))
    for i in range(k):
        for j in range(i):
            c.assume(c.either(col[i] != col[j], row[i] != row[j]))
    cl = end_of_cluster(c, m, [dict(column=x, row=y, frame=0, charge=1.0) for x, y in zip(col, row)])
    s = cl['cluster_shape']
    c0, r0 = lowest(c, col), lowest(c, row)
    fits = c.both(*[c.both(x - c0 < 8, y - r0 < 8, c.neg(c.both(x - c0 == 7, y - r0 == 7))) for x, y in zip(col, row)])
    if c.symbolic:
        fits = bool(fits)
    if not fits:
        c.check(c.eq(s, -1), 'a pattern that does not fit gets the invalid shape')
        c.cover('invalid')
        return
    c.cover('fits')
    ok = []
    for i in range(8):
        for j in range(8):
            hit = c.either(*[c.both(x - c0 == i, y - r0 == j) for x, y in zip(col, row)])
            ok.append(c.iff(bit(c, s, interleave(i, j)), hit))
    c.check(c.both(*ok), 'the shape is the code of the relative hit positions')


def place(c, n, k, win, first=None):
    """k numbers within a window at any place; the first one at a given place of the window"""
    base = c.int(n, 0, RANGE - win)
    return [base + (first if i == 0 and first is not None else c.int('%s%d' % (n, i), 0, win)) for i in range(k)]


def lowest(c, v):
    r = v[0]
    for x in v[1:]:
        r = c.ite(x < r, x, r)
    return r


def tasks(tier):
    ts = [T(morton, {}, ['done']), T(code, {}, ['done']), T(decode, {}, ['done'])]
    for k in range(4 if tier == 'quick' else 6):
        ts.append(T(encode, dict(k=k), ['done']))
    for k in range(1, 4):
        if k < 3:
            ts.append(T(pattern, dict(k=k, win=RANGE - 1 if k < 3 else 12), ['fits', 'invalid'] if k > 1 else ['fits']))
        else:
            ts += [T(pattern, dict(k=k, win=8, c=x, r=y), timeout=90000, branch_timeout=60000) for x in range(0, 9, 4 if tier == 'quick' else 2) for y in range(0, 9, 4 if tier == 'quick' else 2)]
    return ts
