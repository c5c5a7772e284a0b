"""C04: joins and correlations of hits by event number"""
from engine.driver import T
from checks.util import sorted_ints, telescope, use_telescope, Now, rec, row_dicts

BOUNDS = 'tables of up to 4 rows (thorough: 5) with any sorted event numbers below 2^40; position indices inside 2x2 to 3x3 correlation histograms; event range 1 to 3; files of two or three planes with up to 3 hits each, read in chunks of 2 rows and as a whole'
OUTSIDE = 'longer tables; Hough background reduction and plots of the correlation histograms'


def merge(c, m, cfg):
    na, nb = cfg['na'], cfg['nb']
    ea, eb = sorted_ints(c, 'a', na), sorted_ints(c, 'b', nb)
    va, vb = [c.real('va%d' % i, -1000, 1000) for i in range(na)], [c.int('vb%d' % i, 0, 1000) for i in range(nb)]
    a = m.to_struct([('event_number', 'int64'), ('id', 'uint16'), ('x', 'float64')], [(e, i, v) for i, (e, v) in enumerate(zip(ea, va))])
    b = m.to_struct([('event_number', 'int64'), ('id', 'uint8'), ('row', 'uint16')], [(e, i, v) for i, (e, v) in enumerate(zip(eb, vb))])
    r1, r2 = m.mod('tools.analysis_utils').merge_on_event_number(a, b)
    c.check(r1.shape[0] == r2.shape[0], 'both results have the same length')
    i1, i2 = r1['id'].tolist(), r2['id'].tolist()
    c.observe('pairs', [i1, i2])
    got = list(zip(i1, i2))
    for k, (i, j) in enumerate(got):
        i, j = int(i), int(j)
        if not (0 <= i < na and 0 <= j < nb):
            c.fail('a row that is in no input')
            return
        c.check(c.both(c.eq(r1['event_number'][k], ea[i]), c.eq(r1['x'][k], va[i]), c.eq(r2['event_number'][k], eb[j]), c.eq(r2['row'][k], vb[j])), 'row contents are unchanged')
    for p, q in zip(got, got[1:]):
        c.check(p < q, 'pairs are in table order and unique')
    for i in range(na):
        for j in range(nb):
            c.check(c.iff(c.eq(ea[i], eb[j]), (i, j) in got), 'exactly the pairs of equal event number are returned')
    if got:
        c.cover('pairs')


def _sum(c, terms):
    return c.count(terms) if terms else 0


def correlate(c, m, cfg):
    na, nb, s = cfg['na'], cfg['nb'], cfg['s']
    ea, eb = sorted_ints(c, 'a', na), sorted_ints(c, 'b', nb)
    ix = {k: [c.int('%s%d' % (k, i), 0, s - 1) for i in range(n)] for k, n in (('ax', na), ('ay', na), ('bx', nb), ('by', nb))}
    hx0, hy0 = [[[c.int('h%s%d%d' % (d, i, j), 0, 100) for j in range(s)] for i in range(s)] for d in 'xy']
    hx, hy = m.to_array(hx0, 'int32'), m.to_array(hy0, 'int32')
    m.mod('tools.analysis_utils').correlate_position_on_event_number(
        ref_event_numbers=m.to_array(ea, 'int64'), dut_event_numbers=m.to_array(eb, 'int64'),
        ref_x_indices=m.to_array(ix['ax'], 'uint32'), ref_y_indices=m.to_array(ix['ay'], 'uint32'),
        dut_x_indices=m.to_array(ix['bx'], 'uint32'), dut_y_indices=m.to_array(ix['by'], 'uint32'), x_corr_hist=hx, y_corr_hist=hy)
    c.observe('hist', [hx.tolist(), hy.tolist()])
    for i in range(s):
        for j in range(s):
            for h, h0, d in ((hx, hx0, 'x'), (hy, hy0, 'y')):
                want = _sum(c, [c.both(c.eq(ea[k], eb[l]), c.eq(ix['b' + d][l], i), c.eq(ix['a' + d][k], j)) for k in range(na) for l in range(nb)])
                c.check(h[i, j] == h0[i][j] + want, 'a %s bin gains one count per pair of hits of the same event' % d)
    c.cover('done')


def event_range(c, m, cfg):
    n, s, r = cfg['n'], cfg['s'], cfg['range']
    ev = sorted_ints(c, 'e', n)
    x, y = [[c.int('%s%d' % (d, i), 0, s - 1) for i in range(n)] for d in 'xy']
    hx, hy = m.to_array([[0] * s for _ in range(s)], 'int32'), m.to_array([[0] * s for _ in range(s)], 'int32')
    m.mod('tools.analysis_utils').correlate_hits_on_event_range(m.to_array(ev, 'int64'), m.to_array(x, 'uint32'), m.to_array(y, 'uint32'), hx, hy, r)
    c.observe('hist', [hx.tolist(), hy.tolist()])
    for i in range(s):
        for j in range(s):
            for h, p, d in ((hx, x, 'x'), (hy, y, 'y')):
                want = _sum(c, [c.both(ev[l] - ev[k] >= 1, ev[l] - ev[k] <= r, c.eq(p[k], i), c.eq(p[l], j)) for k in range(n) for l in range(n)])
                c.check(h[i, j] == want, 'a %s bin holds the pairs whose event distance is between one and the range' % d)
    c.cover('done')


def files(c, m, cfg):
    """correlate(): all planes against the reference, hit files in index or local coordinates"""
    n, size = cfg['n'], cfg['size']
    ha = m.mod('hit_analysis')
    m.patch(ha, 'Pool', Now)
    nd = len(n)
    tel = telescope(m, [dict(column_size=100.0, row_size=100.0, n_columns=2, n_rows=1) for _ in range(nd)])
    use_telescope(m, ha, tel)
    ev, col, row, paths = [], [], [], []
    for d in range(nd):
        ev.append(sorted_ints(c, 'e%d_' % d, n[d]))
        col.append([c.int('c%d_%d' % (d, i), 1, 2) for i in range(n[d])])
        row.append([1 for i in range(n[d])])
        paths.append(m.path('hits%d.h5' % d))
        m.write_h5(paths[d], {'Hits': m.to_struct([('event_number', 'int64'), ('column', 'uint16'), ('row', 'uint16')], list(zip(ev[d], col[d], row[d])))})
    out = m.path('corr.h5')
    ref = cfg.get('ref', 0)
    try:
        ha.correlate('telescope.yaml', paths, output_correlation_file=out, resolution=(100.0, 100.0), select_reference_duts=ref, plot=False, chunk_size=size)
    except ValueError:
        big = c.either(*[c.count([c.eq(e, x) for x in es]) >= size for es in ev for e in es])
        c.check(big, 'an error is raised only if an event fills a chunk')
        c.cover('error')
        return
    for d in range(nd):
        if d == ref:
            continue
        for k, p in (('x', col), ('y', row)):
            h = m.read_h5(out, 'Correlation_%s_%d_%d' % (k, ref, d)).tolist()
            c.observe('%s%d' % (k, d), h)
            for i in range(2 if k == 'x' else 1):
                for j in range(2 if k == 'x' else 1):
                    want = _sum(c, [c.both(c.eq(ev[ref][a], ev[d][b]), c.eq(p[d][b], i + 1), c.eq(p[ref][a], j + 1)) for a in range(n[ref]) for b in range(n[d])])
                    c.check(c.eq(h[i][j], want), 'a %s bin of the correlation file holds the pairs of the same event' % k)
    c.cover('done')


def tasks(tier):
    q = tier == 'quick'
    ts = []
    N = 3 if q else 4
    for na in range(N + 1):
        for nb in range(N + 1):
            ts.append(T(merge, dict(na=na, nb=nb), ['pairs'] if na and nb else []))
            if na <= 2 and nb <= 2 or not q and na <= 3 and nb <= 3:
                ts.append(T(correlate, dict(na=na, nb=nb, s=2), ['done']))
    ts.append(T(correlate, dict(na=2, nb=3, s=1), ['done']))
    ts.append(T(correlate, dict(na=3, nb=2, s=1), ['done']))
    for n in range(0, 4 if q else 5):
        for r in (1, 2, 3):
            ts.append(T(event_range, dict(n=n, s=2 if n < 4 else 1, range=r), ['done']))
    if q:
        ts.append(T(event_range, dict(n=4, s=1, range=2), ['done']))
    for n in ((2, 2), (3, 2), (2, 3)):
        for size in (2, 3, 10):
            ts.append(T(files, dict(n=n, size=size), ['done']))
    ts.append(T(files, dict(n=(2, 2), size=10, ref=1), ['done']))
    return ts
