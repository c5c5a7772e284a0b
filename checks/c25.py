"""C25: converting hits and masking pixels"""
from engine.driver import T
from checks.util import telescope, use_smc, row_dicts, merging
import numpy as np

BOUNDS = 'conversion: up to three hits, sensors with any pixel pitch and up to 4 x 3 pixels, any charge, read in chunks of two rows and more; masks: occupancies of up to 3 hits per pixel on sensors of up to 3 x 2 pixels with every threshold (real), filter sizes 1, 3 and (3, 1), one iteration or any number; clustering with masks: two hits (thorough: three) on a sensor of 3 x 2 pixels and four mask patterns'
OUTSIDE = 'the median filter of scipy (the real one for the concrete occupancies); comparisons of the mask decision within 1e-9 of equality; the noise of larger sensors; noisy clusters of several noisy pixels'
ASSUMPTIONS = ['scipy.ndimage.median_filter is run on concrete occupancies', 'the split-map-combine step runs sequentially (see C21)']

EXTRA = [('event_number', 'int64'), ('frame', 'uint16'), ('charge', 'float32')]


def convert(c, m, cfg):
    n = cfg['n']
    ha = m.mod('hit_analysis')
    cs, rs = c.real('cs', 0.5, 1e3), c.real('rs', 0.5, 1e3)
    nc, nr = cfg.get('pixels', (4, 3))
    dut = telescope(m, [dict(column_size=cs, row_size=rs, n_columns=nc, n_rows=nr)])[0]
    ev = [0, 0, 3][:n]
    hits = [dict(event_number=ev[i], frame=c.int('f%d' % i, 0, 65535), charge=c.real('q%d' % i, 0, 1000)) for i in range(n)]
    back = cfg['back']
    a, b = ('x', 'y') if back else ('column', 'row')
    if cfg.get('order'):
        fields = [(b, 'float64' if back else 'uint16')] + EXTRA[:2] + [(a, 'float64' if back else 'uint16')] + EXTRA[2:]
    else:
        fields = EXTRA[:2] + [(a, 'float64' if back else 'uint16'), (b, 'float64' if back else 'uint16')] + EXTRA[2:]
    if cfg.get('z'):
        fields += [('z', 'float64')]
    for i, h in enumerate(hits):
        if back:
            # anywhere in the sensor
            u, v = c.real('u%d' % i, 0, nc), c.real('v%d' % i, 0, nr)
            h['x'], h['y'], h['z'] = (u - nc / 2.) * cs, (v - nr / 2.) * rs, 0.0
            h['u'], h['v'] = u, v
            if not c.symbolic:
                c.assume(min(abs(u - round(u)), abs(v - round(v))) > 1e-6 or u in (0, nc) or v in (0, nr))
        else:
            h['column'], h['row'] = c.int('c%d' % i, 1, nc), c.int('r%d' % i, 1, nr)
    f, g = m.path('hits.h5'), m.path('out.h5')
    m.write_h5(f, {'Hits': m.to_struct(fields, [tuple(h[k] for k, _ in fields) for h in hits])})
    out = ha.convert_coordinates(dut, f, *([] if cfg.get('default') else [g]), index_to_local=not back, chunk_size=cfg.get('size', 100))
    c.check(out == (f[:-3] + ('_index.h5' if back else '_local_coordinates.h5') if cfg.get('default') else g), 'the name of the output file')
    tab = m.read_h5(out, 'Hits')
    c.check([k for k in tab.dtype.names] == [{'x': 'column', 'y': 'row', 'column': 'x', 'row': 'y'}.get(k, k) for k, _ in fields if k != 'z'], 'the columns of the converted table')
    got = row_dicts(tab)
    c.check(len(got) == n, 'hits are lost')
    for h, r in zip(hits, got):
        c.check(c.both(*[c.exact(r[k], h[k]) for k in ('event_number', 'frame')] + [c.eq(r['charge'], h['charge'])]), 'a column that is no coordinate changes')
        if back:
            # pixel k covers positions k - 1 to k
            c.check(c.both(*[c.both(c.le(r[k] - 1, h[t]), c.le(h[t], r[k]), c.le(1, r[k]), c.le(r[k], lim)) for k, t, lim in (('column', 'u', nc), ('row', 'v', nr))]),
                    'a position is converted to a pixel that it is not in')
        else:
            c.check(c.both(c.eq(r['x'], (h['column'] - 0.5 - nc / 2.) * cs), c.eq(r['y'], (h['row'] - 0.5 - nr / 2.) * rs)), 'a pixel is converted to a position that is not its center')
    c.observe('events', [r['event_number'] for r in got])
    if not back:
        ret = ha.convert_coordinates(dut, out, m.path('ret.h5'), index_to_local=False, chunk_size=cfg.get('size', 100))
        again = row_dicts(m.read_h5(ret, 'Hits'))
        c.check(len(again) == n, 'hits are lost')
        for h, r in zip(hits, again):
            c.check(c.both(*[c.exact(r[k], h[k]) for k in ('column', 'row', 'event_number', 'frame')] + [c.eq(r['charge'], h['charge'])]), 'converting back does not restore the hits')
    c.cover('done')


def pitches(c, m, cfg):
    """pixel centers of real sensors find their pixel again (concrete sizes; floating point in the replay)"""
    ha = m.mod('hit_analysis')
    t = c.pick('type', cfg['types'])
    dut = telescope(m, [dict(dut_type=t)])[0]
    col, row = c.int('col', 1, dut.n_columns), c.int('row', 1, dut.n_rows)
    f = m.path('hits.h5')
    m.write_h5(f, {'Hits': m.to_struct(EXTRA + [('column', 'uint16'), ('row', 'uint16')], [(0, 0, 1.0, col, row)])})
    out = ha.convert_coordinates(dut, f)
    ret = ha.convert_coordinates(dut, out, index_to_local=False)
    r = row_dicts(m.read_h5(ret, 'Hits'))[0]
    c.check(c.both(c.eq(r['column'], col), c.eq(r['row'], row)), 'converting back does not restore the hits')
    c.cover('done')


def median(a, size):
    from scipy.ndimage import median_filter
    return median_filter(a, size=size, mode='constant', cval=0.0)


def filter_model(m, c):
    def f(a, size=None, mode=None, cval=0.0, **k):
        if mode != 'constant' or k:
            c.fail('unknown filter options')
        return m.to_array(median(np.array(a.tolist(), dtype=np.int32), size).tolist(), 'int32')
    m.hook('scipy.ndimage.median_filter', f)


def noise(c, m, cfg):
    nc, nr = cfg['pixels']
    ha = m.mod('hit_analysis')
    filter_model(m, c)
    use_smc(m, ha)
    dut = telescope(m, [dict(n_columns=nc, n_rows=nr)])[0]
    occ = np.zeros((nc, nr), dtype=int)
    fixed = cfg.get('occ')
    for i in range(nc):
        for j in range(nr):
            occ[i, j] = fixed[i][j] if fixed and fixed[i][j] >= 0 else int(c.int('n%d_%d' % (i, j), 0, cfg['max']))
    rows = [(e, 0, 1.0, i + 1, j + 1) for e in range(max(1, occ.max())) for i in range(nc) for j in range(nr) if occ[i, j] > e]
    if not rows:
        return
    thr = c.real('threshold', 0, 20)
    f = m.path('hits.h5')
    m.write_h5(f, {'Hits': m.to_struct(EXTRA + [('column', 'uint16'), ('row', 'uint16')], rows)})
    size, it, name = cfg['filter'], cfg.get('iterations'), c.pick('name', cfg.get('names', ['NoisyPixelMask']))
    dis = None
    if cfg.get('disable'):
        dis = np.zeros((nc, nr), dtype=bool)
        dis[nc - 1, 0] = True
    want = np.zeros((nc, nr), dtype=bool)
    rest = occ.astype(float)
    i = 0
    while True:
        i += 1
        blur = median(rest.astype(np.int32), size)
        diff = rest - blur
        sel = rest != 0
        new = np.zeros_like(want)
        if sel.any():
            q = np.sqrt(rest[sel])
            std = np.std(diff[sel] / q)
            for (a, b), d, s in zip(np.argwhere(sel), diff[sel], q * std):
                d, s = float(d), float(s)
                c.assume(c.either(d - thr * s > 1e-9, thr * s - d > 1e-9) if s != 0 else True)
                if d - thr * s > 0:
                    new[a, b] = True
        n = np.count_nonzero(new & ~want)
        want |= new
        rest[want] = blur[want]
        if n == 0 or it and i >= it:
            break
    out = ha.mask_pixels(dut, f, name, None if cfg.get('default') else m.path('mask.h5'), iterations=it, threshold=thr, filter_size=size, disable_mask=None if dis is None else m.to_array(dis.tolist(), 'bool'), plot=False, chunk_size=cfg.get('size', 100))
    c.check(out == (f[:-3] + '_mask.h5' if cfg.get('default') else m.path('mask.h5')), 'the name of the output file')
    h = m.read_h5(out, 'HistOcc')
    c.check(tuple(h.shape) == (nc, nr) and h.tolist() == occ.tolist(), 'the occupancy is not the number of hits of each pixel')
    got = m.read_h5(out, name)
    c.check(tuple(got.shape) == (nc, nr), 'the mask does not have the shape of the sensor')
    got = [[bool(v) for v in r] for r in got.tolist()]
    c.observe('mask', got)
    c.check(not any(g and not o for r, s in zip(got, occ.tolist()) for g, o in zip(r, s)), 'a pixel without hits is masked')
    c.check(got == want.tolist(), 'the mask does not flag exactly the pixels above the threshold')
    if dis is not None:
        d = m.read_h5(out, 'DisabledPixelMask')
        c.check([[bool(v) for v in r] for r in d.tolist()] == dis.tolist(), 'the given mask of disabled pixels is not stored as it is')
    if want.any():
        c.cover('masked')
    if i > 2:
        c.cover('iterated')
    c.cover('done')


def apply(c, m, cfg):
    """clustering leaves out disabled pixels and single noisy ones, and nothing else"""
    merging(c)
    cfg = {k: [tuple(x) for x in v] if isinstance(v, (list, tuple)) else v for k, v in cfg.items()}
    n = cfg['n']
    nc, nr = 3, 2
    ha = m.mod('hit_analysis')
    use_smc(m, ha, {'HistClusterShape': 2 ** 16 - 1})
    dut = telescope(m, [dict(n_columns=nc, n_rows=nr)])[0]
    masks = {}
    for k in ('DisabledPixelMask', 'NoisyPixelMask'):
        if cfg[k] is not None:
            masks[k] = [[int((a + 1, b + 1) in cfg[k]) for b in range(nr)] for a in range(nc)]
    g = m.path('mask.h5')
    m.write_h5(g, {k: m.to_array(v, 'bool') for k, v in masks.items()})
    hits = [(c.int('c%d' % i, 1, nc), c.int('r%d' % i, 1, nr)) for i in range(n)]
    f = m.path('hits.h5')
    m.write_h5(f, {'Hits': m.to_struct(EXTRA + [('column', 'uint16'), ('row', 'uint16')], [(0, 0, 1.0) + h for h in hits])})
    for i in range(n):
        for j in range(i):
            c.assume(c.either(hits[i][0] != hits[j][0], hits[i][1] != hits[j][1]))
    out = ha.cluster_hits(dut, f, m.path('clusters.h5'), input_mask_file=g, plot=False)
    CH, CL = row_dicts(m.read_h5(out, 'ClusterHits')), row_dicts(m.read_h5(out, 'Clusters'))
    c.check(len(CH) == n, 'every hit is in the output once')
    ids = [int(r['cluster_ID']) for r in CH]
    c.observe('ids', ids)

    def at(h, px):
        return c.either(*[c.both(c.eq(h[0], p[0]), c.eq(h[1], p[1])) for p in px or ()]) if px else c.b(False)
    D = [at(h, cfg['DisabledPixelMask']) for h in hits]
    N = [at(h, cfg['NoisyPixelMask']) for h in hits]

    def near(a, b):
        return c.both(c.le(a[0] - b[0], 1), c.le(b[0] - a[0], 1), c.le(a[1] - b[1], 1), c.le(b[1] - a[1], 1))
    for i in range(n):
        alone = c.neg(c.either(*[c.both(c.neg(D[j]), near(hits[i], hits[j])) for j in range(n) if j != i]))
        drop = c.either(D[i], c.both(alone, N[i]))
        c.check(c.iff(drop, c.b(ids[i] < 0)), 'the hits that belong to no cluster are those on disabled pixels and single noisy ones')
        c.check(c.both(c.eq(CH[i]['column'], hits[i][0]), c.eq(CH[i]['row'], hits[i][1])), 'the hits are kept in order')
        for j in range(i):
            if ids[i] >= 0 and ids[j] >= 0:
                c.check(c.implies(near(hits[i], hits[j]), c.b(ids[i] == ids[j])), 'neighbours that are not disabled are in one cluster')
        c.cover('dropped' if ids[i] < 0 else 'kept')
    c.check(sorted(r['cluster_ID'] for r in CL) == sorted(set(i for i in ids if i >= 0)), 'one cluster per cluster number')
    for r in CL:
        c.check(r['n_hits'] == ids.count(int(r['cluster_ID'])), 'the cluster size counts hits that are not in the cluster')
    for k, v in masks.items():
        c.check([[int(x) for x in r] for r in m.read_h5(out, k).tolist()] == v, 'the masks are copied to the clusters')
    c.check(all((k in m.nodes(out)) == (k in masks) for k in ('DisabledPixelMask', 'NoisyPixelMask')), 'the masks are copied to the clusters')
    c.cover('done')


def tasks(tier):
    deep = tier == 'thorough'
    t = []
    for back in (False, True):
        t += [T(convert, dict(n=1, back=back), covers=['done']), T(convert, dict(n=3, back=back, size=3, pixels=(2, 2), order=1), covers=['done']),
              T(convert, dict(n=2, back=back, default=1, pixels=(3, 1)), covers=['done'])]
    t.append(T(convert, dict(n=1, back=True, z=1), covers=['done']))
    ts = ['FEI4', 'RD53A', 'Mimosa26', 'TJMonopix1', 'PSI46', 'DepfetH5z85', 'DepfetH5z55', 'Timepix3', 'ITkPix']
    t.append(T(pitches, dict(types=ts), covers=['done'], samples=8))
    for f in (1, 3, (3, 1)):
        for it in (1, None):
            t.append(T(noise, dict(pixels=(3, 1), max=3, filter=f, iterations=it, default=it), covers=['done'] + (['masked'] if f != 1 else [])))
    t.append(T(noise, dict(pixels=(2, 2), max=2, filter=3, iterations=2, disable=1, size=5), covers=['done', 'masked']))
    t.append(T(noise, dict(pixels=(3, 2), occ=[[-1, 1], [2, -1], [0, 1]], max=5, filter=3, iterations=0), covers=['done', 'masked']))
    t.append(T(noise, dict(pixels=(2, 1), max=1, filter=3, iterations=1, names=['NoisyPixelMask', 'DisabledPixelMask']), covers=['done']))
    P = [(1, 1)], [(2, 2), (3, 1)], []
    t += [T(apply, dict(n=2, DisabledPixelMask=P[0], NoisyPixelMask=P[1]), covers=['done', 'dropped', 'kept']),
          T(apply, dict(n=2, DisabledPixelMask=None, NoisyPixelMask=P[1]), covers=['done', 'dropped', 'kept']),
          T(apply, dict(n=2, DisabledPixelMask=P[1], NoisyPixelMask=None), covers=['done', 'dropped', 'kept']),
          T(apply, dict(n=2, DisabledPixelMask=P[2], NoisyPixelMask=P[0]), covers=['done', 'dropped', 'kept'])]
    if deep:
        t += [T(apply, dict(n=3, DisabledPixelMask=P[0], NoisyPixelMask=P[1]), covers=['done', 'dropped', 'kept']),
              T(noise, dict(pixels=(3, 2), max=2, filter=3, iterations=None), covers=['done', 'masked'])]
    return t
