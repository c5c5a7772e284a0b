"""C12: cluster size, shape, width and frame"""
from engine.driver import T
from checks.util import telescope, use_smc, merging, row_dicts

BOUNDS = ('end-of-cluster functions: clusters of 1 to 3 (thorough: 4) hits anywhere in a list of up to 5 hits, columns and rows anywhere in 0..65535, frames anywhere; '
          'whole clustering step: up to 3 (thorough: 4) hits in 1 or 2 events, columns and rows 0..9, frames 0..2, cluster distances 0..2, 1 or 2 chunks, with indices, positions and positions converted from indices')
OUTSIDE = ('larger clusters; the decision which hits form a cluster is made by the third-party package pixel_clusterizer, whose Python source is executed as it is; '
           'parallel execution (C21); floating-point rounding of positions')
RANGE = 65535
REAL_TIMEOUT = 300


class Stop(Exception):
    pass


def functions(m, use_positions):
    """the end-of-cluster function the clustering step installs"""
    cache = m.__dict__.setdefault('_c12', {})
    if use_positions in cache:
        return cache[use_positions]
    ha = m.mod('hit_analysis')
    got = {}

    class Fake(object):
        def __init__(self, *a, **k):
            pass

        def set_end_of_cluster_function(self, f):
            got['cluster'] = f

        def set_end_of_event_function(self, f):
            got['event'] = f

        def __getattr__(self, n):
            return lambda *a, **k: None

    def stop(*a, **k):
        raise Stop()
    m.patch(ha, 'HitClusterizer', Fake)
    m.patch(ha.smc, 'SMC', stop)
    f = ('x', 'y') if use_positions else ('column', 'row')
    d = 'float64' if use_positions else 'uint16'
    m.write_h5(m.path('hits.h5'), {'Hits': m.to_struct([('event_number', 'int64'), (f[0], d), (f[1], d), ('frame', 'uint16'), ('charge', 'float32')], [])})
    try:
        ha.cluster_hits(None, m.path('hits.h5'), m.path('clusters.h5'), plot=False)
    except Stop:
        pass
    cache[use_positions] = got
    return got


def end_of_cluster(c, m, hits, idx=None, use_positions=False, before=None):
    """fields of the cluster row after the end-of-cluster function; idx: positions of the hits of the cluster"""
    f = functions(m, use_positions)['cluster']
    d = 'float64' if use_positions else 'uint16'
    H = m.to_struct([('event_number', 'int64'), ('column', d), ('row', d), ('charge', 'float32'), ('frame', 'uint16'), ('cluster_ID', 'int16'), ('is_seed', 'uint8'),
                     ('cluster_size', 'uint32'), ('n_cluster', 'uint32')],
                    [(h.get('event_number', 0), h['column'], h['row'], h['charge'], h['frame'], 0, 0, 0, 0) for h in hits])
    e = ('err_x', 'err_y') if use_positions else ('err_column', 'err_row')
    C = m.to_struct([('event_number', 'int64'), ('ID', 'uint16'), ('n_hits', 'uint32'), ('charge', 'float32'), ('frame', 'uint16'), ('seed_column', 'uint16' if not use_positions else 'float64'), ('seed_row', 'uint16' if not use_positions else 'float64'),
                     ('mean_column', 'float64'), ('mean_row', 'float64'), (e[0], 'float32'), (e[1], 'float32'), ('n_cluster', 'uint32'), ('cluster_shape', 'int64')],
                    [(0, 0, 0, 0, 77, 0, 0, 0, 0, -7, -7, 0, 77)] * 2)
    idx = list(range(len(hits))) if idx is None else idx
    pad = 2  # unused entries
    f(H, C, len(idx), m.to_array(idx + [-1] * pad, 'int64'), 1, 0, 0, m.to_array([], 'bool').reshape((0, 0)), m.to_array([], 'bool').reshape((0, 0)), idx[0])
    rows = row_dicts(C)
    c.check(c.both(c.eq(rows[0]['frame'], 77), c.eq(rows[0]['cluster_shape'], 77), c.eq(rows[0][e[0]], -7.0)), 'rows of other clusters are not changed')
    for h, r in zip(hits, row_dicts(H)):
        c.check(c.both(*[c.exact(r[n], h[n]) for n in ('column', 'row', 'frame')]), 'hits are not changed')
    return rows[1]


def extreme(c, v, less):
    r = v[0]
    for x in v[1:]:
        r = c.ite(x < r if less else x > r, x, r)
    return r


def width(c, m, cfg):
    merging(c)
    n, idx, pos = cfg['n'], cfg['idx'], cfg['pos']
    mk = (lambda s: c.real(s, -1e6, 1e6)) if pos else (lambda s: c.int(s, 0, RANGE))
    if c.symbolic:  # the shape is decided by C11
        m.patch(m.mod('tools.analysis_utils'), 'calculate_cluster_shape', lambda a: 0)
    hits = [dict(column=mk('c%d' % i), row=mk('r%d' % i), frame=c.int('f%d' % i, 0, RANGE), charge=1.0) for i in range(n)]
    r = end_of_cluster(c, m, hits, idx, pos)
    mine = [hits[i] for i in idx]
    for f, e in (('column', 'err_x' if pos else 'err_column'), ('row', 'err_y' if pos else 'err_row')):
        v = [h[f] for h in mine]
        w = extreme(c, v, False) - extreme(c, v, True)
        if c.symbolic:
            c.check(c.eq(r[e], w + 0.0), 'the width is the range of the hits')
        else:
            c.check(abs(r[e] - w) <= 1e-4 * (1 + abs(w)), 'the width is the range of the hits')
    c.check(c.eq(r['frame'], extreme(c, [h['frame'] for h in mine], True)), 'the frame is the smallest frame of the hits')
    if pos:
        c.check(c.eq(r['cluster_shape'], -1), 'there is no shape for positions')
    c.cover('done')


def full(c, m, cfg):
    """the whole clustering step"""
    merging(c)
    n, mode = cfg['n'], cfg['mode']
    ev = cfg['ev']
    lim = cfg.get('lim', 9)
    pitch = (50.0, 20.0)
    tel = telescope(m, [dict(column_size=pitch[0], row_size=pitch[1], n_columns=20, n_rows=20)])
    dut = tel[0]
    hits = []
    for i in range(n):
        h = dict(event_number=ev[i], frame=c.int('f%d' % i, 0, 2) if cfg.get('frames') else 3, charge=1.0)
        if mode == 'position':
            h['x'], h['y'] = c.real('x%d' % i, -lim, lim), c.real('y%d' % i, -lim, lim)
        else:
            h['column'], h['row'] = c.int('c%d' % i, 1, lim), c.int('r%d' % i, 1, lim)
        hits.append(h)
    xy = ('x', 'y') if mode == 'position' else ('column', 'row')
    fields = [('event_number', 'int64'), ('frame', 'uint16'), (xy[0], 'float64' if mode == 'position' else 'uint16'), (xy[1], 'float64' if mode == 'position' else 'uint16'), ('charge', 'float32')]
    m.write_h5(m.path('hits.h5'), {'Hits': m.to_struct(fields, [tuple(h[f] for f, _ in fields) for h in hits])})
    ha = m.mod('hit_analysis')
    use_smc(m, ha, {'HistClusterShape': 2 ** 16 - 1})
    scale = pitch if mode == 'convert' else (1, 1)
    out = ha.cluster_hits(dut, m.path('hits.h5'), m.path('clusters.h5'), use_positions=True if mode == 'convert' else None, column_cluster_distance=cfg['dist'][0] * scale[0],
                          row_cluster_distance=cfg['dist'][1] * scale[1], frame_cluster_distance=cfg['dist'][2], plot=False, chunk_size=cfg.get('chunk', 100))
    CH, CL = row_dicts(m.read_h5(out, 'ClusterHits')), row_dicts(m.read_h5(out, 'Clusters'))
    c.check(len(CH) == n, 'every hit is in the output once')
    oxy = ('column', 'row') if mode == 'index' else ('x', 'y')
    for h, r in zip(hits, CH):
        if mode == 'convert':
            p = [((h[f] - 10.5) * s) for f, s in zip(xy, pitch)]
            c.check(c.both(c.eq(r['event_number'], h['event_number']), c.eq(r['frame'], h['frame']), c.eq(r['x'], p[0]), c.eq(r['y'], p[1])), 'the hits are kept in order')
        else:
            c.check(c.both(c.eq(r['event_number'], h['event_number']), c.eq(r['frame'], h['frame']), c.eq(r[xy[0]], h[xy[0]]), c.eq(r[xy[1]], h[xy[1]])), 'the hits are kept in order')
    ids = [r['cluster_ID'] for r in CH]
    c.observe('ids', ids)
    valid = [i for i in range(n) if not ids[i] < 0]
    keys = [(r['event_number'], r['cluster_ID']) for r in CL]
    c.check(sorted(keys) == sorted({(ev[i], ids[i]) for i in valid}), 'one cluster per cluster number')
    if len(set(keys)) < len(valid):
        c.cover('shared')
    for r in CL:
        mine = [i for i in valid if (ev[i], ids[i]) == (r['event_number'], r['cluster_ID'])]
        if not mine:
            continue
        c.check(c.eq(r['n_hits'], len(mine)), 'the cluster size is the number of its hits')
        c.check(c.eq(r['n_cluster'], sum(1 for k in keys if k[0] == r['event_number'])), 'the number of clusters is the one of the event')
        c.check(c.eq(r['frame'], extreme(c, [hits[i]['frame'] for i in mine], True)), 'the frame is the smallest frame of the hits')
        e = ('err_column', 'err_row') if mode == 'index' else ('err_x', 'err_y')
        for k in (0, 1):
            want = 12 ** -0.5 * (1 if mode == 'index' else pitch[k])
            c.check(near(c, r[e[k]], want), 'the error is the resolution of a pixel')
        if mode != 'index':
            c.check(c.eq(r['cluster_shape'], -1), 'there is no shape for positions')
            seed = c.both(*[c.either(*[c.eq(r[a], CH[i][b]) for i in mine]) for a, b in (('seed_x', 'x'), ('seed_y', 'y'))])
            c.check(seed, 'the seed is at the position of a hit of the cluster')
            continue
        seed = c.either(*[c.both(c.eq(r['seed_column'], hits[i]['column']), c.eq(r['seed_row'], hits[i]['row'])) for i in mine])
        c.check(seed, 'the seed is at the position of a hit of the cluster')
        c0, r0 = [extreme(c, [hits[i][f] for i in mine], True) for f in xy]
        off = [(hits[i]['column'] - c0, hits[i]['row'] - r0) for i in mine]
        s = 0
        for a in range(min(lim, 8)):
            for b in range(min(lim, 8)):
                s = s + c.ite(c.either(*[c.both(c.eq(o[0], a), c.eq(o[1], b)) for o in off]), 2 ** sum((a >> k & 1) << 2 * k | (b >> k & 1) << 2 * k + 1 for k in range(8)), 0)
        if lim > 7:
            s = c.ite(c.either(*[c.either(o[0] > 7, o[1] > 7, c.both(c.eq(o[0], 7), c.eq(o[1], 7))) for o in off]), -1, s)
        c.check(c.eq(r['cluster_shape'], s), 'the shape is the pattern of the hits of the cluster')
    c.cover('done')


def near(c, a, b):
    if c.symbolic:
        return c.both(a - b < 1e-5 * b, b - a < 1e-5 * b)
    return abs(a - b) < 1e-5 * b


def tasks(tier):
    ts = []
    for pos in (False, True):
        for n, idx in ((1, [0]), (2, [0, 1]), (3, [0, 1, 2]), (4, [1, 3]), (5, [2, 0, 4])) + (() if tier == 'quick' else ((4, [0, 1, 2, 3]), (5, [3, 4, 1, 0]))):
            ts.append(T(width, dict(n=n, idx=idx, pos=pos), ['done']))
    for mode in ('index', 'position', 'convert'):
        ts.append(T(full, dict(n=1, mode=mode, ev=[5], dist=[1, 1, 0]), ['done']))
        ts.append(T(full, dict(n=2, mode=mode, ev=[5, 5], dist=[1, 1, 0], frames=True), ['done', 'shared']))
        th = tier != 'quick'
        if mode != 'convert' or th:
            ts.append(T(full, dict(n=3, mode=mode, ev=[5, 5, 6], dist=[1, 2, 1], frames=True, chunk=3, lim=3), ['done', 'shared']))
        if mode != 'position' or th:
            ts.append(T(full, dict(n=3, mode=mode, ev=[5, 6, 6], dist=[2, 1, 1], chunk=100, lim=4), ['done', 'shared']))
        if mode == 'index' or th:
            ts.append(T(full, dict(n=3, mode=mode, ev=[5, 5, 5], dist=[1, 1, 1], lim=3), ['done', 'shared']))
        if th:
            ts.append(T(full, dict(n=4, mode=mode, ev=[5, 5, 6, 6], dist=[1, 1, 1], lim=3, chunk=3), ['done', 'shared'], timeout=60000))
    ts.append(T(full, dict(n=2, mode='index', ev=[5, 5], dist=[9, 9, 0], lim=10), ['done', 'shared']))
    return ts
