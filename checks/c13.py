"""C13: track finding"""
from engine.driver import T
from checks.util import telescope, use_telescope, row_dicts

BOUNDS = ('1 or 2 events with up to 3 (thorough: 4) hits per plane, 2 to 3 (thorough: 4) planes in any z order, every pattern of missing hits, '
          'hit positions along one axis anywhere in +-10 mm (along both axes with 2 rows), extrapolation with no, some or all planes, planes at fixed z with and without rotation, '
          '1 to 3 chunks; recovery of parallel tracks at least 1 mm apart with scattering below 0.1 mm; a telescope of 12 planes with fixed positions')
OUTSIDE = 'larger events; more than 2 rows with positions along both axes; max_events (C20); parallel processing'
REAL_TIMEOUT = 300
NAN = float('nan')


def kernel(c, m, cfg):
    """_find_tracks_loop: hits are permuted within event and plane"""
    ta = m.mod('track_analysis')
    np = m.np
    ev, nd = cfg['ev'], cfg['nd']
    n = len(ev)
    hit = cfg['hit'] if 'hit' in cfg else [[1] * nd] * n
    x = [[c.real('x%d_%d' % (i, d), -1e4, 1e4) if hit[i][d] else NAN for d in range(nd)] for i in range(n)]
    y = [[(c.real('y%d_%d' % (i, d), -1e4, 1e4) if cfg.get('two') else 0.0) if hit[i][d] else NAN for d in range(nd)] for i in range(n)]
    order = cfg.get('order', list(range(nd)))
    z0 = {d: 1000.0 * k for k, d in enumerate(order)}
    z = [[z0[d] if hit[i][d] else NAN for d in range(nd)] for i in range(n)]
    X, Y, Z = (m.to_array(sum(v, []), 'float64').reshape((n, nd)) for v in (x, y, z))
    ind = np.column_stack([np.arange(n, dtype=np.int64) for _ in range(nd)])
    tr = m.to_array(sum([[0.0, 0.0, z0[d]] for d in range(nd)], []), 'float64').reshape((nd, 3))
    nrm = m.to_array([0.0, 0.0, 1.0] * nd, 'float64').reshape((nd, 3))
    sel = list(range(nd)) if cfg.get('sel') is None else cfg['sel']
    ta._find_tracks_loop(event_numbers=m.to_array(ev, 'int64'), indices=ind, z_sorted_dut_indices=m.to_array(order, 'int64'), x=X, y=Y, z=Z,
                         select_extrapolation_duts=m.to_list(sel), translation=tr, normal=nrm)
    res = ind.tolist()
    c.observe('indices', res)
    moved = False
    for d in range(nd):
        col = [res[i][d] for i in range(n)]
        c.check(sorted(col) == list(range(n)), 'every hit of a plane is used exactly once')
        c.check(all(0 <= col[i] < n and ev[col[i]] == ev[i] for i in range(n)), 'hits stay in their event')
        for i in range(n):
            k = col[i]
            moved = moved or k != i
            if 0 <= k < n:
                c.check(c.both(c.exact(X[i, d], x[k][d]), c.exact(Y[i, d], y[k][d]), c.exact(Z[i, d], z[k][d])), 'positions move together with the indices')
    for e in set(ev):
        if ev.count(e) == 1:
            c.check(all(v == ev.index(e) for v in res[ev.index(e)]), 'a single row is not changed')
    if moved:
        c.cover('moved')
    c.cover('done')


def table(c, m, cfg, x, nd, tel=None):
    """merged file; x[i][d] = (x, y) or None"""
    ev = cfg['ev']
    fields = [('event_number', 'int64')]
    for d in range(nd):
        fields += [('%s_dut_%d' % (k, d), 'float64') for k in ('x', 'y', 'z')] + [('charge_dut_%d' % d, 'float32'), ('n_hits_dut_%d' % d, 'uint32'), ('cluster_ID_dut_%d' % d, 'int32')]
    fields += [('hit_flag', 'uint32')]
    rows = []
    for i, e in enumerate(ev):
        r = [e]
        for d in range(nd):
            if x[i][d] is None:
                r += [NAN, NAN, NAN, NAN, 0, -1]
            else:
                r += [x[i][d][0], x[i][d][1], 0.0, 10.0 * i + d, 1 + i, 100 * d + i]
        rows.append(tuple(r + [77]))
    m.write_h5(m.path('merged.h5'), {'MergedClusters': m.to_struct(fields, rows)})
    return [dict(zip([f for f, _ in fields], r)) for r in rows]


def run_file(c, m, cfg, x, nd, duts=None, **kw):
    ta = m.mod('track_analysis')
    tel = telescope(m, duts or [dict(translation_z=1000.0 * d) for d in range(nd)])
    use_telescope(m, ta, tel)
    want = table(c, m, cfg, x, nd)
    out = ta.find_tracks('telescope.yaml', m.path('merged.h5'), chunk_size=cfg.get('chunk', 1000), **kw)
    return want, row_dicts(m.read_h5(out, 'TrackCandidates'))


def whole(c, m, cfg):
    """find_tracks from file to file"""
    ev, nd = cfg['ev'], cfg['nd']
    n = len(ev)
    hit = cfg.get('hit') or [[1] * nd] * n
    if 'fixed' in cfg:
        x = [[(float(cfg['fixed'][i][d]), 0.0) if hit[i][d] else None for d in range(nd)] for i in range(n)]
    else:
        x = [[(c.real('x%d_%d' % (i, d), -1e4, 1e4), 0.0) if hit[i][d] else None for d in range(nd)] for i in range(n)]
    want, got = run_file(c, m, cfg, x, nd, cfg.get('duts'), select_extrapolation_duts=cfg.get('sel'), align_to_beam=cfg.get('beam', False))
    c.check(len(got) == n, 'the number of rows does not change')
    if len(got) != n:
        return
    c.check(all(g['event_number'] == e for g, e in zip(got, ev)), 'event numbers do not change')
    ids = [[g['cluster_ID_dut_%d' % d] for d in range(nd)] for g in got]
    c.observe('ids', ids)
    for d in range(nd):
        for e in sorted(set(ev)):
            rows = [i for i in range(n) if ev[i] == e]
            a = sorted(want[i]['cluster_ID_dut_%d' % d] for i in rows)
            b = sorted(ids[i][d] for i in rows)
            c.check(a == b, 'every cluster of a plane stays in its event')
            if any(want[i]['cluster_ID_dut_%d' % d] != ids[i][d] for i in rows):
                c.cover('moved')
        for i in range(n):
            k = ids[i][d] - 100 * d
            cols = [q + '_dut_%d' % d for q in ('x', 'y', 'z', 'charge', 'n_hits', 'cluster_ID')]
            src = want[k] if 0 <= k < n else [w for w in want if w['cluster_ID_dut_%d' % d] == -1][0] if ids[i][d] == -1 and any(w['cluster_ID_dut_%d' % d] == -1 for w in want) else None
            if src is None:
                c.fail('the columns of a row are not those of a cluster')
                continue
            c.check(c.both(*[c.exact(got[i][q], src[q]) for q in cols]), 'all columns of a cluster are kept together')
    for i in range(n):
        c.check(got[i]['hit_flag'] == sum(1 << d for d in range(nd) if ids[i][d] >= 0), 'the hit flag names the planes that have a hit')
    for e in set(ev):
        if ev.count(e) == 1:
            c.check(ids[ev.index(e)] == [100 * d + ev.index(e) if hit[ev.index(e)][d] else -1 for d in range(nd)], 'a single row is not changed')
    c.cover('done')


def recover(c, m, cfg):
    """parallel tracks that are far apart are found whatever the order of the hits in the planes is"""
    nd, n = cfg['nd'], cfg['n']
    perms = cfg['perms']
    order = cfg.get('order', list(range(nd)))
    if cfg.get('fixed'):
        t = [2000.0 * i for i in range(n)]
        dev = lambda i, d: 10.0 * i - d
    else:
        t = [c.real('t%d' % i, -1e4, 1e4) for i in range(n)]
        dev = lambda i, d: c.real('s%d_%d' % (i, d), -100, 100)
        for i in range(n):
            for j in range(i):
                c.assume(c.either(t[i] - t[j] >= 1000, t[j] - t[i] >= 1000))
    x = [[None] * nd for _ in range(n)]
    gone = cfg.get('gone', ())
    for d in range(nd):
        for i in range(n):
            if (i, d) not in gone:
                x[perms[d][i]][d] = (t[i] + dev(i, d), 0.0)
    duts = [dict(translation_z=1000.0 * order.index(d)) for d in range(nd)]
    cfg = dict(cfg, ev=[7] * n)
    want, got = run_file(c, m, cfg, x, nd, duts, select_extrapolation_duts=cfg.get('sel'), align_to_beam=False)
    c.observe('ids', [[g['cluster_ID_dut_%d' % d] for d in range(nd)] for g in got])
    inv = [[perms[d].index(k) for k in range(n)] for d in range(nd)]
    for g in got:
        tr = set()
        for d in range(nd):
            k = g['cluster_ID_dut_%d' % d] - 100 * d
            if 0 <= k < n:
                tr.add(inv[d][k])
        c.check(len(tr) == 1, 'the hits of a row belong to one track')
    c.check(len(got) == n, 'one row for each track')
    c.cover('done')


def tasks(tier):
    import itertools
    q = tier == 'quick'
    ts = []
    ts.append(T(kernel, dict(ev=[3, 3], nd=2), ['done', 'moved']))
    ts.append(T(kernel, dict(ev=[3, 3], nd=2, two=True), ['done', 'moved']))
    ts.append(T(kernel, dict(ev=[3, 3], nd=3), ['done', 'moved']))
    ts.append(T(kernel, dict(ev=[3, 3], nd=3, sel=[]), ['done', 'moved']))
    ts.append(T(kernel, dict(ev=[3, 3], nd=3, order=[2, 0, 1], sel=[0, 2]), ['done', 'moved']))
    ts.append(T(kernel, dict(ev=[3, 3, 3], nd=2), ['done', 'moved']))
    ts.append(T(kernel, dict(ev=[3, 3, 4], nd=2), ['done', 'moved']))
    ts.append(T(kernel, dict(ev=[3, 4, 4], nd=3, order=[0, 2, 1]), ['done', 'moved']))
    pats = list(itertools.product((0, 1), repeat=3))
    for a in pats:
        for b in pats:
            if sum(a) and sum(b) and a + b != (1,) * 6 and (not q or (sum(a) + sum(b)) > 3):
                ts.append(T(kernel, dict(ev=[3, 3], nd=3, hit=[list(a), list(b)]), ['done']))
    for h in ([[1, 0], [0, 1], [1, 1]], [[0, 1], [1, 0], [1, 0]], [[1, 1], [0, 1], [0, 1]]):
        ts.append(T(kernel, dict(ev=[3, 3, 3], nd=2, hit=h), ['done']))
    ts.append(T(whole, dict(ev=[3, 3], nd=2), ['done', 'moved']))
    ts.append(T(whole, dict(ev=[3, 3], nd=3, hit=[[1, 0, 1], [1, 1, 1]], duts=[dict(translation_z=0.0), dict(translation_z=2000.0), dict(translation_z=1000.0)]), ['done', 'moved']))
    ts.append(T(whole, dict(ev=[3, 3, 5, 6, 6], nd=2, chunk=3, hit=[[1, 1], [1, 1], [1, 1], [1, 1], [0, 1]]), ['done', 'moved']))
    ts.append(T(whole, dict(ev=[3, 3], nd=2, beam=True, duts=[dict(), dict(translation_x=100.0, rotation_alpha=0.25)]), ['done', 'moved']))
    ts.append(T(recover, dict(nd=12, n=2, fixed=True, perms=[[0, 1], [1, 0]] + [[0, 1]] * 8 + [[1, 0], [0, 1]]), ['done']))
    ts.append(T(recover, dict(nd=12, n=2, fixed=True, perms=[[0, 1], [1, 0]] + [[0, 1]] * 10), ['done']))
    ts.append(T(recover, dict(nd=12, n=2, fixed=True, perms=[[0, 1], [0, 1]] + [[0, 1], [1, 0]] * 5), ['done']))
    for sel in ([], None):
        ts.append(T(recover, dict(nd=2, n=2, perms=[[0, 1], [1, 0]], sel=sel), ['done']))
        ts.append(T(recover, dict(nd=3, n=2, perms=[[0, 1], [1, 0], [0, 1]], sel=sel), ['done']))
        ts.append(T(recover, dict(nd=3, n=2, perms=[[0, 1], [1, 0], [1, 0]], order=[1, 2, 0], sel=sel), ['done']))
        ts.append(T(recover, dict(nd=2, n=3, perms=[[0, 1, 2], [2, 0, 1]], sel=sel), ['done']))
    return ts
