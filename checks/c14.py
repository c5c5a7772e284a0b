"""C14: track selection"""
from engine.driver import T
from checks.util import telescope, use_telescope, row_dicts, sorted_ints

BOUNDS = ('up to 4 (thorough: 6) tracks per plane in 1 to 3 chunks, all hit, quality and isolation flags of 32 bits, track chi2 anywhere, selections of planes 0 to 31 in every combination of '
          'the selection parameters, queries that compare columns with constants, 1 or 2 selected planes')
OUTSIDE = 'more tracks (each track is selected on its own); query expressions beyond comparison, arithmetic, & and | (evaluated by numexpr); max_events (C20)'
FLAGS = ('hit', 'no_hit', 'quality', 'isolated_track', 'isolated_hit')
COLS = [('event_number', 'int64'), ('x_dut_0', 'float64'), ('track_chi2', 'float64'), ('n_hits_dut_1', 'uint32'), ('hit_flag', 'uint32'), ('quality_flag', 'uint32'),
        ('isolated_track_flag', 'uint32'), ('isolated_hit_flag', 'uint32')]
QUERY = {
    'track_chi2 < 5': lambda c, r: r['track_chi2'] < 5,
    '(track_chi2 <= 1e3) & (x_dut_0 > 2.5)': lambda c, r: c.both(r['track_chi2'] <= 1000, r['x_dut_0'] > 2.5),
    '(x_dut_0 - track_chi2 > 0) | (event_number == 7)': lambda c, r: c.either(r['x_dut_0'] - r['track_chi2'] > 0, c.eq(r['event_number'], 7)),
}


def bits(c, v, duts, val=True):
    """all these bits of the flag have the value"""
    return c.both(*[c.eq((v >> d) & 1, 1 if val else 0) for d in duts])


def wanted(c, r, sel, q):
    h = r['hit_flag']
    cond = [bits(c, h, sel.get('hit', ())), bits(c, h, sel.get('no_hit', ()), False)]
    for d in sel.get('quality', ()):
        cond.append(c.implies(bits(c, h, [d]), bits(c, r['quality_flag'], [d])))
    cond.append(bits(c, r['isolated_track_flag'], sel.get('isolated_track', ())))
    for d in sel.get('isolated_hit', ()):
        cond.append(c.implies(bits(c, h, [d]), bits(c, r['isolated_hit_flag'], [d])))
    if q:
        cond.append(QUERY[q](c, r))
    return c.both(*cond)


def selection(c, m, cfg):
    duts, n = cfg['duts'], cfg['n']
    ds = m.mod('tools.data_selection')
    use_telescope(m, ds, telescope(m, [{}] * (max(duts) + 1)))
    rows = {}
    for d in duts:
        ev = cfg['ev'] if 'ev' in cfg else list(range(5, 5 + n))
        rr = []
        for i in range(n):
            r = dict(event_number=ev[i], x_dut_0=c.real('x%d_%d' % (d, i), -10, 10), track_chi2=c.real('q%d_%d' % (d, i), 0, 2000), n_hits_dut_1=1 + i)
            for f in ('hit', 'quality', 'isolated_track', 'isolated_hit'):
                r[f + '_flag'] = c.bv('%s%d_%d' % (f, d, i), 32)
            rr.append(r)
        rows[d] = rr
    m.write_h5(m.path('tracks.h5'), {'Tracks_DUT%d' % d: m.to_struct(COLS, [tuple(r[f] for f, _ in COLS) for r in rows[d]]) for d in duts})
    kw = {}
    for f in FLAGS:
        v = [s.get(f) for s in cfg['sel']]
        if any(x is not None for x in v):
            kw['select_%s_duts' % f] = v if not cfg.get('same') else list(v[0])
    qs = cfg.get('query') or [''] * len(duts)
    if any(qs):
        kw['query'] = list(qs) if not cfg.get('same') else qs[0]
    out = ds.select_tracks('telescope.yaml', m.path('tracks.h5'), list(duts), chunk_size=cfg.get('chunk', 1000), **kw)
    for k, d in enumerate(duts):
        got = row_dicts(m.read_h5(out, 'Tracks_DUT%d' % d))
        tags = [g['n_hits_dut_1'] for g in got]
        c.observe('tags%d' % d, tags)
        c.check(tags == sorted(set(tags)), 'tracks are kept in order and once')
        for g in got:
            i = int(g['n_hits_dut_1']) - 1
            if not 0 <= i < n:
                c.fail('a stored track is none of the input')
                continue
            c.check(c.both(*[c.eq(g[f], rows[d][i][f]) for f, _ in COLS]), 'tracks are not modified')
        sel = cfg['sel'][0 if cfg.get('same') else k]
        for i in range(n):
            c.check(c.iff(i + 1 in tags, wanted(c, rows[d][i], {f: v for f, v in sel.items() if v}, qs[k])), 'a track is kept exactly if it fulfils the selection')
        if len(tags) < n:
            c.cover('dropped')
        if tags:
            c.cover('kept')


def tasks(tier):
    q = tier == 'quick'
    N = 2 if q else 3
    ts = []
    both = ['dropped', 'kept']
    for f in FLAGS:
        for l in ([0], [1, 2], [0, 31]):
            ts.append(T(selection, dict(duts=[0], n=N, sel=[{f: l}]), both))
    for s in (dict(hit=[0, 1], no_hit=[2]), dict(hit=[0], quality=[0, 1]), dict(hit=[1], isolated_track=[0], isolated_hit=[1, 2]), dict(no_hit=[3], quality=[0], isolated_hit=[0]),
              dict(hit=[5], no_hit=[6], quality=[5, 7], isolated_track=[5], isolated_hit=[7])):
        ts.append(T(selection, dict(duts=[0], n=N - 1, sel=[s]), both))
        if not q:
            ts.append(T(selection, dict(duts=[1], n=N - 1, sel=[s], query=['track_chi2 < 5']), both))
    for s in QUERY:
        ts.append(T(selection, dict(duts=[0], n=N, sel=[{}], query=[s]), both))
        ts.append(T(selection, dict(duts=[1], n=1, sel=[dict(hit=[0], no_hit=[1])], query=[s]), both))
    ts.append(T(selection, dict(duts=[0], n=N, sel=[{}]), ['kept']))
    ts.append(T(selection, dict(duts=[0, 2], n=1, sel=[dict(hit=[0]), dict(no_hit=[0])]), both))
    ts.append(T(selection, dict(duts=[2, 0], n=1, sel=[dict(hit=[0], quality=None), dict(quality=[1])], query=['', 'track_chi2 < 5']), both))
    ts.append(T(selection, dict(duts=[0, 1], n=1, sel=[dict(hit=[0, 1], isolated_track=[1])] * 2, same=True), both))
    for chunk in (2, 3):
        ts.append(T(selection, dict(duts=[0], n=4, ev=[1, 2, 3, 9], chunk=chunk, sel=[dict(hit=[1])]), both))
        ts.append(T(selection, dict(duts=[0], n=4, ev=[3, 3, 3, 3] if chunk > 4 else [1, 1, 2, 2] if chunk == 3 else [1, 4, 6, 7], chunk=chunk, sel=[dict(no_hit=[1])], query=['track_chi2 < 5']), both))
    return ts
