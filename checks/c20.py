"""C20: reducing the number of events"""
import itertools
from engine.driver import T
from checks.util import sorted_ints, row_dicts, telescope, use_telescope

BOUNDS = 'up to 5 (thorough: 7) rows with all sorted event numbers, 1 to 3 (thorough: 4) chunks, 1 to 4 requested events, every possible random choice of events; reduce_events, select_tracks and find_tracks'
OUTSIDE = 'longer tables; the distribution of the random choice; the event sampling of fit_tracks (the same lines as in find_tracks, decided in C32 within its bounds)'


def chance(c, m, tag='choice'):
    """np.random.choice takes an arbitrary sample"""
    n = [0]

    def choice(a, size=None, replace=True, p=None):
        n[0] += 1
        k = 1 if size is None else int(size)
        vals = a.tolist() if hasattr(a, 'tolist') else list(range(int(a)) if isinstance(a, int) else a)
        if k < 0 or (k > len(vals) and not replace):
            raise ValueError('Cannot take a larger sample than population when replace is False')
        opts = [list(x) for x in (itertools.product(range(len(vals)), repeat=k) if replace else itertools.combinations(range(len(vals)), k))]
        s = c.pick('%s%d' % (tag, n[0]), opts)
        return m.to_array([vals[i] for i in s], 'int64')
    if m.symbolic:
        def hook(name, *a, **k):
            if name == 'choice':
                return choice(*a, **k)
            if name == 'seed':
                return None
            raise ValueError('np.random.%s' % name)
        c.random_hook = hook
    else:
        m.patch(m.np.random, 'choice', choice)


def judge(c, cfg, ev, got, tags, nmax, payload):
    n = len(ev)
    c.observe('tags', tags)
    c.check(tags == sorted(set(tags)), 'rows are kept in order and once')
    for g, t in zip(got, tags):
        if not 0 <= t < n:
            c.fail('a stored row is none of the input')
            return
        c.check(c.both(c.eq(g['event_number'], ev[t]), payload(g, t)), 'rows are not modified')
    for i in range(n):
        for j in range(i):
            if (i in tags) != (j in tags):
                c.check(c.neg(c.eq(ev[i], ev[j])), 'every stored event is complete')
    first = [c.both(*[c.neg(c.eq(ev[i], ev[j])) for j in range(i)]) for i in range(n)]
    stored = c.count([first[i] for i in range(n) if i in tags])
    c.check(stored <= nmax, 'not more events than requested')
    if cfg['chunk'] > n:
        total = c.count(first)
        c.check(c.eq(stored, c.ite(total < nmax, total, nmax)), 'as many events as requested')
    if tags:
        c.cover('kept')
    if len(tags) < n:
        c.cover('dropped')
    c.cover('done')


def reduce(c, m, cfg):
    ds = m.mod('tools.data_selection')
    n = cfg['n']
    chance(c, m)
    ev = sorted_ints(c, 'e', n, 0, 1000)
    q = [c.real('q%d' % i, -9, 9) for i in range(n)]
    m.write_h5(m.path('in.h5'), {'Hits': m.to_struct([('event_number', 'int64'), ('column', 'uint16'), ('charge', 'float64')], [(ev[i], i, q[i]) for i in range(n)])})
    try:
        out = ds.reduce_events(m.path('in.h5'), cfg['max'], chunk_size=cfg['chunk'])
    except ValueError:
        c.check(c.either(*[c.count([c.eq(a, b) for a in ev]) >= cfg['chunk'] for b in ev]), 'an error is raised only if an event fills a chunk')
        return
    got = row_dicts(m.read_h5(out, 'Hits'))
    judge(c, cfg, ev, got, [int(g['column']) for g in got], cfg['max'], lambda g, t: c.eq(g['charge'], q[t]))


def select(c, m, cfg):
    ds = m.mod('tools.data_selection')
    n = cfg['n']
    chance(c, m)
    use_telescope(m, ds, telescope(m, [{}]))
    ev = sorted_ints(c, 'e', n, 0, 1000)
    q = [c.real('q%d' % i, -9, 9) for i in range(n)]
    f = [('event_number', 'int64'), ('x_dut_0', 'float64'), ('n_hits_dut_0', 'uint32')] + [(k + '_flag', 'uint32') for k in ('hit', 'quality', 'isolated_track', 'isolated_hit')]
    m.write_h5(m.path('in.h5'), {'Tracks_DUT0': m.to_struct(f, [(ev[i], q[i], i, 1, 1, 1, 1) for i in range(n)])})
    try:
        out = ds.select_tracks('telescope.yaml', m.path('in.h5'), [0], max_events=cfg['max'], select_hit_duts=cfg.get('sel'), chunk_size=cfg['chunk'])
    except ValueError:
        c.check(c.either(*[c.count([c.eq(a, b) for a in ev]) >= cfg['chunk'] for b in ev]), 'an error is raised only if an event fills a chunk')
        return
    got = row_dicts(m.read_h5(out, 'Tracks_DUT0'))
    judge(c, cfg, ev, got, [int(g['n_hits_dut_0']) for g in got], cfg['max'], lambda g, t: c.eq(g['x_dut_0'], q[t]))


def find(c, m, cfg):
    """the event sampling of the track finding (tracks far apart: nothing is rearranged)"""
    ta = m.mod('track_analysis')
    n = cfg['n']
    chance(c, m)
    use_telescope(m, ta, telescope(m, [dict(), dict(translation_z=1000.0)]))
    ev = sorted_ints(c, 'e', n, 0, 1000)
    f = [('event_number', 'int64')] + [('%s_dut_%d' % (k, d), 'float64') for d in (0, 1) for k in ('x', 'y', 'z')] + [('n_hits_dut_0', 'uint32'), ('hit_flag', 'uint32')]
    m.write_h5(m.path('in.h5'), {'MergedClusters': m.to_struct(f, [(ev[i], 10.0 * i, 0.0, 0.0, 10.0 * i, 0.0, 0.0, i, 3) for i in range(n)])})
    try:
        out = ta.find_tracks('telescope.yaml', m.path('in.h5'), max_events=cfg['max'], align_to_beam=False, chunk_size=cfg['chunk'])
    except ValueError:
        c.check(c.either(*[c.count([c.eq(a, b) for a in ev]) >= cfg['chunk'] for b in ev]), 'an error is raised only if an event fills a chunk')
        return
    got = row_dicts(m.read_h5(out, 'TrackCandidates'))
    judge(c, cfg, ev, got, [int(g['n_hits_dut_0']) for g in got], cfg['max'], lambda g, t: c.both(c.eq(g['x_dut_0'], 10.0 * t), c.eq(g['x_dut_1'], 10.0 * t)))


def tasks(tier):
    q = tier == 'quick'
    ts = []
    for n in (1, 2, 3, 4) + (() if q else (5,)):
        for mx in (1, 2, 3):
            if mx > n:
                continue
            for chunk in (2, 3, 100):
                ts.append(T(reduce, dict(n=n, max=mx, chunk=chunk), ['done']))
    for n, mx, chunk in ((5, 2, 3), (5, 4, 3), (5, 3, 2)) + (() if q else ((6, 2, 3), (6, 5, 2), (7, 3, 4))):
        ts.append(T(reduce, dict(n=n, max=mx, chunk=chunk), ['done']))
    for n, mx, chunk in ((3, 1, 100), (3, 2, 2), (3, 2, 3), (4, 2, 3), (4, 3, 100)):
        ts.append(T(select, dict(n=n, max=mx, chunk=chunk), ['done', 'kept']))
        ts.append(T(find, dict(n=n, max=mx, chunk=chunk), ['done', 'kept']))
    ts.append(T(select, dict(n=3, max=2, chunk=100, sel=[0]), ['done', 'kept']))
    return ts
