"""C21: chunk-wise parallel processing gives what sequential processing gives"""
import copy as _copy
from engine.driver import T
from checks.sched import Sched, Hang, install
from checks.util import row_dicts, _cp

BOUNDS = ('tables of up to 5 rows with any event numbers and values, chunk sizes 2 to 8 and larger than the table, 1 core (threads only) or 2 cores, output to another or to the same file; '
          'result tables, 1- and 2-dimensional histograms (also with sizes that depend on the chunk); an error of the function in any chunk, and of opening the files; '
          'thread schedules: round robin at every poll with up to 1 (quick) or 2 (thorough) deviations anywhere, each deviation to any other thread or to a result that is late')
OUTSIDE = 'real worker processes and pickling (the pool calls the function with copies of its arguments); schedules with more deviations; preemption between two operations on shared objects (deques, events, results)'
ASSUMPTIONS = ['operations on deques and events are atomic', 'dill restores functions and arguments unchanged']
REAL_TIMEOUT = 300


def func(m, kinds, boom=None):
    np = m.np

    def f(data, scale=1):
        out = []
        n = data.shape[0]
        if boom is not None and boom in [int(v) for v in data['tag'].tolist()]:
            raise ValueError('bad data')
        for k in kinds:
            if k == 'table':
                r = data.copy()
                r['value'] = data['value'] * scale
                out.append(r)
            elif k == 'some':  # rows with odd tag
                out.append(data[data['tag'] % 2 == 1])
            elif k == 'sum':
                h = np.zeros(2, dtype=np.int64)
                h[0] = n
                h[1] = np.sum(data['value'])
                out.append(h)
            elif k == 'tags':  # length depends on the chunk
                out.append(np.bincount(data['tag']))
            elif k == 'map':
                t = [int(v) for v in data['tag'].tolist()]
                h = np.zeros((max(t) + 1, max(v % 3 for v in t) + 1), dtype=np.int64)
                for v in t:
                    h[v, v % 3] += 1
                out.append(h)
        return out if len(out) > 1 else out[0]
    return f


def smc(c, m, cfg):
    mod = m.mod('tools.smc')
    n = cfg['n']
    kinds = cfg['kinds']
    ev = list(cfg['ev']) if 'ev' in cfg else [c.int('ev%d' % i, 0, 2 ** 40) for i in range(n)]
    for a, b in zip(ev, ev[1:]):
        c.assume(a <= b)
    val = [c.int('v%d' % i, -1000, 1000) for i in range(n)]
    tag = cfg.get('tags', list(range(n)))
    fields = [('event_number', 'int64'), ('value', 'int64'), ('tag', 'int64')]
    src = m.path('in.h5')
    m.write_h5(src, {'Hits': m.to_struct(fields, list(zip(ev, val, tag)))})
    same = cfg.get('same')
    dst = src if same else m.path('out.h5')
    s = Sched(c, cfg.get('delays', 0), first=cfg.get('first'))
    pool = install(m, mod, s, _cp)
    desc = [dict(name='N%d' % i) for i in range(len(kinds))]
    if cfg.get('single'):
        desc = dict() if cfg['single'] == 'input name' else dict(name='N0')
    boom = cfg.get('boom')
    fail = None
    kw = {}
    if cfg.get('bad') == 'output':
        real_open = mod.tb.open_file

        def open_file(name, *a, **k):
            if name == dst:
                raise IOError('cannot open the output file')
            return real_open(name, *a, **k)
        m.patch(mod.tb, 'open_file', open_file)
    elif cfg.get('bad') == 'values':
        kinds = kinds[:-1]
    try:
        mod.SMC(src, dst, func(m, kinds, boom), func_kwargs={'scale': 2}, node_desc=desc, table=cfg.get('table', 'Hits'), align_at='event_number', n_cores=cfg['cores'], mode='r+' if same else 'w',
                chunk_size=cfg['chunk'])
    except Hang as e:
        s.stop()
        c.fail('processing does not end: %s' % e)
        return
    except Exception as e:
        fail = e
    s.stop()
    c.observe('steps', s.n)
    if any(True for t in s.threads if not t.finished):
        c.fail('a thread is left running')
    bad = boom is not None and n and boom in tag or cfg.get('bad') or None
    if bad is not None and bad is not False:
        c.check(fail is not None, 'an error in a thread or in the function is not reported')
        c.cover('error')
        return
    if fail is not None and cfg['chunk'] <= n:
        c.check(c.either(*[ev[i] == ev[i + cfg['chunk'] - 1] for i in range(n - cfg['chunk'] + 1)]), 'processing fails although every event fits into a chunk')
        c.cover('event too large')
        return
    c.check(fail is None and not s.errors, 'processing fails')
    if fail is not None or s.errors:
        return
    names = sorted(m.nodes(dst))
    if n == 0:
        c.cover('done')
        return
    data = list(zip(ev, val, tag))
    want = sorted(['Hits'] if same or cfg.get('single') == 'input name' else [])
    for i, k in enumerate(kinds):
        name = 'Hits' if cfg.get('single') == 'input name' else 'N%d' % i
        if name not in want:
            want.append(name)
        if name not in names:
            c.fail('a result is missing')
            continue
        got = m.read_h5(dst, name)
        if k in ('table', 'some'):
            rows = [dict(event_number=e, value=2 * v if k == 'table' else v, tag=t) for e, v, t in data if k == 'table' or t % 2]
            r = row_dicts(got)
            c.check(len(r) == len(rows), 'the result table has the wrong length')
            if len(r) == len(rows):
                c.check(c.both(*[c.exact(x[f], y[f]) for x, y in zip(r, rows) for f in y]), 'the result table is not the rows of all chunks in order')
        elif k == 'sum':
            r = got.tolist()
            c.check(c.both(len(r) == 2, c.eq(r[0], n), c.eq(r[1], sum(val))), 'the histogram is not the sum over all chunks')
        elif k == 'tags':
            c.check(got.tolist() == [tag.count(i) for i in range(max(tag) + 1)], 'the histogram is not the sum over all chunks')
        elif k == 'map':
            w = [[0] * (max(t % 3 for t in tag) + 1) for _ in range(max(tag) + 1)]
            for t in tag:
                w[t][t % 3] += 1
            c.check(got.tolist() == w, 'the histogram is not the sum over all chunks')
    c.check(sorted(want) == names, 'the output contains something else than the results')
    if same and 'Hits' not in ['N%d' % i for i in range(len(kinds))] and cfg.get('single') != 'input name':
        r = row_dicts(m.read_h5(src, 'Hits'))
        c.check(c.both(len(r) == n, *[c.exact(x['value'], v) for x, v in zip(r, val)]), 'the input table is changed')
    c.cover('done')


def tasks(tier):
    th = tier == 'thorough'
    out = []

    def w(covers, **cfg):
        out.append(T(smc, cfg, covers))
    ev = [1, 1, 3, 4]
    for cores in (1, 2):
        # any events and values
        w(['done', 'event too large'], n=4, kinds=['table', 'sum'], chunk=3, cores=cores)
        w(['done', 'event too large'], n=4, kinds=['some'], single='new name', chunk=2, cores=cores, tags=[2, 1, 0, 3])
        w(['done'], n=3, kinds=['sum'], single='new name', chunk=5, cores=cores)
        w(['done', 'event too large'], n=3, kinds=['table'], single='input name', chunk=2, cores=cores, same=True)
        w(['done', 'event too large'], n=4, kinds=['table', 'sum', 'some'], chunk=3, cores=cores, same=True)
        w(['done'], n=0, kinds=['table', 'sum'], chunk=3, cores=cores)
        w(['done', 'event too large'], n=5, kinds=['map', 'tags', 'sum'], tags=[5, 0, 2, 1, 0], chunk=3, cores=cores)
        w(['done', 'event too large'], n=5, kinds=['map'], tags=[0, 1, 0, 5, 2], single='new name', chunk=3, cores=cores, table=['Tracks', 'Hits'])
        # any schedule
        for d in ((1, 2) if th else (1,)):
            parts = [None] if d == 1 else [(a, a + 15) for a in range(0, 120, 15)]
            for first in parts:
                k = {} if first is None else dict(first=list(first))
                cv = ['done'] if first is None else []
                e = ['error'] if first is None else []
                w(cv, n=4, ev=ev, kinds=['table', 'tags'], chunk=3, cores=cores, delays=d, **k)
                w(cv, n=5, ev=[1, 2, 3, 4, 5], kinds=['table', 'sum'], chunk=2, cores=cores, delays=d, **k)
                w(cv, n=4, ev=ev, kinds=['table', 'sum'], chunk=3, cores=cores, delays=d, same=True, **k)
                w(cv, n=0, kinds=['sum'], chunk=3, cores=cores, delays=d, **k)
                for boom in (0, 3):
                    w(e, n=4, ev=ev, kinds=['table', 'sum'], chunk=3, cores=cores, boom=boom, delays=d, **k)
                w(e, n=5, ev=[1, 2, 3, 4, 5], kinds=['table', 'sum'], chunk=2, cores=cores, boom=1, delays=d, **k)
                w(e, n=6, ev=[1, 2, 3, 4, 5, 6], kinds=['sum'], chunk=2, cores=cores, boom=0, delays=d, **k)
                w(e, n=4, ev=ev, kinds=['table', 'sum'], chunk=3, cores=cores, bad='output', delays=d, **k)
                w(e, n=4, ev=ev, kinds=['table', 'sum'], chunk=3, cores=cores, bad='values', delays=d, **k)
        if not th:
            for first in [(a, a + 10) for a in range(0, 60, 10)]:
                w([], n=4, ev=[1, 2, 3, 4], kinds=['table', 'tags'], chunk=3, cores=cores, delays=2, first=list(first))
    return out
