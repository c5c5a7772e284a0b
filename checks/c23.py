"""C23: lookup helpers"""
from engine.driver import T
from checks.util import sorted_ints, is_in

BOUNDS = 'tables of 0 to 4 (thorough: 5) rows, all sorted and unsorted event numbers of 0..2^40, all ranges with and without limits; index lookup with 0 to 3 (thorough: 4) entries in 1 to 3 (thorough: 4) values; closest value in 1 to 4 (thorough: 5) sorted values'
OUTSIDE = 'longer arrays; the index lookup in an empty array; the closest value of unsigned integers'


def event_range(c, m, cfg):
    au = m.mod('tools.analysis_utils')
    n = cfg['n']
    if cfg['sorted']:
        ev = sorted_ints(c, 'e', n, 0, 2 ** 40)
    else:
        ev = [c.int('e%d' % i, 0, 2 ** 40) for i in range(n)]
    q = [c.real('q%d' % i, -9, 9) for i in range(n)]
    a = m.to_struct([('event_number', 'int64'), ('column', 'uint16'), ('charge', 'float64')], [(ev[i], i, q[i]) for i in range(n)])
    kw = {}
    if cfg['start']:
        kw['event_start'] = c.int('start', 0, 2 ** 40)
    if cfg['stop']:
        kw['event_stop'] = c.int('stop', 0, 2 ** 40)
    if not cfg['sorted']:
        kw['assume_sorted'] = False
    r = au.get_data_in_event_range(a, **kw)
    tags = [int(x) for x in r['column'].tolist()]
    c.observe('rows', tags)
    c.check(tags == sorted(set(tags)) and all(0 <= t < n for t in tags), 'rows are kept in order and once')
    for t, e, v in zip(tags, r['event_number'].tolist(), r['charge'].tolist()):
        c.check(c.both(c.eq(e, ev[t]), c.eq(v, q[t])), 'rows are not modified')
    for i in range(n):
        inside = c.both(*([ev[i] >= kw['event_start']] if cfg['start'] else []) + ([ev[i] < kw['event_stop']] if cfg['stop'] else []) + [True])
        c.check(c.iff(i in tags, inside), 'a row is selected exactly if its event is in the range')
    if tags:
        c.cover('selected')
    if len(tags) < n:
        c.cover('left out')
    c.cover('done')


def index(c, m, cfg):
    au = m.mod('tools.analysis_utils')
    a = [c.int('a%d' % i, 0, 2 ** 40) for i in range(cfg['na'])]
    b = sorted_ints(c, 'b', cfg['nb'], 0, 2 ** 40) if cfg['sorted'] else [c.int('b%d' % i, 0, 2 ** 40) for i in range(cfg['nb'])]
    kw = {}
    if cfg['sorted']:
        kw['assume_sorted'] = True
    if cfg['fill'] is not None:
        kw['fill_invalid'] = cfg['fill']
    valid, idx = au.in1d_index(m.to_array(a, 'int64'), m.to_array(b, 'int64'), **kw)
    valid, idx = [int(v) for v in valid.tolist()], [int(v) for v in idx.tolist()]
    c.observe('valid', valid)
    c.check(valid == sorted(set(valid)) and all(0 <= v < len(a) for v in valid), 'the entries found are listed in order and once')
    for i, x in enumerate(a):
        c.check(c.iff(i in valid, is_in(c, x, b)), 'an entry is found exactly if the values contain it')
    c.check(len(idx) == (len(valid) if cfg['fill'] is None else len(a)), 'one position per entry')
    pos = dict(zip(valid if cfg['fill'] is None else range(len(a)), idx))
    for i, p in pos.items():
        if i in valid:
            if not 0 <= p < len(b):
                c.fail('a position is outside of the values')
            else:
                c.check(c.eq(b[p], a[i]), 'the position holds an equal value')
        else:
            c.check(p == cfg['fill'], 'the position of an entry that is not found has the fill value')
    if valid:
        c.cover('found')
    if len(valid) < len(a):
        c.cover('not found')
    c.cover('done')


def closest(c, m, cfg):
    au = m.mod('tools.analysis_utils')
    k = cfg['kind']
    mk = (lambda n: c.int(n, -2 ** 40, 2 ** 40)) if k == 'int64' else (lambda n: c.real(n, -1000, 1000))
    a = [mk('a%d' % i) for i in range(cfg['n'])]
    for x, y in zip(a, a[1:]):
        c.assume(x <= y)
    v = [mk('v%d' % i) for i in range(cfg['nv'])]
    r = [int(i) for i in au.find_closest(m.to_array(a, k), m.to_array(v, k)).tolist()]
    c.observe('number', len(r))
    c.check(len(r) == len(v), 'one index per value')
    for x, i in zip(v, r):
        if not -len(a) <= i < len(a):
            c.fail('the index is outside of the array')
            return
        d = a[i] - x
        d = c.ite(d >= 0, d, -d)
        c.check(c.both(*[c.both(c.either(y - x >= d, x - y >= d)) for y in a]), 'no value of the array is closer')
    c.cover('done')


def tasks(tier):
    q = tier == 'quick'
    ts = []
    for n in range(5 if q else 6):
        for s in (True, False):
            for start in (True, False):
                for stop in (True, False):
                    ts.append(T(event_range, dict(n=n, sorted=s, start=start, stop=stop), ['done'] + (['selected'] if n else []) + (['left out'] if n and (start or stop) else [])))
    for na in range(4 if q else 5):
        for nb in range(1, 4 if q else 5):
            for s in (True, False):
                for fill in (None, -1, 99):
                    ts.append(T(index, dict(na=na, nb=nb, sorted=s, fill=fill), ['done'] + (['found', 'not found'] if na else [])))
    for n in range(1, 5 if q else 6):
        for nv in (0, 1, 2):
            for k in ('int64', 'float64'):
                ts.append(T(closest, dict(n=n, nv=nv, kind=k), ['done']))
    return ts
