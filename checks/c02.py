"""C02: event-number set operations"""
from engine.driver import T
from checks.util import sorted_ints, is_in, count_eq

BOUNDS = 'arrays of 0 to 3 (thorough: 4) event numbers each, event numbers any of 0..2^62, contiguous and strided arrays'
OUTSIDE = 'longer arrays; negative event numbers; unsorted arrays'


def _arr(m, vals, strided):
    if strided:
        return m.to_struct([('event_number', 'int64'), ('x', 'uint8')], [(v, 7) for v in vals])['event_number']
    return m.to_array(vals, 'int64')


def common(c, m, cfg):
    a = sorted_ints(c, 'a', cfg['na'], 0, 2 ** 62)
    b = sorted_ints(c, 'b', cfg['nb'], 0, 2 ** 62)
    r = m.mod('tools.analysis_utils').get_events_in_both_arrays(_arr(m, a, cfg.get('strided')), _arr(m, b, cfg.get('strided'))).tolist()
    c.observe('common', r)
    for x, y in zip(r, r[1:]):
        c.check(x < y, 'common events ascend strictly')
    for x in r:
        c.check(c.both(is_in(c, x, a), is_in(c, x, b)), 'a common event is in both arrays')
    for x in a:
        c.check(c.implies(is_in(c, x, b), is_in(c, x, r)), 'every event of both arrays is found')
    if r:
        c.cover('common')


def membership(c, m, cfg):
    a = sorted_ints(c, 'a', cfg['na'], 0, 2 ** 62)
    b = sorted_ints(c, 'b', cfg['nb'], 0, 2 ** 62)
    r = m.mod('tools.analysis_utils').in1d_events(_arr(m, a, cfg.get('strided')), _arr(m, b, cfg.get('strided'))).tolist()
    c.observe('membership', r)
    c.check(len(r) == len(a), 'one answer per entry')
    if len(r) == len(a):
        for x, s in zip(a, r):
            c.check(c.iff(s, is_in(c, x, b)), 'an entry is marked exactly when the second array contains it')
    c.cover('done')


def union(c, m, cfg):
    a = sorted_ints(c, 'a', cfg['na'], 0, 2 ** 62)
    b = sorted_ints(c, 'b', cfg['nb'], 0, 2 ** 62)
    r = m.mod('tools.analysis_utils').get_max_events_in_both_arrays(_arr(m, a, cfg.get('strided')), _arr(m, b, cfg.get('strided'))).tolist()
    c.observe('union', r)
    for x, y in zip(r, r[1:]):
        c.check(x <= y, 'the union ascends')
    for x in r:
        c.check(c.either(is_in(c, x, a), is_in(c, x, b)), 'the union contains only given events')
    for x in a + b:
        na, nb, nr = count_eq(c, x, a), count_eq(c, x, b), count_eq(c, x, r)
        c.check(c.ite(na >= nb, nr == na, nr == nb), 'an event occurs as often as in the array that has it most often')
    c.cover('done')


def tasks(tier):
    n = 3 if tier == 'quick' else 4
    ts = []
    for na in range(n + 1):
        for nb in range(n + 1):
            cov = ['common'] if na and nb else []
            ts.append(T(common, dict(na=na, nb=nb), cov))
            ts.append(T(membership, dict(na=na, nb=nb), ['done']))
            ts.append(T(union, dict(na=na, nb=nb), ['done']))
    for f in (common, membership, union):
        ts.append(T(f, dict(na=2, nb=2, strided=True)))
    return ts
