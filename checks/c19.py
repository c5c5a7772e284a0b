"""C19: combining files"""
from engine.driver import T
from checks.util import sorted_ints, row_dicts

BOUNDS = '1 to 3 (thorough: 4) files with 0 to 3 (thorough: 4) rows each, all sorted event numbers up to 2**40, all values, chunk sizes 1 to 3 and larger, one or two tables, with and without given event number offsets'
OUTSIDE = 'more files and rows; event numbers whose sum exceeds the range of 64-bit integers'


def combine(c, m, cfg):
    ds = m.mod('tools.data_selection')
    ns = cfg['n']
    fields = [('event_number', 'int64'), ('column', 'uint16'), ('charge', 'float64')]
    plain = [('k', 'int32')]
    rows, files = [], []
    for f, n in enumerate(ns):
        ev = sorted_ints(c, 'e%d_' % f, n, 0, 2 ** 40)
        rows.append([dict(event_number=ev[i], column=100 * f + i, charge=c.real('q%d_%d' % (f, i), -9, 9)) for i in range(n)])
        files.append(m.path('in%d.h5' % f))
        nodes = {}
        if f not in cfg.get('without', ()):
            nodes['Hits'] = m.to_struct(fields, [tuple(r[x] for x, _ in fields) for r in rows[f]])
        else:
            rows[f] = []
        if cfg.get('two'):
            nodes['Other'] = m.to_struct(plain, [(10 * f + i,) for i in range(n)])
        m.write_h5(files[f], nodes)
    offs = cfg.get('offsets')
    offs = [None if o is None else c.int('o%d' % k, 0, 2 ** 40) for k, o in enumerate(offs)] if offs else None
    out, applied = ds.combine_files(files, output_file=m.path('out.h5'), names=cfg.get('names'), event_number_offsets=offs, chunk_size=cfg.get('chunk', 100))
    got = row_dicts(m.read_h5(out, 'Hits'))
    c.observe('events', [g['event_number'] for g in got])
    want = [(f, r) for f, rr in enumerate(rows) for r in rr]
    c.check(len(got) == len(want), 'all rows are in the output')
    if len(got) != len(want):
        return
    have = [f for f in range(len(ns)) if f not in cfg.get('without', ())]
    c.check(len(applied['Hits']) == len(have), 'one offset per file with the table')
    a = dict(zip(have, applied['Hits']))
    for g, (f, r) in zip(got, want):
        c.check(c.both(c.eq(g['column'], r['column']), c.eq(g['charge'], r['charge'])), 'rows are in order and unchanged')
        c.check(c.eq(g['event_number'], r['event_number'] + a[f]), 'event numbers are shifted by the returned offset')
        if offs and offs[f] is not None:
            c.check(c.eq(a[f], offs[f]), 'a given offset is applied')
    if not offs:
        for x, y in zip(range(len(got)), range(1, len(got))):
            fx, fy = want[x][0], want[y][0]
            if fx != fy:
                c.check(got[x]['event_number'] < got[y]['event_number'], 'files do not share event numbers')
                c.cover('border')
            else:
                c.check(got[x]['event_number'] <= got[y]['event_number'], 'event numbers do not decrease')
    if cfg.get('two'):
        names = m.nodes(out)
        if cfg.get('names') is None:
            c.check([g['k'] for g in row_dicts(m.read_h5(out, 'Other'))] == [10 * f + i for f, n in enumerate(ns) for i in range(n)], 'tables without event numbers are appended')
        else:
            c.check('Other' not in [str(x).strip('/') for x in names], 'only the given tables are combined')
    c.cover('done')


def tasks(tier):
    q = tier == 'quick'
    ts = []
    for n in ((2, 2), (1, 0, 2), (0, 2), (0, 0), (2, 0), (0, 1, 0, 1), (3, 1), (1, 1, 1), (1,)) + (() if q else ((4, 4), (3, 3, 3), (2, 2, 2, 2), (0, 3, 0, 3))):
        for chunk in (1, 2, 100):
            ts.append(T(combine, dict(n=n, chunk=chunk), ['done'] + (['border'] if sum(1 for k in n if k) > 1 else [])))
    ts.append(T(combine, dict(n=(2, 2), two=True), ['done', 'border']))
    ts.append(T(combine, dict(n=(2, 1), two=True, names='Hits'), ['done', 'border']))
    ts.append(T(combine, dict(n=(2, 1), two=True, names=['Hits']), ['done', 'border']))
    ts.append(T(combine, dict(n=(2, 1, 2), two=True, without=[1]), ['done', 'border']))
    ts.append(T(combine, dict(n=(2, 2), offsets=[1, 1]), ['done']))
    ts.append(T(combine, dict(n=(2, 2, 1), offsets=[1, None, 1]), ['done']))
    return ts
