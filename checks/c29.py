"""C29: data converters"""
import sys
import types
from engine.driver import T
from checks.util import row_dicts

BOUNDS = '0 to 4 (thorough: 5) hits with any event number up to 2**40 (sorted or not), any plane identifier, column, row and value; chunk sizes 1 to 3 and larger; 1 to 3 planes'
OUTSIDE = 'interpretation of the raw data (done by packages that are not part of the repository); the last row and column number of the 16-bit range, which wraps around'
ASSUMPTIONS = ['the packages pybar and pymosa_mimosa26_interpreter, which the converters import but the checked functions do not use, are replaced by empty modules']


def load(m, name):
    if not m.symbolic:
        for n in ('pybar', 'pybar.analysis', 'pybar.analysis.analyze_raw_data', 'pymosa_mimosa26_interpreter', 'contextlib2'):
            if n not in sys.modules:
                try:
                    __import__(n)
                except ImportError:
                    sys.modules[n] = types.ModuleType(n)
        import contextlib
        p = sys.modules['pybar.analysis.analyze_raw_data']
        p.AnalyzeRawData = getattr(p, 'AnalyzeRawData', None)
        p = sys.modules['pymosa_mimosa26_interpreter']
        p.data_interpreter = p.raw_data_interpreter = getattr(p, 'raw_data_interpreter', types.SimpleNamespace(DEFAULT_PYMOSA_M26_HEADER_IDS=[1, 2, 3, 4, 5, 6]))
        sys.modules['contextlib2'].ExitStack = contextlib.ExitStack
    return m.mod('converter.' + name)


def hits(c, n, extra):
    rows = []
    for i in range(n):
        r = dict(event_number=c.int('e%d' % i, 0, 2 ** 40), column=c.int('c%d' % i, 0, 65534), row=c.int('r%d' % i, 0, 65534))
        r.update(extra(i))
        rows.append(r)
    return rows


def table(m, name, rows, fields):
    f = m.path(name)
    m.write_h5(f, dict(Hits=m.to_struct(fields, [tuple(r[x] for x, _ in fields) for r in rows])))
    return f


def outcome(c, rows, call):
    """the output files, or None if the conversion is rejected"""
    try:
        out = call()
    except RuntimeError:
        ev = [r['event_number'] for r in rows]
        c.cover('rejected')
        c.check(c.either(*[a > b for a, b in zip(ev, ev[1:])]), 'only decreasing event numbers are rejected')
        return None
    c.cover('accepted')
    return out


def ordered(c, rows):
    ev = [r['event_number'] for r in rows]
    c.check(c.both(*[a <= b for a, b in zip(ev, ev[1:])]), 'decreasing event numbers are rejected')


def pymosa(c, m, cfg):
    mod = load(m, 'pymosa_converter')
    ids = cfg['ids']
    rows = hits(c, cfg['n'], lambda i: dict(plane=int(c.int('p%d' % i, 0, 3))))
    f = table(m, 'in.h5', rows, [('event_number', 'int64'), ('plane', 'uint8'), ('column', 'uint16'), ('row', 'uint16')])
    outs = [m.path('out%d.h5' % i) for i in ids] if cfg.get('names', True) else None
    got = outcome(c, rows, lambda: mod.format_hit_table(f, outs, list(ids), chunk_size=cfg['chunk']))
    if got is None:
        return
    ordered(c, rows)
    c.check(len(got) == len(ids) and len(set(got)) == len(ids), 'one file for each plane')
    for i, fn in zip(ids, got):
        want = [r for r in rows if r['plane'] == i]
        res = row_dicts(m.read_h5(fn, 'Hits'))
        c.check(len(res) == len(want), 'every hit of the plane is written once')
        if len(res) == len(want):
            for a, b in zip(res, want):
                c.check(c.both(c.eq(a['event_number'], b['event_number']), c.eq(a['column'], b['column'] + 1), c.eq(a['row'], b['row'] + 1), c.eq(a['charge'], 0), c.eq(a['frame'], 0)),
                        'hits are in order, unchanged, numbered from one')


def fei4(c, m, cfg):
    mod = load(m, 'pybar_fei4_converter')
    rows = hits(c, cfg['n'], lambda i: dict(relative_BCID=c.int('b%d' % i, 0, 255), tot=c.int('t%d' % i, 0, 255)))
    f = table(m, 'in.h5', rows, [('event_number', 'int64'), ('relative_BCID', 'uint8'), ('tot', 'uint8'), ('column', 'uint16'), ('row', 'uint16')])
    got = outcome(c, rows, lambda: mod.format_hit_table(f, m.path('out.h5') if cfg.get('names', True) else None, chunk_size=cfg['chunk']))
    if got is None:
        return
    ordered(c, rows)
    res = row_dicts(m.read_h5(got, 'Hits'))
    c.check(len(res) == len(rows), 'every hit is written once')
    if len(res) == len(rows):
        for a, b in zip(res, rows):
            c.check(c.both(*[c.eq(a[x], b[y]) for x, y in (('event_number', 'event_number'), ('column', 'column'), ('row', 'row'), ('charge', 'tot'), ('frame', 'relative_BCID'))]),
                    'hits are in order and unchanged')


def tasks(tier):
    big = tier == 'thorough'
    ts = []
    for n in range(0, 6 if big else 5):
        cov = ['accepted', 'rejected'] if n > 1 else ['accepted']
        for ch in (1, 2, 3, 100):
            if ch > n and ch != 100:
                continue
            ts.append(T(fei4, dict(n=n, chunk=ch, names=ch != 2), cov))
            if n < 4 or big or ch in (2, 3):
                ts.append(T(pymosa, dict(n=n, chunk=ch, ids=(1, 2) if ch != 3 else (3, 0, 1), names=ch != 2), cov))
    return ts
