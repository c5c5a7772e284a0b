"""C01: chunked reading of event tables"""
from engine.driver import T
from checks.util import sorted_ints

BOUNDS = 'tables of up to 6 (thorough: 10; with options 5 and 7) rows with any sorted event numbers, chunk sizes 1 to 7 (9), any start/stop index, any start/stop event number; indexed reading with given event numbers'
OUTSIDE = 'longer tables; start events combined with unaligned first events; tables that are not sorted'


def read(c, m, cfg):
    n, size = cfg['n'], cfg['size']
    ev = sorted_ints(c, 'e', n, 0, 2 ** 40)
    m.write_h5(m.path('in.h5'), {'Hits': m.to_struct([('event_number', 'int64'), ('id', 'int32')], [(e, i) for i, e in enumerate(ev)])}, index=cfg.get('speedup') and {'Hits': ['event_number']} or None)
    kw = {}
    lo, hi = 0, n
    if cfg.get('index'):
        lo = int(c.int('lo', 0, n))
        hi = int(c.int('hi', 0, n))
        c.assume(lo <= hi)
        kw.update(start_index=lo, stop_index=hi)
    start = stop = None
    if cfg.get('start'):
        start = c.int('start', 0, 2 ** 40)
        kw['start_event_number'] = start
    if cfg.get('stop'):
        stop = c.int('stop', 0, 2 ** 40)
        kw['stop_event_number'] = stop
    if cfg.get('speedup'):
        # the query strings need given numbers; the event numbers of the rows stay symbolic
        start, stop = cfg.get('gstart'), cfg.get('gstop')
        kw.update(start_event_number=start, stop_event_number=stop, try_speedup=True)
    if start is not None and stop is not None:
        c.assume(start <= stop)
    aligned = not cfg.get('unaligned')
    fail = bool(cfg.get('fail'))
    kw.update(first_event_aligned=aligned, fail_on_missing_events=fail, chunk_size=size)
    tb = m.mod('tools.analysis_utils')
    chunks, err = [], None
    with m.open(m.path('in.h5')) as f:
        it = tb.data_aligned_at_events(f.root.Hits, **kw)
        try:
            for chunk, nxt in it:
                chunks.append((chunk['event_number'].tolist(), chunk['id'].tolist(), nxt))
                if len(chunks) > n:
                    c.fail('more chunks than rows')
                    return
        except ValueError as e:
            err = e
    # reference
    rows = list(range(lo, hi))
    first_missing = c.b(False)
    keep = []
    for i in rows:
        k = c.b(True)
        if start is not None:
            k = c.both(k, ev[i] >= start)
        if stop is not None:
            k = c.both(k, ev[i] < stop)
        if not aligned and lo != 0:
            k = c.both(k, c.neg(c.eq(ev[i], ev[lo])))
        if hi < n and rows:
            last = ev[hi - 1]
            reached = (last >= stop) if stop is not None else c.b(False)
            if not cfg.get('speedup'):
                k = c.both(k, c.either(reached, c.neg(c.eq(ev[i], last))))
        keep.append(k)
    big = c.b(False)
    for i in rows:
        big = c.either(big, c.count([c.eq(ev[i], ev[j]) for j in rows]) >= size)
    missing = c.b(False)
    if fail and start is not None and not cfg.get('speedup'):
        missing = c.neg(c.either(*[c.eq(ev[i], start) for i in rows])) if rows else c.b(True)
    if err is not None:
        c.check(c.either(big, missing), 'an error is raised only if an event does not fit into a chunk or the start event is missing')
        c.cover('error')
    else:
        if rows:
            c.check(c.neg(missing), 'a missing start event raises an error if requested')
    got = [(e, i) for es, ids, _ in chunks for e, i in zip(es, ids)]
    pos = 0
    for es, ids, nxt in chunks:
        c.check(len(es) <= size, 'no chunk is longer than the chunk size')
        if ids:
            c.check(nxt == ids[-1] + 1, 'the index given with a chunk is where the next chunk starts')
    for (a, _, _), (b, _, _) in zip(chunks, chunks[1:]):
        if a and b:
            c.check(c.neg(c.eq(a[-1], b[0])), 'an event is not divided between two chunks')
    for e, i in got:
        c.check(c.eq(e, ev[i]), 'rows are delivered with unchanged contents')
    for a, b in zip(got, got[1:]):
        c.check(a[1] < b[1], 'rows are delivered in order and once')
    ids = [i for _, i in got]
    for i, k in zip(rows, keep):
        if i in ids:
            c.check(k, 'only rows of the requested range are delivered')
        elif err is None:
            c.check(c.neg(k), 'all rows of the requested range are delivered')
    for i in ids:
        if i not in rows:
            c.fail('only rows of the requested range are delivered')
    c.observe('chunks', [[e, i, x] for e, i, x in chunks])
    c.observe('error', err is not None)
    if chunks:
        c.cover('read')
    if len(chunks) > 1:
        c.cover('several chunks')


def tasks(tier):
    q = tier == 'quick'
    ts = []
    N = 6 if q else 10
    for n in range(0, N + 1):
        for size in range(1, min(n, 8) + 2):
            ts.append(T(read, dict(n=n, size=size), ['read'] if n == 1 or n and size > 1 else []))
    n = 5 if q else 7
    for size in (2, 3, 6) if q else (1, 2, 3, 4, 6, 8):
        for opt in (dict(start=1), dict(stop=1), dict(start=1, stop=1), dict(start=1, fail=1), dict(index=1), dict(index=1, unaligned=1), dict(index=1, start=1), dict(index=1, stop=1), dict(start=1, stop=1, fail=1)):
            ts.append(T(read, dict(n=n, size=size, **opt), ['read'] if size > 1 else []))
        for gs, ge in ((2, None), (None, 4), (2, 4), (2, 2)):
            d = dict(n=n, size=size, speedup=1)
            if gs is not None:
                d['gstart'] = gs
            if ge is not None:
                d['gstop'] = ge
            ts.append(T(read, d))
    return ts
