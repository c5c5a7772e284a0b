"""C15: quality and isolation flags of tracks"""
from engine.driver import T
from checks.util import merging
from checks.c32 import World, ASSUMPTIONS, PI  # noqa: F401

BOUNDS = ('1 to 4 track candidates in 1 to 3 events, 3 planes (moved, rotated about the beam by any angle), track positions and hits anywhere in +-10 mm (along both axes with up to 2 candidates), '
          'fixed track directions, quality distances on either side of the limit between box and ellipse, none or zero, isolation distances of any such kind, '
          'limits none, one-sided infinite and finite, one to two chunks; straight line fits of 2 hits and arbitrary results of the Kalman filter')
OUTSIDE = 'larger events; the fits themselves (C16, C30); residual offset correction for the alignment (select_align_duts, needs a density estimate); floating-point rounding at the boundary of the distances'
REAL_TIMEOUT = 300
INF = float('inf')
PITCH = (50.0, 20.0)


def inside(c, v, limit, tie):
    """v <= limit; with floating point numbers that are equal up to rounding: tie"""
    if c.symbolic or v == limit or abs(v - limit) > 1e-9 * (abs(v) + abs(limit)):
        return v <= limit
    return tie


def near(c, dx, dy, dist, ellipse, tie):
    if ellipse:
        return inside(c, dx * dx * (dist[1] ** 2) + dy * dy * (dist[0] ** 2), (dist[0] * dist[1]) ** 2, tie)
    return c.both(inside(c, dx, dist[0], tie), inside(c, -dx, dist[0], tie), inside(c, dy, dist[1], tie), inside(c, -dy, dist[1], tie))


def bit_is(c, v, d, cond, msg):
    """bit d of v is set iff cond(tie)"""
    w = cond(True)
    if not c.symbolic and w != cond(False):
        return
    c.check(c.iff(c.eq((v >> d) & 1, 1), w), msg)


def flags(c, m, cfg):
    if cfg.get('merge', True):
        merging(c)
    w = World(c, m, cfg)
    out = w.run()
    tabs = w.tables(out)
    kw = cfg['kw']
    keep = kw.get('keep_data')
    nd = w.nd
    per = lambda v: [v[d] for d in range(nd)] if isinstance(v, list) and any(isinstance(q, (list, tuple)) or q is None for q in v) else [v] * nd
    qd, iso = per(kw.get('quality_distances', [250.0, 250.0])), per(kw.get('isolation_distances', [500.0, 500.0]))
    lim = kw.get('use_limits', True)
    for d0, fit, hit, mn in w.selections():
        stored = w.stored(fit, hit, mn)
        fitted = w.fitted(fit, mn)
        rows = list(range(w.n)) if keep else stored
        got = tabs.get('Tracks_DUT%d' % d0, [])
        c.check(len(got) == len(rows), 'number of tracks')
        if len(got) != len(rows):
            continue
        est = {i: [w.estimate(i, d, fit)[0] for d in range(nd)] for i in fitted}
        for g, i in zip(got, rows):
            q, t, h = g['quality_flag'], g['isolated_track_flag'], g['isolated_hit_flag']
            for name, v in (('quality', q), ('track', t), ('hit', h)):
                c.observe(name, v)
            if i not in fitted:
                c.check(c.both(c.eq(q, 0), c.eq(t, 0), c.eq(h, 0)), 'no flags without fit')
                continue
            c.check(c.both(*[c.both(c.le(0, v), c.le(v, 2 ** nd - 1)) for v in (q, t, h)]), 'no flags of planes that do not exist')
            for d in range(nd):
                p = w.hit[i][d]
                Q = qd[d]
                ellipse = Q is None or (Q[0] >= 2.5 * PITCH[0] and Q[1] >= 2.5 * PITCH[1])
                if p is None:
                    bit_is(c, q, d, lambda tie: False, 'no quality flag without hit')
                else:
                    def good(tie):
                        ok = []
                        if lim:
                            pl = cfg.get('planes', [{}] * nd)[d].get('dut', {})
                            for k, n in enumerate(('x_limit', 'y_limit')):
                                if pl.get(n):
                                    ok += [inside(c, pl[n][0], p[k], tie)] if pl[n][0] != -INF else []
                                    ok += [inside(c, p[k], pl[n][1], tie)] if pl[n][1] != INF else []
                        if Q is not None:
                            ok.append(near(c, p[0] - est[i][d][0], p[1] - est[i][d][1], Q, ellipse, tie))
                        return c.both(*ok)
                    bit_is(c, q, d, good, 'quality: hit inside of the limits and not farther from the track than the quality distance')
                I = iso[d] or (0.0, 0.0)
                el = I[0] > 0 and I[1] > 0
                other = [j for j in fitted if j != i and w.ev[j] == w.ev[i]]
                bit_is(c, t, d, lambda tie: c.neg(c.either(*[near(c, est[i][d][0] - est[j][d][0], est[i][d][1] - est[j][d][1], I, el, tie) for j in other])),
                       'isolated track: no other fitted track of the event crosses the plane within the isolation distance')
                if other:
                    c.cover('two tracks')
                hits = [] if p is None else [j for j in range(w.n) if j != i and w.ev[j] == w.ev[i] and w.hit[j][d] is not None]
                bit_is(c, h, d, lambda tie: c.neg(c.either(*[near(c, p[0] - w.hit[j][d][0], p[1] - w.hit[j][d][1], I, el and ellipse, tie) for j in hits])),
                       'isolated hit: no other hit of the event is within the isolation distance')
                if hits:
                    c.cover('two hits')
        c.cover('done')


def tasks(tier):
    th = tier == 'thorough'
    out = []

    def w(covers, **cfg):
        out.append(T(flags, cfg, ['done'] + covers))
    P = [dict(), dict(tx=300.0, ty=-200.0), dict(tz=2000.0)]
    L = [dict(), dict(tx=300.0, ty=-200.0, dut=dict(x_limit=[-400.0, 1200.0], y_limit=[-50.0, 70.0])), dict(tz=2000.0)]
    L2 = [dict(dut=dict(x_limit=[-INF, 100.0])), dict(tx=300.0, ty=-200.0, gamma='any', dut=dict(x_limit=[-400.0, INF], y_limit=[-INF, 70.0])), dict(tz=2000.0)]
    sel = dict(select_duts=[1], select_fit_duts=[0, 2])
    one = dict(nd=3, ev=[7], hits=['LAL'], dirs=[0], planes=L)
    for Q in ([250.0, 250.0], [125.0, 50.0], [120.0, 60.0], [300.0, 40.0], None, [0.0, 0.0], [[10.0, 200.0], [130.0, 200.0], None], [[10.0, 200.0], None, None], [[130.0, 70.0], [70.0, 20.0], [0.0, 90.0]]):
        w([], **dict(one, kw=dict(sel, quality_distances=Q)))
    w([], **dict(one, planes=L2, dirs=[1], kw=dict(sel, quality_distances=[100.0, 40.0])))
    w([], **dict(one, planes=L2, dirs=[2], kw=dict(sel)))
    w([], **dict(one, planes=L2, kw=dict(sel, use_limits=False)))
    w([], **dict(one, hits=['L-L'], kw=dict(sel)))
    # events with several candidates
    Q0 = dict(sel, quality_distances=None)
    two = dict(nd=3, ev=[7, 7], hits=['LAL', 'LAL'], dirs=[0, 1], planes=P)
    for I in ([500.0, 500.0], [300.0, 80.0], None, [0.0, 0.0], [[200.0, 0.0], [200.0, 0.0], [0.0, 50.0]]):
        for Q in (None, [40.0, 30.0]):
            if I == [500.0, 500.0] or Q is None:
                w(['two tracks', 'two hits'], **dict(two, hits=['LAL', 'LAL'] if Q is None else ['LFL', 'LFL'], at={'1': [0.0, 0.0]} if Q else {}, kw=dict(sel, quality_distances=Q, isolation_distances=I)))
    P1 = [dict(), dict(tx=300.0), dict(tz=2000.0)]
    x = dict(nd=3, planes=P1, two=False)
    w(['two tracks', 'two hits'], **dict(x, ev=[2, 7, 7, 8], hits=['LAL', 'LAL', 'LAL', 'LAL'], dirs=[0, 0, 0, 0], kw=Q0))
    w(['two tracks', 'two hits'], **dict(x, ev=[7, 7, 7], hits=['LFL', 'LFL', 'LFL'], dirs=[0, 0, 0], kw=Q0))
    w(['two tracks', 'two hits'], **dict(x, ev=[7, 7, 7], hits=['LAL', 'LAL', 'LAL'], dirs=[0, 0, 0], fixed=True, kw=dict(sel, quality_distances=[30.0, 30.0], isolation_distances=[10.0, 20.0])))
    # candidates without fit have no track but hits; fitted ones that are not stored have both
    w(['two hits'], **dict(x, ev=[7, 7], hits=['LFL', '-A-'], dirs=[0, 0], kw=Q0))
    w(['two tracks', 'two hits'], **dict(x, ev=[7, 7], hits=['LFL', 'L-L'], dirs=[0, 0], kw=dict(Q0, select_hit_duts=[1])))
    w(['two tracks', 'two hits'], **dict(x, ev=[7, 7, 9], hits=['LFL', 'L-L', '-AL'], dirs=[0, 0, 0], kw=dict(Q0, keep_data=True)))
    w(['two tracks', 'two hits'], **dict(x, ev=[7, 7, 9, 9], hits=['LAL', 'LAL', 'LAL', 'LAL'], dirs=[0, 0, 0, 0], chunk=3, kw=Q0))
    # planes rotated about the beam
    w(['two tracks'], **dict(two, dirs=[0, 0], hits=['L-L', 'L-L'], planes=[dict(), dict(tx=300.0, gamma='any'), dict(tz=2000.0)], kw=dict(Q0, isolation_distances=[300.0, 80.0])))
    # Kalman filter
    k = dict(method='kalman', nd=3, two=False, planes=L)
    w([], **dict(k, ev=[7], hits=['AAA'], two=True, kw=dict(exclude_dut_hit=False)))
    w(['two tracks', 'two hits'], **dict(k, ev=[7, 7], hits=['FAF', 'FFF'], planes=P1, free=[0], fixed=True, kw=dict(select_duts=[0, 1], exclude_dut_hit=False, quality_distances=[[30.0, 100.0], None, [10.0, 10.0]])))
    w(['two hits'], **dict(k, ev=[7, 7], hits=['AAA', 'A-A'], planes=P1, kw=dict(select_duts=[1], exclude_dut_hit=False, min_track_hits=2, keep_data=True, quality_distances=None)))
    return out
