"""C32: fit_tracks stores every qualifying track candidate exactly once"""
from engine.driver import T
from checks.util import telescope, use_telescope, row_dicts, Now
from checks.c06 import rot, app, inv

BOUNDS = ('1 to 4 track candidates in 1 to 3 events, 3 to 4 planes (moved, rotated about the beam by any angle, or flipped), every hit position of the listed patterns anywhere in +-10 mm, '
          'fixed track directions, every pattern of missing hits with fixed positions (thorough: more), the listed selections of planes, chunk sizes and numbers of events; '
          'straight line fits of 2 hits or of 3 equidistant hits with any symmetric deviation; Kalman mode with arbitrary results of the filter')
OUTSIDE = 'the singular value decomposition inside the straight-line fit (C30) and the Kalman filter itself (C16): both are replaced by models; plots; real worker processes (the pool runs its tasks at once)'
ASSUMPTIONS = ['numpy.linalg.svd returns, as first right singular vector, the unit vector along the line through the hits, with either sign (fixed per task)',
               'multiprocessing.Pool runs each task once with copies of its arguments and returns its result']
REAL_TIMEOUT = 300
NAN = float('nan')
PI = 3.141592653589793
DIRS = [((0, 0, 1), 1), ((6, 0, 8), 10), ((2, 3, 6), 7), ((-3, 0, 4), 5)]
COLS = [('x', 'float64'), ('y', 'float64'), ('z', 'float64'), ('x_err', 'float32'), ('y_err', 'float32'), ('z_err', 'float32'), ('charge', 'float32'), ('frame', 'uint8'), ('n_hits', 'uint32'),
        ('cluster_ID', 'int32'), ('cluster_shape', 'int64'), ('n_cluster', 'uint32')]


class World(object):
    """track candidates whose fitted lines are known.  hits[i][d]: '-' no hit, 'L' on the line, 'A' anywhere, 'F' fixed
    place beside the line, 'S' deviation (equal in the outer two of three equidistant planes)"""

    def __init__(self, c, m, cfg):
        self.c, self.m, self.cfg = c, m, cfg
        self.ta = m.mod('track_analysis')
        nd = self.nd = cfg['nd']
        self.ev = cfg['ev']
        self.n = len(self.ev)
        pl = cfg.get('planes') or [{}] * nd
        self.pose = []
        for d in range(nd):
            p = pl[d]
            a = [c.angle('%s%d' % (q, d)) if p.get(q) == 'any' else p.get(q, 0.0) for q in ('alpha', 'beta', 'gamma')]
            self.pose.append(([p.get('tx', 0.0), p.get('ty', 0.0), p.get('tz', 1000.0 * d)], rot(c, *a), a))
        duts = []
        for d in range(nd):
            t, _, a = self.pose[d]
            duts.append(dict(translation_x=t[0], translation_y=t[1], translation_z=t[2], rotation_alpha=a[0], rotation_beta=a[1], rotation_gamma=a[2], **pl[d].get('dut', {})))
        self.tel = telescope(m, duts)
        use_telescope(m, self.ta, self.tel)
        m.patch(self.ta, 'Pool', Now)
        if m.symbolic:
            m.patch(self.ta, 'cpu_count', lambda: cfg.get('cores', 2))
        self.u, self.p, self.hit, self.dev = [], [], [], []
        for i in range(self.n):
            h = cfg['hits'][i]
            v, mag = DIRS[cfg.get('dirs', [0] * self.n)[i]]
            self.u.append([c.rat(q, mag) for q in v])
            f = cfg.get('at', {}).get(str(i)) or cfg.get('at', {}).get(i)
            if f is None and any(x != '-' for x in h) and not cfg.get('fixed'):
                f = (c.real('px%d' % i, -1e4, 1e4), c.real('py%d' % i, -1e4, 1e4) if cfg.get('two', True) else 0.0)
            self.p.append(tuple(f or (100.0 * i, 10.0 * i if cfg.get('two', True) else 0.0)) + (0.0,))
            row, dv = [], []
            outer = (c.real('so%d' % i, -500, 500), c.real('to%d' % i, -500, 500)) if 'S' in h else None
            k = 0
            for d in range(nd):
                lo = self.on(i, d, self.p[i], self.u[i])[0] if h[d] != '-' else None
                e = (0.0, 0.0)
                if h[d] == 'A':
                    lo = [c.real('hx%d_%d' % (i, d), -1e4, 1e4), c.real('hy%d_%d' % (i, d), -1e4, 1e4) if cfg.get('two', True) else 0.0, 0.0]
                elif h[d] == 'F':
                    lo = [lo[0] + 7.0 * (d + 1), lo[1] - (3.0 * i + 1.0 if cfg.get('two', True) else 0.0), 0.0]
                elif h[d] == 'S':
                    e = outer if k != 1 else (c.real('si%d' % i, -500, 500), c.real('ti%d' % i, -500, 500))
                    k += 1
                    g = app(self.pose[d][1], lo, self.pose[d][0])
                    lo = inv(self.pose[d][1], [g[0] + e[0], g[1] + e[1], g[2]], self.pose[d][0])
                row.append(lo)
                dv.append(e)
            self.hit.append(row)
            self.dev.append(dv)
        self.flag = [sum(1 << d for d in range(nd) if self.hit[i][d] is not None) for i in range(self.n)]
        self.err = [(4.0 + d, 8.0 + d) for d in range(nd)]
        self.table()
        self.sign = cfg.get('sign', 1)
        if cfg.get('given') and hasattr(self.ta, 'line_fit_3d'):
            self.calls = 0
            m.patch(self.ta, 'line_fit_3d', self.given)
        m.hook('numpy.linalg.svd', self.svd)

    def on(self, i, d, p, u):
        """intersection with plane d and direction, local"""
        t, R, _ = self.pose[d]
        nrm = [R[k][2] for k in range(3)]
        den = sum(nrm[k] * u[k] for k in range(3))
        num = sum(nrm[k] * (t[k] - p[k]) for k in range(3))
        s = num / den
        loc = inv(R, [p[k] + s * u[k] for k in range(3)], t)
        su = inv(R, u)
        if su[2] < 0:
            su = [-q for q in su]
        return loc, su

    def table(self):
        fields = [('event_number', 'int64')]
        for d in range(self.nd):
            fields += [('%s_dut_%d' % (q, d), t) for q, t in COLS]
        fields += [('hit_flag', 'uint32')]
        self.rows = []
        for i in range(self.n):
            r = [self.ev[i]]
            for d in range(self.nd):
                h = self.hit[i][d]
                r += [NAN] * 6 + [0.0, 0, 0, -1, -1, 0] if h is None else list(h) + [self.err[d][0], self.err[d][1], 0.0, 10.0 * i + d, i + d, i + 1, 100 * d + i, 3 + i, 2 + d]
            self.rows.append(tuple(r + [self.flag[i]]))
        self.names = [f for f, _ in fields]
        self.m.write_h5(self.m.path('candidates.h5'), {'TrackCandidates': self.m.to_struct(fields, self.rows)})
        self.cand = [dict(zip(self.names, r)) for r in self.rows]

    def svd(self, A, full_matrices=True, compute_uv=True, **k):
        """model: A holds the centred hits of one candidate"""
        c, m = self.c, self.m
        rows = A.tolist()
        if len(rows) == 3 and len(rows[0]) != 3:
            c.fail('svd of an unexpected matrix')
        best = None
        for v, mag in sorted(set((DIRS[j] for j in self.cfg.get('dirs', [0])))):
            # A^T A v parallel to v
            w = [sum(a[q] * sum(a[r] * v[r] for r in range(3)) for a in rows) for q in range(3)]
            cr = [w[1] * v[2] - w[2] * v[1], w[2] * v[0] - w[0] * v[2], w[0] * v[1] - w[1] * v[0]]
            ok = c.both(*[c.eq(q, 0.0) for q in cr])
            if ok:
                nrm = w[0] * v[0] + w[1] * v[1] + w[2] * v[2]
                tr = sum(a[q] * a[q] for a in rows for q in range(3))
                if 2 * nrm > tr * sum(q * q for q in v):  # more than half of the trace: the largest eigenvalue
                    best = [self.sign * c.rat(q, mag) for q in v]
                    break
        if best is None:
            c.fail('the line fit decomposes something else than the centred hits of the fit planes')
            best = [0.0, 0.0, 1.0]
        return None, None, m.to_array(best + [0.0] * 6, 'float64').reshape((3, 3))

    def given(self, positions):
        """model: the fit returns any line"""
        m = self.m
        d, fit, hit, mn = self.selections()[0]
        todo = self.fitted(fit, mn)
        i = todo[self.calls % len(todo)]
        self.calls += 1
        return m.to_array(list(self.p[i]), 'float64'), m.to_array(self.u[i], 'float64')

    # what must come out
    def selections(self):
        k = self.cfg.get('kw', {})
        nd = self.nd
        duts = k.get('select_duts')
        duts = list(range(nd)) if duts is None else duts
        fit = k.get('select_fit_duts')
        fit = list(range(nd)) if fit is None else fit
        if not any(isinstance(f, list) or f is None for f in fit):
            fit = [fit] * len(duts)
        fit = [list(range(nd)) if f is None else f for f in fit]
        hit = k.get('select_hit_duts') or []
        if not any(isinstance(f, list) or f is None for f in hit):
            hit = [hit] * len(duts)
        hit = [f or [] for f in hit]
        ex = k.get('exclude_dut_hit', True)
        ex = ex if isinstance(ex, list) else [ex] * len(duts)
        mn = k.get('min_track_hits')
        mn = mn if isinstance(mn, list) else [mn] * len(duts)
        out = []
        for j, d in enumerate(duts):
            f = sorted(set(fit[j]) - {d} if ex[j] else set(fit[j]))
            out.append((d, f, hit[j], len(f) if mn[j] is None else mn[j]))
        return out

    def used(self, i, fit):
        return [d for d in fit if self.hit[i][d] is not None]

    def fitted(self, fit, mn):
        lo = max(3, mn) if self.cfg.get('method') == 'kalman' else 2
        return [i for i in range(self.n) if len(self.used(i, fit)) >= lo]

    def stored(self, fit, hit, mn):
        return [i for i in self.fitted(fit, mn) if len(self.used(i, fit)) >= mn and all(self.hit[i][d] is not None for d in hit)]

    def line(self, i, fit):
        us = self.used(i, fit)
        p = list(self.p[i])
        if self.cfg.get('given'):
            return p, self.u[i]
        if any(self.cfg['hits'][i][d] == 'S' for d in us):
            assert len(us) == 3
            for k in range(2):
                p[k] = p[k] + sum(self.dev[i][d][k] for d in us) / 3
        else:
            assert all(self.cfg['hits'][i][d] == 'L' for d in us), (i, us)
        return p, self.u[i]

    def estimate(self, i, d, fit, mn=0):
        """position and direction at plane d, local"""
        if self.cfg.get('method') == 'kalman':
            o, s = self.state(i)
            return [o[d][0], o[d][1], 0.0], [s[d][0], s[d][1], 1.0]
        return self.on(i, d, *self.line(i, fit))

    def state(self, i):
        c = self.c
        if not hasattr(self, '_st'):
            self._st = {}
        if i not in self._st:
            if i in self.cfg.get('free', range(self.n)):
                o = [[c.real('o%d_%d%s' % (i, d, q), -1e4, 1e4) if q == 'x' or self.cfg.get('two', True) else 0.0 for q in 'xy'] for d in range(self.nd)]
            else:
                o = [[100.0 * i + d, 10.0 * i if self.cfg.get('two', True) else 0.0] for d in range(self.nd)]
            self._st[i] = (o, [[0.001 * (i + 1) * (d + 1), -0.002 * (i + 1)] for d in range(self.nd)])
        return self._st[i]

    def kalman(self):
        """model of the Kalman loop: each candidate of the slice must be one that was asked for"""
        m, c = self.m, self.c
        self.seen = []
        for i in range(self.n):  # the model tells candidates apart by their hits
            for j in range(i):
                d = [d for d in range(self.nd) if self.hit[i][d] is not None]
                if d and d == [d for d in range(self.nd) if self.hit[j][d] is not None]:
                    a, b = self.hit[i][d[0]][0], self.hit[j][d[0]][0]
                    c.assume(c.either(a - b >= 0.01, b - a >= 0.01))

        def loop(track_hits, telescope, select_fit_duts, **k):
            o, s = [], []
            chi = []
            for row in track_hits.tolist():
                for i in range(self.n):
                    if all((self.hit[i][d] is None) == bool(row[d][2] != row[d][2]) for d in range(self.nd)) and bool(c.both(*[
                            c.both(*[c.exact(row[d][k], v) for k, v in ((0, self.hit[i][d][0]), (1, self.hit[i][d][1]), (3, self.err[d][0]), (4, self.err[d][1]))])
                            for d in range(self.nd) if self.hit[i][d] is not None])):
                        break
                else:
                    c.fail('the Kalman filter gets hits that belong to no candidate')
                    i = 0
                self.seen.append(i)
                oo, ss = self.state(i)
                o += sum(oo, [])
                s += sum(ss, [])
                chi.append(10.0 + i)
            n = len(chi)
            return (m.to_array(o, 'float64').reshape((n, self.nd, 2)), m.to_array(s, 'float64').reshape((n, self.nd, 2)), m.to_array(chi, 'float64'),
                    m.to_array([q / 2 for q in chi], 'float64'), m.to_array([q / 100 for q in chi], 'float64'), None, None, None, None, None)
        m.patch(self.ta, '_fit_tracks_kalman_loop', loop)

    def chi2(self, i, fit):
        if self.cfg.get('method') == 'kalman':
            return 10.0 + i, (10.0 + i) / 2, (10.0 + i) / 100
        us = self.used(i, fit)
        tot = 0.0
        for d in us:
            loc = self.estimate(i, d, fit)[0]
            for k in range(2):
                r = self.hit[i][d][k] - loc[k]
                tot = tot + r * r / self.err[d][k] ** 2
        return tot, (tot / (2 * (len(us) - 2)) if len(us) > 2 else 0.0), 0.0

    def run(self, **more):
        c, m, cfg = self.c, self.m, self.cfg
        if cfg.get('method') == 'kalman':
            self.kalman()
        k = dict(cfg.get('kw', {}))
        for q in ('quality_distances', 'isolation_distances'):
            if isinstance(k.get(q), list):
                k[q] = [tuple(v) if v is not None else None for v in k[q]] if any(isinstance(v, (list, tuple)) or v is None for v in k[q]) else tuple(k[q])
        k.update(more)
        out = self.ta.fit_tracks('telescope.yaml', m.path('candidates.h5'), m.path('tracks.h5'), method=cfg.get('method', 'fit'), plot=False, chunk_size=cfg.get('chunk', 1000),
                                 beam_energy=2500.0, particle_mass=0.511, **k)
        return out

    def tables(self, out):
        return {n: row_dicts(self.m.read_h5(out, n)) for n in self.m.nodes(out) if n.startswith('Tracks')}


def match(w, got, want, d, fit, mn, msg):
    """rows of one table against the expected candidates, in order"""
    c = w.c
    c.check(len(got) == len(want), msg + ': number of tracks')
    if len(got) != len(want):
        return
    full = w.cfg.get('kw', {}).get('full_track_info')
    keep = w.cfg.get('kw', {}).get('keep_data')
    fitted = w.fitted(fit, mn)
    for g, i in zip(got, want):
        for q in w.names:
            c.check(c.exact(g[q], w.cand[i][q]), msg + ': event, hits and hit flag are those of the candidate')
        if i not in fitted:
            assert keep
            for q in ('offset_x', 'offset_y', 'offset_z', 'slope_x', 'slope_y', 'slope_z', 'track_chi2', 'track_chi_red', 'track_chi_prob'):
                c.check(c.isnan(g[q]), msg + ': a candidate that was not fitted has no track parameters')
            for q in ('quality_flag', 'isolated_track_flag', 'isolated_hit_flag'):
                c.check(c.eq(g[q], 0), msg + ': a candidate that was not fitted has no flags')
            c.cover('unfitted kept')
            continue
        loc, su = w.estimate(i, d, fit)
        for k, q in enumerate('xyz'):
            c.check(c.eq(g['offset_' + q], loc[k]), msg + ': track position at the plane')
            c.check(c.eq(g['slope_' + q], su[k]), msg + ': track direction at the plane')
        if full:
            for e in range(w.nd):
                loc, su = w.estimate(i, e, fit)
                for k, q in enumerate('xyz'):
                    c.check(c.eq(g['offset_%s_dut_%d' % (q, e)], loc[k]), msg + ': track position at each plane')
                    c.check(c.eq(g['slope_%s_dut_%d' % (q, e)], su[k]), msg + ': track direction at each plane')
        tot, red, prob = w.chi2(i, fit)
        c.check(c.eq(g['track_chi2'], tot), msg + ': chi2 is the sum of the squared normalised residuals')
        c.check(c.eq(g['track_chi_red'], red), msg + ': reduced chi2')
        c.check(c.eq(g['track_chi_prob'], prob), msg + ': chi2 probability')
        c.cover('track')


def whole(c, m, cfg):
    w = World(c, m, cfg)
    out = w.run()
    tabs = w.tables(out)
    keep = cfg.get('kw', {}).get('keep_data')
    c.observe('tables', {n: [g['event_number'] for g in t] for n, t in tabs.items()})
    sel = w.selections()
    for d, fit, hit, mn in sel:
        want = w.stored(fit, hit, mn)
        if keep and want:
            c.check(cfg.get('chunk') is None, 'bad task')
            want = list(range(w.n))
        got = tabs.pop('Tracks_DUT%d' % d, [])
        match(w, got, want, d, fit, mn, 'table')
        if len(want) < w.n:
            c.cover('left out')
    c.check(not tabs, 'tables only for the selected planes')
    c.cover('done')


def limited(c, m, cfg):
    """max_events: whole events, no more than asked for"""
    w = World(c, m, cfg)
    mx = cfg['max']
    if c.symbolic:
        def hook(name, *a, **k):
            if name == 'seed':
                return None
            assert name == 'choice', name
            a0 = a[0].tolist()
            size = int(k.get('size', 1) if len(a) < 2 else a[1])
            c.check(0 <= size <= len(a0), 'more events drawn than there are')
            left, r = list(a0), []
            for _ in range(size):
                r.append(left.pop(c.choose_n(len(left))))
            return m.to_array(r, 'int64')
        c.random_hook = hook
    out = w.run(max_events=mx)
    tabs = w.tables(out)
    for d, fit, hit, mn in w.selections():
        can = w.stored(fit, hit, mn)
        got = tabs.pop('Tracks_DUT%d' % d, [])
        evs = sorted(set(int(g['event_number']) for g in got))
        c.observe('n', len(evs))
        c.check(len(evs) <= mx, 'no more events than asked for')
        if cfg.get('chunk') is None:
            c.check(len(evs) == min(mx, len(set(w.ev[i] for i in can))), 'as many events as asked for if there are as many')
        want = [i for i in can if w.ev[i] in evs]
        match(w, got, want, d, fit, mn, 'sampled')
    c.cover('done')


def tasks(tier):
    th = tier == 'thorough'
    out = []

    def w(covers, **cfg):
        out.append(T(whole, cfg, ['done'] + covers))
    P = [dict(), dict(tx=300.0, ty=-200.0, gamma='any'), dict(tz=2000.0)]
    flip = [dict(), dict(tx=300.0, ty=-200.0, beta='any'), dict(tz=2000.0)]
    # a hit anywhere in the plane under test does not influence its fit
    base = dict(nd=3, ev=[3, 5], hits=['LAL', 'LAL'], dirs=[0, 1], planes=P)
    w(['track'], **dict(base, kw=dict(select_duts=[1], select_fit_duts=[0, 2])))
    w(['track'], **dict(base, kw=dict(select_duts=[1], select_fit_duts=[0, 1, 2]), sign=-1))
    w(['track'], **dict(base, dirs=[2, 3], planes=flip, kw=dict(select_duts=[0, 1], select_fit_duts=[2, 0], exclude_dut_hit=[False, True], full_track_info=True)))
    # all hits are used when asked for
    w(['track'], **dict(base, hits=['SSS', 'SSS'], dirs=[0, 0], planes=[dict(), dict(tx=30.0), dict(tz=2000.0)], kw=dict(exclude_dut_hit=False, quality_distances=None, isolation_distances=None)))
    # whatever line the fit returns
    w(['track'], **dict(base, given=True, ev=[3, 3, 5], hits=['AAA', 'A-A', 'AA-'], dirs=[0, 1, 2], two=False, planes=[dict(), dict(tx=30.0), dict(tz=2000.0)], far=True,
                        kw=dict(exclude_dut_hit=False, min_track_hits=2, quality_distances=None, isolation_distances=None)))
    # which candidates are stored in which table
    ev = [1, 1, 4, 4, 4, 9, 10]
    dr = [0, 1, 2, 3, 0, 1, 0]
    fx = dict(fixed=True, nd=4, ev=ev, hits=['LLLL', 'LL-L', 'L-L-', 'LLFL', '--LL', '-LL-', '---L'], dirs=dr)
    an = dict(fx, hits=['LLAL', 'LL-L', 'L-A-', 'LLAL', '--AL', '-LA-', '---L'], two=False)
    for b, kw in ((an, dict(select_duts=[2], select_fit_duts=[0, 1, 3])), (fx, dict(select_duts=[2], select_fit_duts=[0, 1, 2, 3], min_track_hits=2)),
                  (an, dict(select_duts=[2], select_fit_duts=[0, 1, 3], min_track_hits=2, select_hit_duts=[2])),
                  (an, dict(select_duts=[2, 0], select_fit_duts=[[0, 1, 3], [1, 3]], min_track_hits=[2, None], select_hit_duts=[[0], None])),
                  (an, dict(select_duts=[3, 2], select_fit_duts=[0, 1], exclude_dut_hit=False, keep_data=True, full_track_info=True)),
                  (an, dict(select_duts=[2], select_fit_duts=[0, 1, 3], min_track_hits=2, keep_data=True)),
                  (an, dict(select_duts=[1, 2], select_fit_duts=[0, 3], exclude_dut_hit=[True, False]))):
        kw = dict(kw, quality_distances=None)
        w(['track', 'left out'] if not kw.get('keep_data') else ['track', 'unfitted kept'], **dict(b, kw=kw))
        if not kw.get('keep_data'):
            for chunk in (4, 5):
                w(['track', 'left out'], **dict(b, kw=kw, chunk=chunk))
    # Kalman filter: any result
    kal = dict(method='kalman', nd=3, ev=[1, 4, 6, 6], hits=['AAA', 'A-A', 'AAA', 'AA-'], two=False)
    w(['track'], **dict(kal, ev=[1, 4, 6, 7], kw=dict(exclude_dut_hit=False, quality_distances=None, isolation_distances=None, full_track_info=True)))
    w(['unfitted kept'], **dict(kal, ev=[1, 4, 6, 7], kw=dict(select_duts=[1], exclude_dut_hit=False, quality_distances=None, keep_data=True)))
    w(['left out'], **dict(kal, hits=['FFF', 'F-F', 'FFF', 'FF-'], fixed=True, kw=dict(select_duts=[0, 1, 2], exclude_dut_hit=True)))
    # whole events are left out when there are more than asked for
    for mx in (1, 2, 3):
        for chunk in (None, 3) if not th else (None, 3, 4, 5):
            cfg = dict(fixed=True, nd=3, ev=[1, 1, 2, 5, 5, 8], hits=['LLL', 'LLL', 'L-L', 'LLL', 'LLL', 'LLL'], dirs=[0, 1, 0, 1, 2, 3], max=mx,
                       kw=dict(select_duts=[1], select_fit_duts=[0, 2], select_hit_duts=[1] if mx == 2 else None))
            if chunk:
                cfg['chunk'] = chunk
            out.append(T(limited, cfg, ['done', 'track']))
    return out
