"""C33: the Kalman track fit hands the right geometry, measurements and errors to the filter and returns its result"""
import inspect
from engine.driver import T
from checks.c06 import rot, app, inv
from checks.util import telescope

BOUNDS = ('one or two tracks, three or four planes in any order along the beam (first plane rotated by any angle about one axis, or flipped) and up to two scattering planes; any hits, errors, '
          'annealing factors and results of the filter, several patterns of missing hits, of planes with a given resolution and of planes left out; any reference line')
OUTSIDE = 'the filter itself (C16) and the straight-line fit of the reference track (C30), which return anything here; tilts about several axes at once; floating-point rounding'
ASSUMPTIONS = ['the distribution function of scipy.stats.chi2 is a function of chi2 and degrees of freedom']
NAN = float('nan')


class Chi2(object):
    """stand-in for the chi2 distribution: any values"""

    def __init__(self, c, m):
        self.c, self.m, self.seen = c, m, []

    def cdf(self, x, df):
        xs, ds = x.tolist(), df.tolist()
        self.seen.append((xs, ds))
        self.val = [self.c.real('cdf%d' % i, 0, 1) for i in range(len(xs))]
        return self.m.to_array(self.val, 'float64')


def fit(c, m, cfg):
    np = m.np
    ta = m.mod('track_analysis')
    pl = cfg['planes']
    nd, ns, n = len(pl), len(cfg.get('scatter', [])), len(cfg['hits'])
    poses, duts = [], []
    for d, p in enumerate(list(pl) + list(cfg.get('scatter', []))):
        a = [c.angle('%s%d' % (q, d)) if p.get(q) == 'any' else p.get(q, 0.0) for q in ('al', 'be', 'ga')]
        for q, w in zip(('al', 'be'), a):
            if p.get(q) == 'any':
                # the beam does not run along the plane
                c.assume(c.either(c.le(0.5, c.cos(w)), c.le(c.cos(w), -0.5)))
        t = [p.get('tx', 0.0), p.get('ty', 0.0), p['z']]
        poses.append((t, rot(c, *a)))
        k = dict(translation_x=t[0], translation_y=t[1], translation_z=t[2], rotation_alpha=a[0], rotation_beta=a[1], rotation_gamma=a[2], material_budget=p.get('mb', 0.01))
        if p.get('res'):
            k['intrinsic_resolution'] = (c.real('rx%d' % d, 0, 100), c.real('ry%d' % d, 0, 100))
        duts.append(k)
    tel = telescope(m, duts[:nd])
    scatter = [m.mod('telescope.dut').ScatteringPlane(name='S%d' % i, **k) for i, k in enumerate(duts[nd:])] if ns else None
    hits = np.full((n, nd, 6), np.nan)
    H = {}
    for t in range(n):
        for d in range(nd):
            if cfg['hits'][t][d]:
                H[t, d] = [c.real('x%d%d' % (t, d), -1e4, 1e4), c.real('y%d%d' % (t, d), -1e4, 1e4), 0.0, c.real('ex%d%d' % (t, d), 0, 100), c.real('ey%d%d' % (t, d), 0, 100), 0.0]
                for k in range(6):
                    hits[t, d, k] = H[t, d][k]
    alpha = [c.real('a%d' % d, 1, 1e4) for d in range(nd)]
    sel = cfg['fit']
    lines, asked = [], []
    for t in range(n):
        lines.append(([c.real('ox%d' % t, -1e4, 1e4), c.real('oy%d' % t, -1e4, 1e4), 0.0], [c.real('dx%d' % t, -0.25, 0.25), c.real('dy%d' % t, -0.25, 0.25), 1.0]))

    def line_fit(positions):
        asked.append(positions.tolist())
        o, s = lines[min(len(asked), n) - 1]
        return m.to_array(o, 'float64'), m.to_array(s, 'float64')
    m.patch(ta, 'line_fit_3d', line_fit)
    chi2 = Chi2(c, m)
    m.patch(ta, 'chi2', chi2)
    kal = m.mod('tools.kalman').KalmanFilter
    sig = inspect.signature(kal.smooth)
    got = []
    state = [[[c.real('s%d_%d_%d' % (t, d, k), -1e4, 1e4) for k in range(4)] for d in range(nd + ns)] for t in range(n)]
    var = [[[c.real('v%d_%d_%d' % (t, d, k), 0, 100) for k in range(2)] for d in range(nd + ns)] for t in range(n)]
    chi = [[c.real('c%d_%d' % (t, d), 0, 1000) if (t, d) in H else NAN for d in range(nd + ns)] for t in range(n)]

    def smooth(self, *a, **k):
        got.append(sig.bind(self, *a, **k).arguments)
        cov = np.zeros((n, nd + ns, 4, 4))
        for t in range(n):
            for d in range(nd + ns):
                for k in range(2):
                    cov[t, d, k, k] = var[t][d][k] * var[t][d][k]
                    cov[t, d, 0, 1] = cov[t, d, 1, 0] = 0.5
        return m.to_array(state, 'float64'), cov, m.to_array(chi, 'float64')
    m.patch(kal, 'smooth', smooth)
    if m.symbolic:
        m.hook('numpy.linalg.eigvalsh', lambda a, *x, **k: np.zeros(tuple(a.shape[:-1])))
    E, M = 5000.0, 3000.0
    kw = dict(track_hits=hits, telescope=tel, select_fit_duts=list(sel), beam_energy=E, particle_mass=M, scattering_planes=scatter, alpha=m.to_array(alpha, 'float64'))
    fail = None
    try:
        off, slo, c2, c2r, prob, xe, ye = ta._fit_tracks_kalman_loop(**kw)[:7]
    except ValueError as e:
        fail = e
    order = sorted(range(nd + ns), key=lambda d: (list(pl) + list(cfg.get('scatter', [])))[d]['z'])
    zero = [d for d in order[:-1] if (list(pl) + list(cfg.get('scatter', [])))[d].get('mb') == 0.0]
    if zero:
        c.check(fail is not None, 'a plane without material is accepted')
        c.cover('done')
        return
    c.check(fail is None, 'the fit fails')
    if fail is not None:
        return
    c.check(len(got) == 1, 'the filter has to run once')
    g = got[0]
    c.check([int(v) for v in g["z_sorted_dut_indices"]] == order, 'the planes are not sorted along the beam')
    c.check(len(g['dut_planes']) == nd + ns and all(c.exact(q.translation_z, poses[d][0][2]) for d, q in enumerate(g['dut_planes'])), 'the planes are not those of the telescope followed by the scattering planes')
    c.check(sorted(g['select_fit_duts']) == sorted(sel), 'other planes than the selected ones are fitted')
    c.check(c.both(c.eq(g['momentum'], 4000.0), c.eq(g['beta'], 0.8)), 'momentum or velocity of the beam are wrong')
    ob, cv, hm, seed = g['observations'], g['observation_covariances'], g['observation_matrices'], g['track_seed']
    for t in range(n):
        for d in range(nd + ns):
            h = H.get((t, d))
            for k in range(2):
                c.check(c.isnan(ob[t, d, k]) if h is None else c.exact(ob[t, d, k], h[k]), 'the filter gets other hits than the given ones')
                r = duts[d].get('intrinsic_resolution')
                w = 0.0 if r is None and h is None else (r[k] * r[k] if r else h[3 + k] * h[3 + k]) * (alpha[d] if d < nd else 1.0)
                c.check(c.eq(cv[t, d, k, k], w), 'the variance of a hit is not the squared error times the annealing factor')
                c.check(c.both(c.exact(cv[t, d, k, 1 - k], 0.0), *[c.exact(hm[t, d, k, q], 1.0 if q == k else 0.0) for q in range(4)]), 'the errors are correlated or something else than the position is measured')
        # reference track at the first plane
        p0, R = poses[order[0]]
        o, u = lines[t]
        nrm = [R[k][2] for k in range(3)]
        s = sum(nrm[k] * (p0[k] - o[k]) for k in range(3)) / sum(nrm[k] * u[k] for k in range(3))
        loc = inv(R, [o[k] + s * u[k] for k in range(3)], p0)
        su = inv(R, u)
        for v, w in zip([seed[t, k] for k in range(4)], [loc[0], loc[1], su[0] / su[2], su[1] / su[2]]):
            c.check(c.eq(v, w), 'the track seed is not the reference track at the first plane')
        # reference track fitted to the global hits of the fit planes
        a = asked[t] if t < len(asked) else []
        c.check(len(a) == len(sel), 'the reference track is not fitted to the selected planes')
        if len(a) == len(sel):
            for q, d in zip(a, sel):
                if (t, d) in H:
                    w = app(poses[d][1], H[t, d][:3], poses[d][0])
                    c.check(c.both(*[c.eq(q[k], w[k]) for k in range(3)]), 'the reference track is not fitted to the global positions of the hits')
    c.check(len(asked) == n, 'the reference tracks are not those of the tracks')
    tot, dof = [], []
    for t in range(n):
        f = [d for d in sel if (t, d) in H]
        tot.append(sum(chi[t][d] for d in f))
        dof.append(2 * len(f) - 4)
        c.check(c.eq(c2[t], tot[t]), 'chi2 is not the sum over the planes of the fit')
        if dof[t] > 0:
            c.check(c.eq(c2r[t] * dof[t], tot[t]), 'the reduced chi2 is not chi2 over the degrees of freedom')
        for d in range(nd):
            for k in range(2):
                c.check(c.both(c.exact(off[t, d, k], state[t][d][k]), c.exact(slo[t, d, k], state[t][d][2 + k])), 'positions and slopes are not those of the filter')
                c.check(c.eq((xe, ye)[k][t, d], var[t][d][k]), 'the errors are not those of the filter')
    c.check(tuple(off.shape)[:2] == (n, nd) and tuple(xe.shape)[:2] == (n, nd), 'there are results for the scattering planes')
    for xs, ds in chi2.seen[:1]:
        c.check(c.both(*[c.eq(a, b) for a, b in zip(xs, tot)] + [c.exact(a, b) for a, b in zip(ds, dof)]), 'the probability is not taken at chi2 and the degrees of freedom')
        c.check(c.both(*[c.eq(prob[t], 1 - chi2.val[t]) for t in range(n)]), 'the probability is not the one of a larger chi2')
    c.check(len(chi2.seen) == 1, 'no probability is calculated')
    c.cover('done')


def tasks(tier):
    th = tier == 'thorough'
    out = []

    def w(**cfg):
        out.append(T(fit, cfg, ['done']))
    P = [dict(z=0.0), dict(z=1000.0), dict(z=2000.0)]
    S = [dict(z=500.0, mb=0.002), dict(z=-300.0, mb=0.003, tx=40.0)]
    full = [1, 1, 1]
    w(planes=P, hits=[full], fit=[0, 1, 2])
    w(planes=P, hits=[full, full], fit=[0, 2])
    w(planes=P, hits=[full, [1, 0, 1]], fit=[0, 1, 2], scatter=S[:1])
    w(planes=[P[2], P[0], P[1]], hits=[full, [0, 1, 1]], fit=[1, 2], scatter=S)
    w(planes=[dict(z=0.0, res=1), P[1], dict(z=2000.0, res=1)], hits=[[1, 1, 0], full], fit=[2, 0, 1])
    w(planes=[dict(z=0.0, res=1), P[1], dict(z=2000.0, res=1)], hits=[[1, 1, 1]], fit=[0, 1, 2], scatter=[dict(z=500.0, res=1)])
    for q in ('al', 'be', 'ga'):
        w(planes=[{'z': 10.0, 'tx': 5.0, 'ty': -3.0, q: 'any'}, P[1], P[2]], hits=[full], fit=[0, 1, 2])
        w(planes=[P[2], P[1], {'z': 10.0, 'ty': 5.0, q: 'any'}], hits=[[1, 1, 0]], fit=[0, 1], scatter=S[:1])
        w(planes=[P[1], P[2]], hits=[[1, 1]], fit=[0, 1], scatter=[{'z': -10.0, q: 'any'}])
    w(planes=P + [dict(z=-500.0)], hits=[[1, 1, 1, 1], [1, 0, 1, 1]], fit=[3, 0, 2])
    w(planes=[dict(z=0.0), dict(z=1000.0, mb=0.0), dict(z=2000.0)], hits=[full], fit=[0, 1, 2])
    w(planes=[dict(z=0.0), dict(z=1000.0), dict(z=2000.0, mb=0.0)], hits=[full], fit=[0, 1, 2])
    w(planes=P, hits=[full], fit=[0, 1, 2], scatter=[dict(z=500.0, mb=0.0)])
    if th:
        for k in range(8):
            h = [1 if k & (1 << i) else 0 for i in range(3)] + [1]
            for z in ([0.0, 1.0, 2.0, 3.0], [3.0, 1.0, 0.0, 2.0], [1.0, 0.0, 3.0, 2.0]):
                w(planes=[dict(z=1000.0 * v, res=i % 2, tx=10.0 * i) for i, v in enumerate(z)], hits=[[1] * 4, h], fit=[i for i in range(4) if i != k % 4], scatter=S)
    return out
