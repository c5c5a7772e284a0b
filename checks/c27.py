"""C27: updates of the alignment parameters in the Kalman alignment"""
import math
from engine.driver import T
from checks.c06 import rot, mul
from checks.c16 import mm, mt, mv, add
from checks.util import telescope, use_telescope, row_dicts
from checks.c08 import Eps

BOUNDS = ('three planes with any pose and any errors, every subset of up to two planes and several selections of parameters; updates with any track state, measurement and '
          'covariances, up to two free parameters; derivatives for any track state and any pose of the plane; combined poses for any pose and corrections about up to two axes; '
          'deviation cuts: three planes, two free parameters, any residuals; annealing over one and two tracks with any factor')
OUTSIDE = 'floating-point rounding (values are reals); the update with three or more free parameters at once; longer annealing (powers other than square roots); second-order terms of large corrections'
ASSUMPTIONS = ['covariance matrices of measurements and track states are positive definite']

NAMES = ['translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma']


def initial(c, m, cfg):
    d = m.mod('dut_alignment')
    poses = []
    for i in range(3):
        p = {n: c.real('%s%d' % (n, i), -1e6, 1e6) for n in NAMES[:3]}
        p.update({n: c.angle('%s%d' % (n, i)) if n == cfg['turn'] else 0.0 for n in NAMES[3:]})
        poses.append(p)
    tel = telescope(m, poses)
    err = [c.real('err%d' % i, 0, 1e4) for i in range(6)]
    sel, par = cfg['sel'], cfg['par']
    cov = m.np.zeros((3, 6, 6))
    R, t, cov = d._calculate_initial_alignment(tel, sel, cfg['tel'], [None if p is None else [NAMES[i] for i in p] for p in par], cov, err)
    for i in range(3):
        want = [0] * 6
        if i in sel:
            p = par[sel.index(i)]
            for k in range(6):
                if (p is None or k in p) and not (k < 5 and i in (cfg['tel'][0], cfg['tel'][-1])):
                    want[k] = err[k] * err[k]
        for a in range(6):
            for b in range(6):
                c.check(c.eq(cov[i][a][b], want[a] if a == b else 0), 'the initial covariance is the squared error of the parameters that are free, and zero for all others')
        W = rot(c, *[poses[i][n] for n in NAMES[3:]])
        c.check(c.both(*[c.eq(t[i][k], poses[i][NAMES[k]]) for k in range(3)]), 'the alignment starts at the position of the plane')
        c.check(c.both(*[c.eq(R[i][a][b], W[a][b]) for a in range(3) for b in range(3)]), 'the alignment starts at the rotation of the plane')
    c.cover('done')


def gain(c, m, cfg):
    d = m.mod('dut_alignment')
    free = cfg['free']
    u, v = [c.real(n, -1e4, 1e4) for n in 'uv']
    tu, tv = [c.real(n, -1, 1) for n in ('tu', 'tv')]
    a0 = [c.real('a%d' % i, -10, 10) for i in range(6)]
    hit = [c.real(n, -1e4, 1e4) for n in ('mx', 'my')]
    E0 = [[0] * 6 for _ in range(6)]
    for i in free:
        E0[i][i] = c.real('e%d' % i, 0, 100)
    if cfg.get('corr'):
        i, j = free
        E0[i][j] = E0[j][i] = c.real('e', -100, 100)
        c.assume(E0[i][j] * E0[i][j] <= E0[i][i] * E0[j][j])
    s = [c.real('s%d' % i, 0.1, 100) for i in range(2)]
    V = [[s[0], 0], [0, s[1]]]
    C0 = [[(0.5 if i == j else 0.125 * ((i + j) % 2)) for j in range(4)] for i in range(4)]
    H = [[1, 0, 0, 0], [0, 1, 0, 0]]
    R = rot(c, *[c.angle(n) if n in cfg.get('turn', ()) else 0.0 for n in ('al', 'be', 'ga')])
    p0 = [u, v, tu, tv]
    A = [m.to_array(x, 'float64') for x in (H, V, C0, p0, a0, E0, mt(R), hit)]
    a1, E1 = d._calculate_alignment_parameters(*A)
    D = d._jacobian_alignment(A[3], A[6])
    D = [[D[i][j] for j in range(6)] for i in range(2)]
    S = add(add(V, [[C0[i][j] for j in range(2)] for i in range(2)]), mm(D, mm(E0, mt(D))))
    det = S[0][0] * S[1][1] - S[0][1] * S[1][0]
    W = [[S[1][1] / det, -S[0][1] / det], [-S[1][0] / det, S[0][0] / det]]
    K = mm(E0, mm(mt(D), W))
    step = mv(K, [hit[0] - u, hit[1] - v])
    KD = mm(K, mm(D, E0))
    for i in range(6):
        c.check(c.eq(a1[i], a0[i] + step[i]), 'the parameters are moved by the gain times the residual')
        if i not in free:
            c.check(c.exact(a1[i], a0[i]), 'a parameter without error is moved')
        for j in range(6):
            if i in free and j in free:
                c.check(c.eq(E1[i][j], E0[i][j] - KD[i][j]), 'the covariance is reduced by the information of the measurement')
                c.check(c.eq(E1[i][j], E1[j][i]), 'the covariance is not symmetric')
            else:
                c.check(c.exact(E1[i][j], 0), 'a parameter without error gets an error')
    if len(free) == 1 and not cfg.get('turn'):
        i = free[0]
        c.check(c.both(E1[i][i] <= E0[i][i] + (0 if c.symbolic else 1e-9), E1[i][i] >= (0 if c.symbolic else -1e-9)), 'the covariance increases or gets negative')
    c.cover('done')


def derivative(c, m, cfg):
    """the derivatives of the measurement agree with the way in which corrections are applied to a pose"""
    d = m.mod('dut_alignment')
    u, v = [c.real(n, -1e4, 1e4) for n in 'uv']
    tu, tv = [c.real(n, -1, 1) for n in ('tu', 'tv')]
    R = rot(c, *[c.angle(n) if n in cfg.get('turn', ()) else 0.0 for n in ('al', 'be', 'ga')])
    t = [c.real(n, -1e5, 1e5) for n in ('x', 'y', 'z')]
    k = cfg['par']
    D = d._jacobian_alignment(m.to_array([u, v, tu, tv], 'float64'), m.to_array(mt(R), 'float64'))
    s = c.angle('s') if k > 2 else c.real('s', -100, 100)
    out = []
    for sign in (1, -1):
        a = [0.0] * 6
        a[k] = s * sign
        out.append(d._update_alignment(m.to_array(R, 'float64'), m.to_array(t, 'float64'), m.to_array(a, 'float64')))
    # rotations about one axis are linear in the sine and cosine of the angle: half the difference is the derivative
    # times the sine
    f = c.sin(s) if k > 2 else s
    dR = [[(out[0][0][i][j] - out[1][0][i][j]) / 2 for j in range(3)] for i in range(3)]
    dt = [(out[0][1][i] - out[1][1][i]) / 2 for i in range(3)]
    o = mv(R, [u, v, 0])  # crossing with the plane, relative to its centre
    dl = [sum(dR[i][j] * o[i] - R[i][j] * dt[i] for i in range(3)) for j in range(3)]
    for r, w in enumerate((dl[0] - tu * dl[2], dl[1] - tv * dl[2])):
        c.check(c.eq(D[r][k] * f, w), 'the derivative of the measurement is not the one of the crossing of the track with the moved plane')
    c.cover('done')


def combine(c, m, cfg):
    d = m.mod('dut_alignment')
    R = rot(c, *[c.angle(n) if n in cfg['turn'] else 0.0 for n in ('al', 'be', 'ga')])
    t = [c.real(n, -1e6, 1e6) for n in ('x', 'y', 'z')]
    a = [c.real('d%d' % i, -1e4, 1e4) for i in range(3)] + [c.angle(NAMES[i]) if i in cfg['by'] else 0.0 for i in range(3, 6)]
    Q, q = d._update_alignment(m.to_array(R, 'float64'), m.to_array(t, 'float64'), m.to_array(a, 'float64'))
    Q = [[Q[i][j] for j in range(3)] for i in range(3)]
    P = mm(mt(Q), Q)
    for i in range(3):
        c.check(c.eq(q[i], t[i] + a[i]), 'the correction of the position is added to the position')
        for j in range(3):
            c.check(c.eq(P[i][j], 1 if i == j else 0), 'the corrected rotation is no rotation')
    x = [[Q[(i + 1) % 3][(j + 1) % 3] * Q[(i + 2) % 3][(j + 2) % 3] - Q[(i + 1) % 3][(j + 2) % 3] * Q[(i + 2) % 3][(j + 1) % 3] for j in range(3)] for i in range(3)]
    c.check(c.both(*[c.eq(x[i][j], Q[i][j]) for i in range(3) for j in range(3)]), 'the corrected rotation is a reflection')
    if not cfg['by']:
        c.check(c.both(*[c.eq(Q[i][j], R[i][j]) for i in range(3) for j in range(3)]), 'the rotation is changed without a correction')
    c.cover('done')


def cuts(c, m, cfg):
    """updates whose change is above the cut are rejected for that plane alone"""
    np = m.np
    d = m.mod('dut_alignment')
    tel = telescope(m, [dict()] * 3)
    sx, sy = cfg['sigma']
    V, C = cfg['V'], 0.0625
    cut = [c.real('cut%d' % k, 0, 2) if k < 2 else 0.05 for k in range(6)]
    hits = np.full((1, 3, 6), np.nan)
    p0 = np.zeros((3, 4))
    a0 = np.zeros((3, 6))
    E0 = np.zeros((3, 6, 6))
    n0 = [c.int('n%d' % i, 0, 100) for i in range(3)]
    A0, want, keep = [], [], []
    for i in range(3):
        for k in range(2):
            if i != cfg.get('nohit'):
                hits[0, i, k] = c.real('m%d%d' % (i, k), -50, 50)
            p0[i, k] = c.real('p%d%d' % (i, k), -50, 50)
            a0[i, k] = c.real('a%d%d' % (i, k), -50, 50)
        s = [sx * (i + 1), sy if i != 1 else 0.0]
        E0[i, 0, 0], E0[i, 1, 1] = s[0] ** 2, s[1] ** 2
        w, good, A = [], [], []
        for k in range(2):
            e = s[k] ** 2
            step = -e / (V + C + e) * (hits[0, i, k] - p0[i, k]) if i != cfg.get('nohit') else 0.0
            A.append(a0[i, k])
            w.append(a0[i, k] + step)
            # exactly at the cut: either
            tol = 0 if c.symbolic else 1e-9
            good.append((c.either(cut[k] <= 0, c.both(step <= cut[k] * s[k] + tol, step >= -cut[k] * s[k] - tol)),
                         c.both(cut[k] > 0, c.either(step > cut[k] * s[k] - tol, step < -cut[k] * s[k] + tol))))
        A0.append(A)
        want.append((w, s))
        keep.append((c.both(good[0][0], good[1][0]), c.either(good[0][1], good[1][1])))
    E0c = [[E0[i, k, k] for k in range(2)] for i in range(3)]
    H = np.zeros((3, 2, 4))
    H[:, 0, 0] = 1.0
    H[:, 1, 1] = 1.0
    Vm = np.zeros((3, 2, 2))
    Vm[:, 0, 0] = V
    Vm[:, 1, 1] = V
    Cm = np.zeros((3, 4, 4))
    for k in range(4):
        Cm[:, k, k] = C
    values = np.full((3, 1), np.nan, dtype=[(n, 'f8') for n in NAMES] + [(n + '_delta', 'f8') for n in NAMES])
    st, cov, values, n1 = d._update_alignment_parameters(tel, H, Vm, Cm, p0, a0, E0, hits, np.zeros((3, 6)), np.zeros((3, 6, 6)), values, cut, a0.copy(), E0.copy(),
                                                         m.to_array(n0, 'int64'), 0)
    for i in range(3):
        (w, s), (good, bad) = want[i], keep[i]
        if i == cfg.get('nohit'):
            c.check(c.both(*[c.exact(st[i][k], A0[i][k]) for k in range(2)] + [c.exact(cov[i][k][k], E0c[i][k]) for k in range(2)]), 'a plane without a hit is changed')
            continue
        moved = c.both(*[c.eq(st[i][k], w[k]) for k in range(2)] + [c.eq(cov[i][k][k], s[k] ** 2 - s[k] ** 4 / (V + C + s[k] ** 2)) for k in range(2)] + [c.eq(n1[i], n0[i] + 1)])
        still = c.both(*[c.eq(st[i][k], A0[i][k]) for k in range(2)] + [c.eq(cov[i][k][k], E0c[i][k]) for k in range(2)] + [c.eq(n1[i], n0[i])])
        c.check(c.implies(c.neg(bad), moved), 'an update within the cuts is not applied')
        c.check(c.implies(c.neg(good), still), 'an update above the cut changes the alignment')
        c.check(c.either(moved, still), 'the alignment of a plane is changed in part')
        c.check(c.both(*[c.exact(st[i][k], 0) for k in range(2, 6)]), 'a parameter without error is moved')
        if cfg.get('i') == i:
            c.assume(c.both(good, c.neg(bad)) if cfg['case'] else bad)
            c.cover('case')
    c.cover('done')


def near(a, b):
    return (a - b <= 1e-6) & (a - b >= -1e-6)


def loop(c, m, cfg):
    """the loop over the track candidates with any result of the track fit"""
    np = m.np
    d = m.mod('dut_alignment')
    nd, n = 3, len(cfg['flags'])
    tx = [c.real('tx%d' % i, -1e4, 1e4) for i in range(nd)]
    tel = telescope(m, [dict(translation_x=x) for x in tx])
    use_telescope(m, d, tel)
    saved = []
    m.patch(tel.__class__, 'save_configuration', lambda self, *a, **k: saved.append([[getattr(q, f) for f in NAMES] for q in self]))
    m.patch(d.plot_utils, 'plot_kf_alignment', lambda *a, **k: None)
    fields, rows = [('event_number', 'int64')], []
    for i in range(nd):
        fields += [('%s_dut_%d' % (q, i), 'float64') for q in ('x', 'y', 'z', 'x_err', 'y_err', 'z_err')]
    fields += [('hit_flag', 'uint32')]
    hit = [[c.real('h%d_%d' % (t, i), -1e3, 1e3) for i in range(nd)] for t in range(n)]
    for t, f in enumerate(cfg['flags']):
        r = [cfg['ev'][t]]
        for i in range(nd):
            r += [hit[t][i], 10.0 * t + i, 0.0, 1.0 + i, 2.0, 0.0] if f & (1 << i) else [float('nan')] * 6
        rows.append(tuple(r + [f]))
    src, dst = m.path('candidates_tmp.h5'), m.path('alignment.h5')
    m.write_h5(src, {'TrackCandidates': m.to_struct(fields, rows)})
    need = cfg['need']
    use = [t for t in range(n) if all(cfg['flags'][t] & (1 << i) for i in need)]
    chi = [c.real('chi%d' % t, 0, 100) for t in range(n)]
    tru = [[c.real('p%d_%d' % (t, i), -1e3, 1e3) for i in range(nd)] for t in range(n)]
    V, C, sg = 4.0, 1.0, 2.0
    seen, ann = [], []

    def fit(track_hits, telescope, select_fit_duts, beam_energy, particle_mass, scattering_planes, alpha):
        t = use[len(seen)] if len(seen) < len(use) else None
        seen.append(t)
        if t is None:
            c.fail('a track is fitted that does not qualify')
            raise ValueError('no more')
        for i in range(nd):
            if cfg['flags'][t] & (1 << i):
                c.check(c.both(c.exact(track_hits[0, i, 0], hit[t][i]), c.exact(track_hits[0, i, 1], 10.0 * t + i), c.exact(track_hits[0, i, 3], 1.0 + i), c.exact(track_hits[0, i, 4], 2.0)),
                        'the fit gets other hits than those of the track')
            else:
                c.check(c.isnan(track_hits[0, i, 0]), 'the fit gets a hit the track does not have')
        c.check(sorted(select_fit_duts) == sorted(cfg['fit']), 'other planes than the selected ones are fitted')
        ann.append([alpha[i] for i in range(nd)])
        off = np.zeros((1, nd, 2))
        H, R, P = np.zeros((1, nd, 2, 4)), np.zeros((1, nd, 2, 2)), np.zeros((1, nd, 4, 4))
        for i in range(nd):
            off[0, i, 0] = tru[t][i]
            off[0, i, 1] = 10.0 * t + i
            H[0, i, 0, 0] = H[0, i, 1, 1] = 1.0
            R[0, i, 0, 0] = R[0, i, 1, 1] = V
            for k in range(4):
                P[0, i, k, k] = C
        one = m.to_array([chi[t]], 'float64')
        return off, np.zeros((1, nd, 2)), one, one, one, None, None, P, R, H

    m.patch(d, '_fit_tracks_kalman_loop', fit)
    cut = cfg.get('cut', 10.0)
    mx = cfg.get('max', 100)
    if c.symbolic:
        m.patch(m.np, 'finfo', lambda t: Eps)
    d._duts_alignment_kalman(telescope_configuration='telescope.yaml', output_alignment_file=dst, input_track_candidates_file=src, alignment_parameters=[[NAMES[k] for k in q] for q in cfg['par']], select_telescope_duts=[0, 2],
                             select_duts=list(cfg['sel']), select_hit_duts=[list(need) for _ in cfg['sel']], select_fit_duts=[list(cfg['fit']) for _ in cfg['sel']], min_track_hits=None,
                             exclude_dut_hit=False, beam_energy=5000.0, particle_mass=0.511, scattering_planes=None, track_chi2=cut, iteration_index=0, annealing_factor=16.0,
                             annealing_tracks=2, max_tracks=mx, alignment_parameters_errors=[sg, 1.0, 1.0, 1.0, 1.0, 1.0], plot=False)
    # what is to be expected
    free = 1 in cfg['sel']  # translation_x of plane 1 is the only parameter that is not fixed
    a, e, cnt = 0.0, sg * sg if free else 0.0, [0] * nd
    pose, done = [], 0
    for t in use:
        pose.append(a)
        c.check(c.both(*[c.exact(ann[done][i] if done < len(ann) else 0.0, [16.0, 4.0, 1.0][min(cnt[i], 2)]) for i in range(nd)]), 'the annealing does not follow the number of tracks used for the plane')
        done += 1
        if chi[t] > cut:
            continue
        for i in range(nd):
            if not cfg['flags'][t] & (1 << i):
                continue
            if i == 1 and free:
                res = hit[t][i] - tru[t][i]
                step = -e / (V + C + e) * res
                lim = 0.05 * e ** 0.5
                c.assume(c.either(step > lim + 1e-6, step < lim - 1e-6))
                c.assume(c.either(step < -lim - 1e-6, step > -lim + 1e-6))
                if c.either(step > lim, step < -lim):
                    c.cover('cut')
                    continue
                a = a + step
                e = e - e * e / (V + C + e)
            cnt[i] += 1
        if min(cnt) > mx:
            c.cover('max')
            break
    c.check(len(seen) == done, 'not all the tracks that qualify are used')
    c.check(len(saved) > 0, 'the alignment is not saved')
    if saved and pose:
        for i in range(nd):
            c.check(c.both(near(saved[-1][i][0], tx[i] + (pose[-1] if i == 1 else 0.0)), *[c.eq(saved[-1][i][k], 1000.0 * i if k == 2 else 0.0) for k in range(1, 6)]), 'the saved alignment is wrong')
    for i in range(nd):
        got = row_dicts(m.read_h5(dst, 'Alignment_DUT%d' % i))
        c.check(len(got) == done, 'the number of stored steps of the alignment is wrong')
        if len(got) == done:
            c.check(c.both(*[near(g['translation_x'], tx[i] + (p if i == 1 else 0.0)) for g, p in zip(got, pose)]), 'the stored steps of the alignment are wrong')
    got = m.read_h5(dst, 'TrackChi2').tolist()
    c.check(c.both(len(got) == done, *[c.exact(g, chi[t]) for g, t in zip(got, use)]), 'the stored chi2 are not those of the tracks')
    c.check(not m.exists(src), 'the temporary file is left')
    c.cover('done')


def annealing(c, m, cfg):
    d = m.mod('dut_alignment')
    f = c.real('f', 1, 1e6)
    n = cfg['n']
    a = [d._calculate_annealing(k, f, n) for k in range(n + 3)]
    c.observe('a', a)
    c.check(c.eq(a[0], f), 'the annealing starts at the annealing factor')
    for x, y in zip(a, a[1:]):
        c.check(y <= x + (0 if c.symbolic else 1e-9), 'the annealing factor rises')
    c.check(c.both(*[c.exact(x, 1) for x in a[n:]]), 'the annealing does not end at one')
    c.check(c.both(*[x >= 1 - (0 if c.symbolic else 1e-12) for x in a]), 'the annealing factor is below one')
    c.cover('done')


def tasks(tier):
    th = tier == 'thorough'
    out = []

    def w(fn, covers=('done',), **cfg):
        out.append(T(fn, cfg, list(covers)))
    every = list(range(6))
    for tel, sel, par in (([0, 2], [0, 1, 2], [every] * 3), ([0, 2], [1], [None]), ([0, 1, 2], [2, 1], [[0, 1, 5], [2, 3, 4]]), ([0, 2], [1, 0], [[3], every]), ([0, 1], [2, 0], [None, [5, 0]]),
                          ([2, 1, 0], [0, 2], [[0, 1, 2], None]), ([1, 2], [0], [[]])):
        for turn in NAMES[3:] if th else NAMES[3:4] if len(sel) > 1 else NAMES[4:5]:
            w(initial, tel=tel, sel=sel, par=par, turn=turn)
    for i in range(6):
        w(gain, free=[i])
        w(gain, free=[i], turn=['al'] if i % 2 else ['be'])
        for turn in ([['al'], ['be'], ['ga']] + ([['al', 'be'], ['be', 'ga'], ['al', 'ga'], ['al', 'be', 'ga']] if th else [['al', 'be', 'ga']])):
            w(derivative, par=i, turn=turn)
    w(gain, free=[])
    for free in ([0, 1], [0, 5], [1, 3], [2, 4], [4, 5]) if not th else [[i, j] for j in range(6) for i in range(j)]:
        w(gain, free=free)
        if th:
            w(gain, free=free, corr=True)
    w(gain, free=[0, 1], corr=True)
    for by in ([], [3], [4], [5]) + (([3, 4], [4, 5], [3, 5], [3, 4, 5]) if th else ([3, 5],)):
        for turn in (['al', 'be', 'ga'],) if len(by) < 3 else (['al'], ['be'], ['ga']):
            w(combine, by=list(by), turn=list(turn))
    for sigma, V in (((2.0, 1.0), 4.0), ((0.25, 0.5), 16.0)):
        w(cuts, sigma=sigma, V=V)
        for case in (0, 1):
            w(cuts, ('case', 'done'), sigma=sigma, V=V, i=2, case=case, nohit=case)
    X = [0]
    w(loop, ('cut', 'done'), flags=[7, 7, 7], ev=[1, 2, 2], need=[0, 1, 2], fit=[0, 1, 2], sel=[0, 1, 2], par=[X, X, X])
    w(loop, ('cut', 'done'), flags=[7, 5, 7, 3], ev=[1, 2, 3, 4], need=[0, 1], fit=[0, 1], sel=[1], par=[X])
    w(loop, ('done',), flags=[5, 7, 7], ev=[1, 2, 3], need=[0, 2], fit=[0, 2], sel=[0, 2], par=[X, X])
    w(loop, ('max', 'done'), flags=[7, 3, 7, 7], ev=[1, 1, 1, 2], need=[0, 1, 2], fit=[0, 1, 2], sel=[1, 0], par=[X, X], max=1)
    for n in (1, 2):
        w(annealing, n=n)
    return out
