"""C34: alignment of planes from residuals, and of the telescope to the beam"""
from engine.driver import T
from checks.c06 import rot, mul, app
from checks.c08 import Eps
from checks.c26 import parallel
from checks.util import telescope, use_telescope

BOUNDS = ('beam alignment: 2 or 3 planes with any positions, one tilted by any angle about one axis, any fitted line, every choice of the reference plane; plane alignment: one to three tracks per step with '
          'any hits, track positions and directions (unit vectors rotated by any angle about an axis), planes rotated by any angle about one axis, any solution of the linear equations, one or two steps, one or two planes, '
          'one or two chunks, several selections of the parameters and of the tracks; a step without correction')
OUTSIDE = ('the singular value decomposition (numpy): it is replaced by a stand-in that returns any right singular vectors for the linear equations and any rotation for the rotation matrix to be normalised; the size of the '
           'steps and the convergence of the iterations; floating-point rounding')
ASSUMPTIONS = ['the snapping of angles within machine epsilon to zero is decided with a machine epsilon of zero']
NAMES = ['translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma']
NAN = float('nan')


def poses_of(tel):
    return [[getattr(q, f) for f in NAMES] for q in tel]


def near(c, a, b, t=1e-6):
    if c.symbolic:
        r = c.eq(a, b)
        if r is True:
            return r
    d = a - b
    return c.both(d <= t, d >= -t)


def beam(c, m, cfg):
    """align_telescope"""
    d = m.mod('dut_alignment')
    n = cfg['n']
    pos = [[c.real('%s%d' % (q, i), -1e4, 1e4) for q in 'xy'] + [1000.0 * cfg.get('z', range(n))[i]] for i in range(n)]
    ang = [[0.0] * 3 for _ in range(n)]
    for i, q in cfg.get('turn', []):
        ang[i][q] = c.angle('a%d' % i)
        if q < 2:
            c.assume(c.cos(ang[i][q]) >= 0.5)
    A, B = 0.125, -0.25
    tel = telescope(m, [dict(zip(NAMES, pos[i] + ang[i])) for i in range(n)], rotation_alpha=A, rotation_beta=B, rotation_gamma=0.5, translation_x=7.0)
    use_telescope(m, d, tel)
    saved = []
    m.patch(tel.__class__, 'save_configuration', lambda self, *a, **k: saved.append(poses_of(self) + [[self.rotation_alpha, self.rotation_beta, self.rotation_gamma, self.translation_x]]))
    o = [c.real('o%s' % q, -1e4, 1e4) for q in 'xy'] + [0.0]
    s = [c.real('s%s' % q, -0.25, 0.25) for q in 'xy'] + [1.0]
    asked = []

    def line(positions):
        asked.append(positions.tolist())
        return m.to_array(o, 'float64'), m.to_array(s, 'float64')
    m.patch(d, 'line_fit_3d', line)
    sel = cfg['sel']
    d.align_telescope('telescope.yaml', select_telescope_duts=list(sel), **({'reference_dut': cfg['ref']} if 'ref' in cfg else {}))
    ref = cfg.get('ref', min(sel, key=lambda i: pos[i][2]))
    c.check(len(asked) == 1 and len(asked[0]) == len(sel) and all(c.b(c.both(*[c.exact(x, y) for x, y in zip(p, pos[i])])) is not False for p, i in zip(asked[0], sel)), 'the beam line is not fitted to the positions of the telescope planes')
    if len(asked) == 1 and len(asked[0]) == len(sel):
        for p, i in zip(asked[0], sel):
            c.check(c.both(*[c.exact(x, y) for x, y in zip(p, pos[i])]), 'the beam line is not fitted to the positions of the telescope planes')
    c.check(len(saved) == 1, 'the configuration is not saved once')
    if len(saved) != 1:
        return
    new = saved[0]

    def cross(i):
        R = rot(c, *ang[i])
        nrm = [R[k][2] for k in range(3)]
        t = sum(nrm[k] * (pos[i][k] - o[k]) for k in range(3))
        u = sum(nrm[k] * s[k] for k in range(3))
        # times u, to avoid the division
        return [o[k] * u + t * s[k] for k in range(3)], u
    pr, ur = cross(ref)
    for i in range(n):
        p, u = cross(i)
        for k in range(2):
            # distance of the centre from the beam line is unchanged up to the common offset which puts the reference plane to zero
            lhs = new[i][k] * u * ur
            rhs = pos[i][k] * u * ur - p[k] * ur + pr[k] * u - pos[ref][k] * u * ur
            c.check(c.eq(lhs, rhs), 'the planes are not shifted by the distance of the beam line at the plane to that at the reference plane')
        for k in range(2, 6):
            c.check(c.exact(new[i][k], (pos[i] + ang[i])[k]), 'the beam alignment changes more than the x and y positions')
    for k in range(2):
        c.check(near(c, new[ref][k], 0.0), 'the reference plane is not at zero')
    ra, rb, rg, tx = new[n]
    c.check(c.both(c.exact(rg, 0.5), c.exact(tx, 7.0)), 'the beam alignment changes other parameters of the telescope')
    c.check(c.both(parallel(c, A - ra, s[2], s[1]), parallel(c, B - rb, s[2], -s[0])), 'the direction of the beam is not changed by the angles of the beam line')
    c.cover('done')


def unit(c, name, q):
    """unit vector turned by any angle about an axis, and its sine and cosine"""
    a = c.angle(name)
    c.assume(c.cos(a) >= 0.5)
    return [[c.sin(a), 0.0, c.cos(a)], [0.0, c.sin(a), c.cos(a)], [0.0, 0.0, 1.0]][q]


def planes(c, m, cfg):
    """calculate_transformation"""
    d = m.mod('dut_alignment')
    np = m.np
    nd = cfg.get('nd', 2)
    P, A, kw = [], [], []
    for i in range(nd):
        P.append([c.real('%s%d' % (q, i), -1e4, 1e4) for q in 'xyz'])
        a = [0.0, 0.0, 0.0]
        if cfg.get('turn', {}).get(str(i)) is not None:
            q = cfg['turn'][str(i)]
            a[q] = c.angle('a%d' % i)
            if q == 1:
                c.assume(c.cos(a[q]) >= 0.5)
        A.append(a)
        k = dict(zip(NAMES, P[i] + a))
        if cfg.get('limit') is not None:
            k.update(x_limit=(-50.0, 40.0), y_limit=(-30.0, 20.0))
        kw.append(k)
    tel = telescope(m, kw)
    use_telescope(m, d, tel)
    saved = []
    m.patch(tel.__class__, 'save_configuration', lambda self, *a, **k: saved.append(poses_of(self)))
    nodes, want = {}, {}
    for i in cfg['sel']:
        rows = []
        want[i] = []
        for t, kind in enumerate(cfg['rows']):
            hit = [c.real('h%s%d_%d' % (q, i, t), -100, 100) for q in 'xy']
            o = [c.real('t%s%d_%d' % (q, i, t), -100, 100) for q in 'xy'] + [0.0]
            s = unit(c, 'd%d_%d' % (i, t), cfg.get('dir', [2, 2, 2, 2])[t])
            ins = c.both(hit[0] >= -50, hit[0] <= 40, hit[1] >= -30, hit[1] <= 20)
            chi = 1.5
            if kind == 'in':
                c.assume(ins)
            elif kind in ('left', 'right', 'low', 'high'):
                c.assume({'left': hit[0] < -50, 'right': hit[0] > 40, 'low': hit[1] < -30, 'high': hit[1] > 20}[kind])
            elif kind == 'nofit':
                chi = NAN
            if kind == 'nohit':
                hit = [NAN, NAN]
            rows.append((t, hit[0], hit[1], NAN if kind == 'nohit' else 0.0, o[0], o[1], o[2], s[0], s[1], s[2], chi))
            if kind in ('ok', 'in') or (kind in ('left', 'right', 'low', 'high') and not cfg['limit']):
                want[i].append((hit, o, s))
        f = [('event_number', 'int64')] + [('%s_dut_%d' % (q, i), 'float64') for q in 'xyz'] + [(q, 'float64') for q in ('offset_x', 'offset_y', 'offset_z', 'slope_x', 'slope_y', 'slope_z', 'track_chi2')]
        nodes['Tracks_DUT%d' % i] = m.to_struct(f, rows)
    src = m.path('tracks.h5')
    m.write_h5(src, nodes)
    its = cfg.get('its', 1)
    par = cfg['par']
    # expected course of the calls
    st = dict(i=0, it=0, at=0, phase='lin', done=[])
    state = {}

    def start(i):
        state.update(R=rot(c, *A[i]), t=list(P[i]), used=0, chunks=[], dut=i)
    start(cfg['sel'][0])
    eye = np.eye

    def svd(M, full_matrices=True, compute_uv=True, hermitian=False):
        i = cfg['sel'][st['i']] if st['i'] < len(cfg['sel']) else None
        if i is None:
            c.fail('more steps than expected')
            raise ValueError
        if M.shape[1] == 6:
            n = M.shape[0] // 3
            rows = M.tolist()
            c.check(st['phase'] == 'lin' and M.shape[0] % 3 == 0 and state['used'] + n <= len(want[i]), 'other tracks than the selected ones are used')
            if state['used'] + n > len(want[i]):
                raise ValueError
            tr = want[i][state['used']:state['used'] + n]
            R0, R = rot(c, *A[i]), state['R']
            b = []
            for t, (h, o, s) in enumerate(tr):
                s, o = app(R0, s), app(R0, o, P[i])
                y = app(R, [h[0], h[1], 0.0])
                L = [[(1.0 if j == k else 0.0) - s[j] * s[k] for k in range(3)] for j in range(3)]
                S = [[0.0, -y[2], y[1]], [y[2], 0.0, -y[0]], [-y[1], y[0], 0.0]]
                LS = mul(L, S)
                r = [o[k] - y[k] - state['t'][k] for k in range(3)]
                b += [sum(L[j][k] * r[k] for k in range(3)) for j in range(3)]
                for j in range(3):
                    for k in range(6):
                        c.check(near(c, rows[3 * t + j][k], LS[j][k] if k < 3 else -L[j][k - 3]), 'the linear equations are not the derivatives of the distances of the hits to the tracks')
            k = min(6, 3 * n)
            name = '%d_%d_%d' % (i, state['used'], st['it'])
            zero = cfg.get('still') or st['it'] + 1 < its
            V = [[0.0 if zero else c.real('V%s_%d%d' % (name, q, j), -1, 1) for j in range(6)] if q == cfg.get('row', 0) else [0.0] * 6 for q in range(k)]
            U = [[1.0 if r == q else 0.25 if r == q + 6 else 0.0 for q in range(k)] for r in range(3 * n)]
            sv = [2.0] + [0.5] * (k - 1)
            x = [sum(U[r][q] * -b[r] for r in range(3 * n)) / sv[q] for q in range(k)]
            om = [sum(V[q][j] * x[q] for q in range(k)) for j in range(6)]
            names = NAMES[3:] + NAMES[:3]
            p = NAMES if par[st['i']] is None else [NAMES[q] for q in par[st['i']]]
            state['om'] = [om[j] if names[j] in p else 0.0 for j in range(6)]
            state['n'] = n
            st['phase'] = 'rot'
            return m.to_array(sum(U, []), 'float64').reshape((3 * n, k)), m.to_array(sv, 'float64'), m.to_array(sum(V, []), 'float64').reshape((k, 6))
        X = M.tolist()
        if st['phase'] == 'rot':
            om, R = state['om'], state['R']
            # (1 + k [om]x) R with 0 < k <= 1
            D = [[sum(X[a][q] * R[b][q] for q in range(3)) - (1.0 if a == b else 0.0) for b in range(3)] for a in range(3)]
            v = [D[2][1], D[0][2], D[1][0]]
            for a in range(3):
                c.check(near(c, D[a][a], 0.0), 'the rotation is not changed by an infinitesimal rotation')
                for b in range(a):
                    c.check(near(c, D[a][b], -D[b][a]), 'the rotation is not changed by an infinitesimal rotation')
            state['d'] = v
            steps(c, v, om[:3])
            if not cfg.get('still'):
                q = cfg.get('norm', 2)
                g = [0.0, 0.0, 0.0]
                g[q] = c.angle('q%d_%d_%d' % (i, state['used'], st['it']))
                Q = rot(c, *g)
            else:
                Q = X
            state['R'] = Q
            st['it'] += 1
            last = st['it'] >= its if not cfg.get('still') else st['it'] >= 3
            if last:
                st['it'] = 0
                state['chunks'].append((state['n'], Q, om))
                state['used'] += state['n']
                state['R'] = rot(c, *A[i])
            st['phase'] = 'avg' if last and state['used'] == len(want[i]) else 'lin'
            return m.to_array(sum(Q, []), 'float64').reshape((3, 3)), m.to_array([1.0] * 3, 'float64'), eye(3)
        c.check(st['phase'] == 'avg', 'the rotation is normalised before all tracks are used')
        N = float(sum(k for k, _, _ in state['chunks']))
        for a in range(3):
            for b in range(3):
                c.check(near(c, X[a][b] * N, sum(k * Q[a][b] for k, Q, _ in state['chunks'])), 'the rotation is not the average over the tracks')
        g = [0.0, 0.0, 0.0]
        if cfg.get('still'):
            g = A[i]
        else:
            g[cfg.get('norm', 2)] = c.angle('g%d' % i)
            if cfg.get('norm', 2) == 1:
                c.assume(c.cos(g[1]) >= 0.5)
        Q = rot(c, *g)
        st['done'].append((i, state['chunks'], Q))
        st['i'] += 1
        st['phase'] = 'lin'
        if st['i'] < len(cfg['sel']):
            start(cfg['sel'][st['i']])
        return m.to_array(sum(Q, []), 'float64').reshape((3, 3)), m.to_array([1.0] * 3, 'float64'), eye(3)
    if c.symbolic:
        m.hook('numpy.linalg.svd', svd)
    else:
        m.patch(m.np.linalg, 'svd', svd)
    if c.symbolic:
        m.patch(m.np, 'finfo', lambda t: Eps)
    d.calculate_transformation('telescope.yaml', input_tracks_file=src, select_duts=list(cfg['sel']), select_alignment_parameters=None if cfg.get('all') else [None if p is None else [NAMES[q] for q in p] for p in par],
                               use_limits=bool(cfg.get('limit')), max_iterations=None if cfg.get('still') else its, chunk_size=cfg.get('chunk', 100))
    c.check([q[0] for q in st['done']] == list(cfg['sel']), 'not every plane is aligned once')
    c.check(len(saved) >= 1, 'the configuration is not saved')
    if len(saved) < 1 or [q[0] for q in st['done']] != list(cfg['sel']):
        return
    new = saved[-1]
    for i in range(nd):
        done = [q for q in st['done'] if q[0] == i]
        if not done:
            c.check(c.both(*[c.exact(x, y) for x, y in zip(new[i], P[i] + A[i])]), 'a plane that is not selected is moved')
            continue
        _, chunks, Q = done[0]
        N = float(sum(k for k, _, _ in chunks))
        steps(c, [(new[i][k] - P[i][k]) for k in range(3)], [sum(n * om[3 + k] for n, _, om in chunks) / N for k in range(3)])
        W = rot(c, *new[i][3:])
        for a in range(3):
            for b in range(3):
                c.check(near(c, W[a][b], Q[a][b]), 'the angles are not those of the averaged rotation')
    c.cover('done')


def steps(c, v, om):
    """v is a multiple of om, of the same direction and not larger"""
    for a in range(3):
        b = (a + 1) % 3
        c.check(near(c, v[a] * om[b], v[b] * om[a]), 'the correction is not along the solution of the linear equations')
        c.check(c.both(c.implies(om[a] > 1e-3, c.both(v[a] > 0, v[a] <= om[a] + 1e-6)), c.implies(om[a] < -1e-3, c.both(v[a] < 0, v[a] >= om[a] - 1e-6)), c.implies(c.exact(om[a], 0.0), near(c, v[a], 0.0, 1e-9))),
                'the correction is not along the solution of the linear equations')


def tasks(tier):
    th = tier == 'thorough'
    out = []
    B = lambda **k: out.append(T(beam, k, ['done']))
    B(n=2, sel=[0, 1])
    B(n=3, sel=[0, 2])
    B(n=3, sel=[0, 1, 2], ref=1)
    B(n=3, sel=[2, 0, 1], z=[2, 1, 3], turn=[(0, 2)])
    for q in range(3):
        B(n=2, sel=[0, 1], turn=[(1, q)])
        B(n=2, sel=[0, 1], ref=1, turn=[(1, q)])
    W = lambda **k: out.append(T(planes, k, ['done']))
    every = list(range(6))
    W(sel=[1], rows=['ok'], par=[None], all=True)
    for q in range(6):
        W(sel=[1], rows=['ok'], par=[[q]], dir=[q % 3] * 3)
        W(sel=[0], rows=['ok'], par=[[k for k in every if k != q]], row=q % 3)
    W(sel=[1, 0], rows=['ok'], par=[[0, 5], None])
    for q in range(3):
        W(sel=[0], rows=['ok'], par=[None], turn={'0': q}, dir=[2 if q == 1 else 0], norm=q)
        W(sel=[0], rows=['ok'], par=[None], turn={'0': q}, dir=[2 if q == 0 else 1], row=1, norm=(q + 1) % 3)
        W(sel=[1], rows=['ok'], par=[None], turn={'1': q}, dir=[2], its=2, row=q)
        W(sel=[1], rows=['ok'], par=[None], turn={'1': q}, still=1)
    W(sel=[1], rows=['ok', 'ok'], par=[None], chunk=1)
    W(sel=[1], rows=['ok', 'ok', 'ok'], par=[None], chunk=2)
    W(sel=[1], rows=['ok', 'nohit', 'ok', 'nofit'], par=[None])
    W(sel=[1], rows=['in', 'left', 'in'], par=[None], limit=1)
    W(sel=[1], rows=['high', 'right', 'in', 'low'], par=[None], limit=1)
    W(sel=[1], rows=['high', 'right'], par=[None], limit=0)
    if th:
        for q in range(3):
            for r in range(3):
                W(sel=[0], rows=['ok', 'ok'], par=[None], turn={'0': q}, dir=[r, (r + 1) % 3], norm=q)
                W(sel=[1, 0], rows=['ok', 'ok'], par=[None, [r, 3 + q]], turn={'0': q, '1': r}, dir=[r, q], chunk=1)
                W(sel=[1], rows=['ok', 'ok'], par=[None], turn={'1': q}, dir=[r, q], its=2, row=q)
    return out
