"""C16: steps of the Kalman filter, filter and smoother"""
import itertools
import math
from engine.driver import T
from checks.c06 import rot
from checks.c17 import Dual, line, mats

BOUNDS = ('single steps: two tracks with 2 state and 1 observed components and one track with 4 and 2 components, all states, covariances, measurements and transport matrices; '
          'filters and smoother: three planes (thorough: four) in every order along the beam, all measurements, several patterns of missing hits and planes left out; fixed geometries, reference tracks and errors')
OUTSIDE = ('floating-point rounding in the single steps (values are reals; the filters over several planes are compared within 1e-6); the repair of covariance matrices with negative eigenvalues; '
           'the smoother is decided for parallel planes, one symbolic coordinate at a time (the other one and the slopes of the track seed fixed) in the limit of high momentum, where the linearisation is exact and the scattering vanishes')
ASSUMPTIONS = ['covariance matrices of single steps are positive definite']


def mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def mt(A):
    return [list(r) for r in zip(*A)]


def mv(A, x):
    return [sum(a * b for a, b in zip(r, x)) for r in A]


def add(A, B, s=1):
    return [[a + s * b for a, b in zip(r, q)] for r, q in zip(A, B)]


def sym(c, name, n):
    v = {(i, j): c.real('%s_%d%d' % (name, i, j), -100, 100) for i in range(n) for j in range(i, n)}
    return [[v[min(i, j), max(i, j)] for j in range(n)] for i in range(n)]


def vec(c, name, n):
    return [c.real('%s%d' % (name, i), -1000, 1000) for i in range(n)]


def same(c, A, B):
    return c.both(*[c.eq(A[i][j], B[i][j]) for i in range(len(B)) for j in range(len(B[0]))])


def inv(M):
    """inverse of a small matrix of numbers (Gauss-Jordan)"""
    n = len(M)
    A = [[float(x) for x in r] + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(M)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(A[k][i]))
        A[i], A[p] = A[p], A[i]
        A[i] = [x / A[i][i] for x in A[i]]
        for k in range(n):
            if k != i:
                A[k] = [x - A[k][i] * y for x, y in zip(A[k], A[i])]
    return [r[n:] for r in A]


def predict(c, m, cfg):
    k = m.mod('tools.kalman')
    n, q, N = cfg['n'], cfg['q'], cfg['tracks']
    J, G = mats(c, 'j', N, n, n), mats(c, 'g', N, n, q)
    Q, C = [sym(c, 'q%d' % l, q) for l in range(N)], [sym(c, 'c%d' % l, n) for l in range(N)]
    x = [vec(c, 'x%d_' % l, n) for l in range(N)]
    a = [m.to_array(v, 'float64') for v in (J, G, Q, x, C)]
    st, cov = (k._filter_predict_f if cfg['f'] else k._filter_predict_b)(*a)
    for l in range(N):
        g = mm(J[l], G[l]) if cfg['f'] else G[l]
        want = add(mm(J[l], mm(C[l], mt(J[l]))), mm(g, mm(Q[l], mt(g))))
        c.check(c.both(*[c.eq(st[l][i], v) for i, v in enumerate(mv(J[l], x[l]))]), 'the predicted state is the transported one')
        c.check(same(c, cov[l], want), 'the predicted covariance is the transported one plus the process noise')
        c.check(same(c, cov[l], mt([[cov[l][i][j] for j in range(n)] for i in range(n)])), 'the covariance stays symmetric')
    c.cover('done')


def correct(c, m, cfg):
    k = m.mod('tools.kalman')
    n, o = cfg['n'], cfg['o']
    N = len(cfg['hit'])
    P, V, X, R, Z, H = [], [], [], [], [], []
    for l in range(N):
        if cfg.get('diag'):  # position and slope of each axis are correlated
            p = [[0.0] * n for _ in range(n)]
            for i in range(n):
                p[i][i] = c.real('p%d_%d' % (l, i), 0.01, 100)
            for i in range(o):
                p[i][i + o] = p[i + o][i] = c.real('r%d_%d' % (l, i), -1, 1)
                c.assume(p[i][i + o] * p[i][i + o] < p[i][i] * p[i + o][i + o])
        else:
            p = sym(c, 'p%d' % l, n)
            for i in range(n):
                c.assume(p[i][i] > 0)
        P.append(p)
        if cfg.get('diag'):
            v = [[c.real('v%d_%d' % (l, i), 0.01, 100) if i == j else 0.0 for j in range(o)] for i in range(o)]
        else:
            v = [[c.real('v%d' % l, 0.01, 100)]]
        V.append(v)
        X.append(vec(c, 'x%d_' % l, n))
        R.append(vec(c, 'r%d__' % l, n))
        Z.append(vec(c, 'z%d_' % l, o) if cfg['hit'][l] else [math.nan] * o)
        H.append([[1.0 if i == j else 0.0 for j in range(n)] for i in range(o)])
    K, x, C, chi2 = k._filter_correct(*[m.to_array(v, 'float64') for v in (R, H, V, X, P, Z)])
    c.check(len(chi2) == sum(cfg['hit']), 'one chi2 per measurement')
    q = 0
    for l in range(N):
        if not cfg['hit'][l]:
            c.check(c.both(*[c.eq(x[l][i], X[l][i]) for i in range(n)]), 'without measurement the state is the predicted one')
            c.check(same(c, C[l], P[l]), 'without measurement the covariance is the predicted one')
            c.check(c.both(*[c.eq(K[l][i][j], 0.0) for i in range(n) for j in range(o)]), 'without measurement the gain is zero')
            c.cover('missing')
            continue
        c.cover('measured')
        S = [[P[l][i][j] + V[l][i][j] for j in range(o)] for i in range(o)]
        r = [Z[l][i] - X[l][i] - R[l][i] for i in range(o)]
        c.check(same(c, mm([[K[l][i][j] for j in range(o)] for i in range(n)], S), [P[l][i][:o] for i in range(n)]), 'the gain is the Kalman gain')
        c.check(c.both(*[c.eq(x[l][i], X[l][i] + sum(K[l][i][j] * r[j] for j in range(o))) for i in range(n)]), 'the filtered state is the prediction moved by gain times residual')
        c.check(same(c, C[l], [[P[l][i][j] - sum(K[l][i][a] * P[l][a][j] for a in range(o)) for j in range(n)] for i in range(n)]), 'the filtered covariance is (1 - K H) P')
        c.check(c.both(*[c.eq(C[l][i][j], C[l][j][i]) for i in range(n) for j in range(i)]), 'the covariance stays symmetric')
        if o == 1:
            c.check(c.eq(chi2[q] * S[0][0], r[0] * r[0]), 'chi2 is the squared residual over its variance')
        else:
            det = S[0][0] * S[1][1] - S[0][1] * S[1][0]
            c.check(c.eq(chi2[q] * det, r[0] * r[0] * S[1][1] - r[0] * r[1] * (S[0][1] + S[1][0]) + r[1] * r[1] * S[0][0]), 'chi2 is the squared residual over its variance')
        q += 1


def scatter(c, m, cfg):
    """noise of the slopes: independent of the choice of the two scattering axes"""
    k = m.mod('tools.kalman')
    S = [[c.real('%s%d' % (a, l), -10, 10) for a in ('u', 'v', 'du', 'dv')] for l in range(cfg['n'])]
    G = k._calculate_scatter_gain_matrix(m.to_array(S, 'float64'))
    for l, s in enumerate(S):
        W = noise(s[2], s[3])
        for i in range(4):
            for j in range(i, 4):
                c.check(c.eq(G[l][i][0] * G[l][j][0] + G[l][i][1] * G[l][j][1], W[i][j]), 'scattering angles change the slopes as for the track direction')
    c.cover('done')


def noise(a, b):
    f = 1.0 + a * a + b * b
    W = [[0.0] * 4 for _ in range(4)]
    W[2][2], W[3][3] = f * (1.0 + a * a), f * (1.0 + b * b)
    W[2][3] = W[3][2] = f * (a * b)
    return W


class Plane(object):
    def __init__(self, pos, ang, mb=0.001):
        self.translation_x, self.translation_y, self.translation_z = pos
        self.rotation_alpha, self.rotation_beta, self.rotation_gamma = ang
        self.material_budget = mb


POS = [(0.0, 0.0, 0.0), (100.0, -50.0, 10000.0), (-200.0, 300.0, 25000.0), (10.0, 20.0, 40000.0)]
ANG = [(0.0, 0.0, 0.0), (0.2, -0.1, 0.3), (-0.05, 0.4, 1.2), (0.1, 0.1, -0.3)]
REF = [(10.0, -20.0, 0.01, -0.02), (5.0, 30.0, -0.1, 0.05), (-100.0, 40.0, 0.2, 0.1), (0.0, 7.0, 0.03, 0.0)]
TH2 = [1e-6, 4e-6, 2.5e-7, 1e-6]
VAR = [(25.0, 16.0), (9.0, 100.0), (50.0, 36.0), (4.0, 4.0)]
PRI = [200.0, 150.0, 9e-6, 1e-5]
X0 = [3.0, -2.0, 0.001, 0.002]


class Num(object):
    cos, sin = staticmethod(math.cos), staticmethod(math.sin)


def derivative(s, a, b):
    x, d = line([Dual(s[i], [1.0 if j == i else 0.0 for j in range(4)]) for i in range(4)], [a.translation_x, a.translation_y, a.translation_z], rot(Num, a.rotation_alpha, a.rotation_beta, a.rotation_gamma),
                [b.translation_x, b.translation_y, b.translation_z], rot(Num, b.rotation_alpha, b.rotation_beta, b.rotation_gamma))
    num = [x[0] * d[2] - x[2] * d[0], x[1] * d[2] - x[2] * d[1], d[0], d[1]]
    return [[(num[i].d[j] * d[2].v - num[i].v * d[2].d[j]) / (d[2].v * d[2].v) for j in range(4)] for i in range(4)]


def textbook(planes, order, refs, th2, var, fit, z, x, C, forward):
    """plain Kalman filter; -> predicted, filtered (state and covariance) and chi2 of each plane"""
    res = {}
    last = None
    for d in (order if forward else order[::-1]):
        if last is not None:
            J = derivative(refs[last], planes[last], planes[d])
            W = noise(*refs[last][2:]) if forward else noise(*refs[d][2:])
            W = [[(th2[last] if forward else th2[d]) * v for v in r] for r in W]
            x = mv(J, x)
            C = add(mm(J, mm(C, mt(J))), mm(J, mm(W, mt(J))) if forward else W)
        px, pC = x, C
        chi2 = None
        if z[d] is not None:
            S = [[C[i][j] + (var[d][i] if i == j else 0.0) for j in range(2)] for i in range(2)]
            Si = inv(S)
            r = [z[d][i] - x[i] - refs[d][i] for i in range(2)]
            chi2 = sum(r[i] * Si[i][j] * r[j] for i in range(2) for j in range(2))
            if d in fit:
                K = mm([row[:2] for row in C], Si)
                x = [x[i] + K[i][0] * r[0] + K[i][1] * r[1] for i in range(4)]
                C = [[C[i][j] - K[i][0] * C[0][j] - K[i][1] * C[1][j] for j in range(4)] for i in range(4)]
        res[d] = (px, pC, x, C, chi2)
        last = d
    return res


def near(c, a, b, tol):
    if not c.symbolic:
        return abs(a - b) <= 10 * tol
    d = a - b
    return c.both(d <= tol, d >= -tol)


def close_state(c, a, b):
    return c.both(*[near(c, a[i], b[i], 1e-6) for i in range(4)])


def close_cov(c, A, B):
    return c.both(*[near(c, A[i][j], B[i][j], 1e-9 * (1 + 1e3 * math.sqrt(abs(float(B[i][i]) * float(B[j][j]))))) for i in range(4) for j in range(4)])


def setup(c, m, cfg, N):
    n = cfg['planes']
    one = cfg.get('one')
    Z = []
    for l in range(N):
        t = c.real('t', -1, 1) if one is not None and l == 0 else None
        row = []
        for d in range(n):
            if d in cfg['missing'][l]:
                row.append(None)
            elif one is not None:  # along one direction of all measurements (chi2 is quadratic)
                row.append([10.0 * (d + 1) + 5.0 * t * ((d + one) % 3 - 1) if t is not None else 1.0, -5.0 * d + 3.0 * t * ((d * one) % 3 - 1) if t is not None else 2.0])
            else:
                row.append([c.real('z%d_%d%s' % (l, d, a), -500, 500) if a in cfg.get('axes', 'xy') else 20.0 * (d + 1) for a in 'xy'])
        Z.append(row)
    obs = m.to_array([[[math.nan, math.nan] if r is None else r for r in row] for row in Z], 'float64')
    H = m.to_array([[[[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0]] for _ in range(n)] for _ in range(N)], 'float64')
    V = m.to_array([[[[VAR[d][0], 0.0], [0.0, VAR[d][1]]] for d in range(n)] for _ in range(N)], 'float64')
    C0 = [[PRI[i] if i == j else 0.0 for j in range(4)] for i in range(4)]
    return Z, obs, H, V, C0, m.to_array([C0 for _ in range(N)], 'float64')


def filters(c, m, cfg):
    k = m.mod('tools.kalman')
    n, order = cfg['planes'], cfg['order']
    N = len(cfg['missing'])
    # the plane at place i along the beam has index order[i]
    planes, refs = [None] * n, [None] * n
    for i, d in enumerate(order):
        planes[d] = Plane(POS[i], ANG[i] if cfg['rot'] else (0.0, 0.0, 0.0))
        refs[d] = REF[i]
    Z, obs, H, V, C0, C = setup(c, m, cfg, N)
    Q = m.to_array([[[[TH2[d], 0.0], [0.0, TH2[d]]] for d in range(n)] for _ in range(N)], 'float64')
    r = (k._filter_f if cfg['f'] else k._filter_b)(planes, m.to_array([refs for _ in range(N)], 'float64'), m.to_array(order, 'int64'), list(cfg['fit']), obs, H, Q, V, m.to_array([X0 for _ in range(N)], 'float64'), C)
    ps, pc, gains, fs, fc, chi2, Js = r
    for l in range(N):
        want = textbook(planes, order, refs, TH2, VAR, cfg['fit'], Z[l], list(X0), C0, cfg['f'])
        for d in range(n):
            px, pC, x, Cf, ch = want[d]
            c.check(close_state(c, ps[l][d], px), 'the predicted state is the one of the textbook filter')
            c.check(close_cov(c, pc[l][d], pC), 'the predicted covariance is the one of the textbook filter')
            c.check(close_state(c, fs[l][d], x), 'the filtered state is the one of the textbook filter')
            c.check(close_cov(c, fc[l][d], Cf), 'the filtered covariance is the one of the textbook filter')
            if ch is None:
                c.check(c.isnan(chi2[l][d]), 'no chi2 without measurement')
                c.cover('missing')
            elif cfg.get('one') is not None:
                c.check(near(c, chi2[l][d], ch, 1e-5), 'chi2 is the one of the textbook filter')
    c.cover('done')


def smooth(c, m, cfg):
    k = m.mod('tools.kalman')
    n, order = cfg['planes'], cfg['order']
    N = len(cfg['missing'])
    planes = [None] * n
    for i, d in enumerate(order):
        planes[d] = Plane(POS[i], (0.0, 0.0, 0.0))
    Z, obs, H, V, C0, C = setup(c, m, cfg, N)
    seeds = [[c.real('s%d_%d' % (l, j), -500, 500) if j < 2 and 'xy'[j] in cfg['axes'] else (10.0, 20.0, 0.01, -0.02)[j] for j in range(4)] for l in range(N)]
    r = k.KalmanFilter().smooth(dut_planes=planes, track_seed=m.to_array(seeds, 'float64'), z_sorted_dut_indices=m.to_array(order, 'int64'), momentum=math.inf, beta=1.0, observations=obs,
                                select_fit_duts=list(cfg['fit']), transition_covariances=m.np.zeros((N, n, 2, 2)), observation_matrices=H, observation_covariances=V,
                                initial_state=m.np.zeros((N, 4)), initial_state_covariance=C)
    states, covs, chi2 = r
    zero = [0.0] * n
    for l in range(N):
        def extra(s):
            out = [None] * n
            a = planes[order[0]]
            for d in order:
                b = planes[d]
                dz = b.translation_z - a.translation_z
                out[d] = [s[0] + dz * s[2] + a.translation_x - b.translation_x, s[1] + dz * s[3] + a.translation_y - b.translation_y, s[2], s[3]]
            return out

        # parallel planes: the transport does not depend on the reference track
        def run(refs, forward):
            return textbook(planes, order, refs, zero, VAR, cfg['fit'], Z[l], [0.0] * 4, C0, forward)
        flat = [(0.0, 0.0, 0.0, 0.0)] * n
        refs = extra(seeds[l])
        b = run(refs, False)
        f0 = order[0]
        refs = extra([refs[f0][j] + b[f0][2][j] for j in range(4)])
        f, b = run(refs, True), run(refs, False)
        for i, d in enumerate(order):
            if i == 0:
                x, Cs = b[d][2], b[d][3]
            elif i == n - 1:
                x, Cs = f[d][2], f[d][3]
            else:
                fi, bi = inv(f[d][3]), inv(b[d][3])
                Cs = inv(add(fi, bi))
                x = mv(Cs, [p + q for p, q in zip(mv(fi, f[d][2]), mv(bi, b[d][2]))])
            c.check(close_state(c, states[l][d], [x[j] + refs[d][j] for j in range(4)]), 'the smoothed state is the weighted mean of both filters at the plane')
            c.check(close_cov(c, covs[l][d], Cs), 'the smoothed covariance is the one of the weighted mean at the plane')
            c.check(c.isnan(chi2[l][d]) == (Z[l][d] is None), 'chi2 exactly for planes with measurement')
    c.cover('done')


def tasks(tier):
    big = tier == 'thorough'
    ts = []
    for f in (True, False):
        ts.append(T(predict, dict(f=f, n=2, q=1, tracks=2), ['done']))
        ts.append(T(predict, dict(f=f, n=4, q=2, tracks=1), ['done']))
    ts.append(T(correct, dict(n=2, o=1, hit=(1,)), ['measured']))
    ts.append(T(correct, dict(n=2, o=1, hit=(1, 0)), ['measured', 'missing']))
    ts.append(T(correct, dict(n=4, o=2, hit=(1,), diag=True), ['measured']))
    ts.append(T(correct, dict(n=4, o=2, hit=(0,), diag=True), ['missing']))
    ts.append(T(scatter, dict(n=1), ['done']))
    orders = list(itertools.permutations(range(3)))
    for i, o in enumerate(orders):
        for f in (True, False):
            ts.append(T(filters, dict(planes=3, order=o, f=f, rot=True, fit=(0, 1, 2), missing=((), (i % 3,))), ['done', 'missing']))
            ts.append(T(filters, dict(planes=3, order=o, f=f, rot=True, fit=((0, 1), (1, 2), (0, 2))[i % 3], missing=((), (i % 3,))), ['done', 'missing']))
            ts.append(T(filters, dict(planes=3, order=o, f=f, rot=True, fit=((0, 1, 2), (1, 2), (0, 2))[i % 3], missing=((),), one=i), ['done']))
        for k, a in enumerate('xy'):
            if not big and i % 2 != k:
                continue
            ts.append(T(smooth, dict(planes=3, order=o, fit=(0, 1, 2), missing=((),), axes=a), ['done']))
            ts.append(T(smooth, dict(planes=3, order=o, fit=(0, 1, 2), missing=((i % 3,),), axes=a), ['done']))
            ts.append(T(smooth, dict(planes=3, order=o, fit=((0, 1), (1, 2), (0, 2))[i // 2], missing=((),), axes=a), ['done']))
        ts.append(T(smooth, dict(planes=3, order=o, fit=(0, 1, 2), missing=((), (i % 3,)), axes=''), ['done']))
    if big:
        for i, o in enumerate(itertools.permutations(range(4))):
            for f in (True, False):
                ts.append(T(filters, dict(planes=4, order=o, f=f, rot=True, fit=(0, 1, 2, 3) if i % 2 else (0, 1, 3), missing=((), (i % 4, (i + 1) % 4))), ['done', 'missing']))
            ts.append(T(smooth, dict(planes=4, order=o, fit=(0, 1, 2, 3) if i % 2 else (0, 1, 3), missing=((i % 4,),), axes='xy'[i // 2 % 2]), ['done']))
    return ts
