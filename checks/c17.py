"""C17: extrapolation of track states and its derivative"""
from engine.driver import T
from checks.c06 import rot, app

BOUNDS = 'one or two tracks with any state (local position and slopes) and two planes at any position; any rotation of both planes; matrix helpers: all matrices of the sizes 2x3x2, 4x4 and 4x2 (inverse: 1x1 to 3x3, thorough: symmetric 4x4)'
OUTSIDE = 'floating-point rounding (values are reals); more than five rotation angles at a time for the derivative of positions; the inverse of larger and of singular matrices'

ZERO = ('al', 'be', 'ga')


class Dual(object):
    """value with its derivatives"""

    def __init__(self, v, d):
        self.v, self.d = v, d

    def __add__(self, o):
        if not isinstance(o, Dual):
            return Dual(self.v + o, self.d)
        return Dual(self.v + o.v, [a + b for a, b in zip(self.d, o.d)])
    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.v, [-a for a in self.d])

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not isinstance(o, Dual):
            return Dual(self.v * o, [a * o for a in self.d])
        return Dual(self.v * o.v, [a * o.v + self.v * b for a, b in zip(self.d, o.d)])
    __rmul__ = __mul__


def tr(M):
    return [[M[j][i] for j in range(3)] for i in range(3)]


def mulmat(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def poses(c, cfg):
    out = []
    for p in 'pt':
        a = {k: c.angle(p + k) if k in cfg[p] else 0.0 for k in ZERO}
        out.append(([c.real(p + k, -1e6, 1e6) for k in 'xyz'], rot(c, **a)))
    return out


def states(c, n):
    return [[c.real('u%d' % i, -1e5, 1e5), c.real('v%d' % i, -1e5, 1e5), c.real('du%d' % i, -10, 10), c.real('dv%d' % i, -10, 10)] for i in range(n)]


def tile(m, M, n):
    return m.to_array([M for _ in range(n)], 'float64')


def line(s, p, P, t, Q):
    """the track of state s of the plane (p, P) in the local system of the plane (t, Q): point on the first plane and direction"""
    g = app(P, [s[0], s[1], 0.0])
    x = app(tr(Q), [g[k] + (p[k] - t[k]) for k in range(3)])
    d = app(mulmat(tr(Q), P), [s[2], s[3], 1.0])
    return x, d


def visible(c, d):
    c.assume(c.either(d[2] > 0.01, d[2] < -0.01))


def extrapolate(c, m, cfg):
    k = m.mod('tools.kalman')
    n = cfg['n']
    (p, P), (t, Q) = poses(c, cfg)
    S = states(c, n)
    L = [line(s, p, P, t, Q) for s in S]
    for x, d in L:
        visible(c, d)
    r = k._extrapolate_state(m.to_array(S, 'float64'), tile(m, p, n), tile(m, t, n), tile(m, P, n), tile(m, Q, n))
    c.check(r.shape == (n, 4), 'one state per track')
    for i, (x, d) in enumerate(L):
        c.cover('done')
        a = [r[i][j] for j in range(4)]
        c.observe('state%d' % i, a)
        # (a0, a1, 0) = x + l d with l = -x2 / d2
        c.check(c.eq((a[0] - x[0]) * d[2], -x[2] * d[0]), 'the position is the intersection of the track with the target plane')
        c.check(c.eq((a[1] - x[1]) * d[2], -x[2] * d[1]), 'the position is the intersection of the track with the target plane')
        c.check(c.both(c.eq(a[2] * d[2], d[0]), c.eq(a[3] * d[2], d[1])), 'the slopes are the ones of the same straight line')
        if cfg.get('back'):
            b = k._extrapolate_state(m.to_array([a], 'float64'), tile(m, t, 1), tile(m, p, 1), tile(m, Q, 1), tile(m, P, 1))
            for j in range(4):
                c.check(c.eq(b[0][j], S[i][j]), 'extrapolating back returns the state')


def jacobian(c, m, cfg):
    k = m.mod('tools.kalman')
    n = cfg['n']
    (p, P), (t, Q) = poses(c, cfg)
    S = states(c, n)
    V = []
    for s in S:
        z = [0.0] * 4
        V.append(line([Dual(s[i], [1.0 if j == i else 0.0 for j in range(4)]) for i in range(4)], p, P, t, Q))
        visible(c, [Dual(x, z).v if not isinstance(x, Dual) else x.v for x in V[-1][1]])
    # the transport matrix takes rotations from the global into the local system
    J = k._calculate_track_jacobian(m.to_array(S, 'float64'), tile(m, p, n), tile(m, t, n), tile(m, tr(P), n), tile(m, tr(Q), n))
    c.check(J.shape == (n, 4, 4), 'one matrix per track')
    for i, (x, d) in enumerate(V):
        c.cover('done')
        d2 = d[2].v
        # position: (x0 d2 - x2 d0) / d2, slopes: d0 / d2
        num = [x[0] * d[2] - x[2] * d[0], x[1] * d[2] - x[2] * d[1], d[0], d[1]]
        c.observe('J%d' % i, [[J[i][a][b] for b in range(4)] for a in range(4)])
        for a in range(4):
            if cfg.get('rows') and a not in cfg['rows']:
                continue
            for b in range(4):
                c.check(c.eq(J[i][a][b] * (d2 * d2), num[a].d[b] * d2 - num[a].v * d[2].d[b]), 'the transport matrix is the derivative of the extrapolated state')


def mats(c, name, n, a, b):
    return [[[c.real('%s%d_%d%d' % (name, l, i, j), -100, 100) for j in range(b)] for i in range(a)] for l in range(n)]


def helpers(c, m, cfg):
    k = m.mod('tools.kalman')
    n, a, b, d = cfg['n'], cfg['a'], cfg['b'], cfg['d']
    X, Y = mats(c, 'x', n, a, b), mats(c, 'y', n, b, d)
    xs, ys = m.to_array(X, 'float64'), m.to_array(Y, 'float64')
    r = k._mat_mul(xs, ys)
    v = [[Y[l][i][0] for i in range(b)] for l in range(n)]
    rv = k._vec_mul(xs, m.to_array(v, 'float64'))
    t = k._mat_trans(xs)
    u = [[X[l][0][i] for i in range(b)] for l in range(n)]
    s = k._vec_vec_mul(m.to_array(u, 'float64'), m.to_array(v, 'float64'))
    c.check(tuple(r.shape) == (n, a, d) and tuple(rv.shape) == (n, a) and tuple(t.shape) == (n, b, a) and tuple(s.shape) == (n,), 'the results have the right shapes')
    for l in range(n):
        ok = []
        for i in range(a):
            for j in range(d):
                ok.append(c.eq(r[l][i][j], sum(X[l][i][q] * Y[l][q][j] for q in range(b))))
            ok.append(c.eq(rv[l][i], sum(X[l][i][q] * v[l][q] for q in range(b))))
            for j in range(b):
                ok.append(c.eq(t[l][j][i], X[l][i][j]))
        ok.append(c.eq(s[l], sum(u[l][q] * v[l][q] for q in range(b))))
        c.check(c.both(*ok), 'products and transposes are the ones of matrix algebra')
    c.cover('done')


def wrong_shape(c, m, cfg):
    k = m.mod('tools.kalman')
    X, Y = mats(c, 'x', 1, 2, 3), mats(c, 'y', 1, 2, 2)
    try:
        k._mat_mul(m.to_array(X, 'float64'), m.to_array(Y, 'float64'))
        c.fail('matrices whose shapes do not fit are rejected')
    except RuntimeError:
        c.cover('done')


def inverse(c, m, cfg):
    k = m.mod('tools.kalman')
    n, a = cfg['n'], cfg['a']
    X = mats(c, 'x', n, a, a)
    if cfg.get('sym'):
        X = [[[M[min(i, j)][max(i, j)] for j in range(a)] for i in range(a)] for M in X]
    for M in X:
        e = det(M)
        c.assume(c.either(e > 1, e < -1))
    if c.symbolic:
        c.normal_abs = True
    r = k._mat_inverse(m.to_array(X, 'float64'))
    for l in range(n):
        c.check(c.both(*[c.eq(sum(X[l][i][q] * r[l][q][j] for q in range(a)), 1.0 if i == j else 0.0) for i in range(a) for j in range(a)]), 'matrix times inverse is the identity')
    c.cover('done')


def det(M):
    if len(M) == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([[r[k] for k in range(len(M)) if k != j] for r in M[1:]]) for j in range(len(M)))


def tasks(tier):
    ts = []
    one = [dict(p=(a,), t=(b,)) for a in ZERO for b in ZERO]
    full = [dict(p=ZERO, t=()), dict(p=(), t=ZERO), dict(p=ZERO, t=ZERO), dict(p=('al', 'be'), t=('be', 'ga'))]
    for q in one + full:
        ts.append(T(extrapolate, dict(q, n=1), ['done']))
        if q['p'] == ZERO and q['t'] == ZERO:  # positions: two angles less
            ts.append(T(jacobian, dict(q, n=1, rows=(2, 3)), ['done']))
            ts.append(T(jacobian, dict(p=ZERO, t=('al', 'be'), n=1, rows=(0,)), ['done']))
            ts.append(T(jacobian, dict(p=ZERO, t=('al', 'be'), n=1, rows=(1,)), ['done']))
            continue
        ts.append(T(jacobian, dict(q, n=1), ['done']))
    ts.append(T(extrapolate, dict(p=('be',), t=(), n=2), ['done']))
    ts.append(T(extrapolate, dict(p=('be',), t=(), n=1, back=True), ['done']))
    ts.append(T(extrapolate, dict(p=(), t=('al',), n=1, back=True), ['done']))
    ts.append(T(extrapolate, dict(p=('ga',), t=('al',), n=1, back=True), ['done']))
    ts.append(T(jacobian, dict(p=(), t=('al',), n=2), ['done']))
    for n, a, b, d in ((2, 2, 3, 2), (1, 4, 4, 4), (1, 4, 2, 2), (3, 1, 1, 1)):
        ts.append(T(helpers, dict(n=n, a=a, b=b, d=d), ['done']))
    ts.append(T(wrong_shape, {}, ['done']))
    for n, a, s in ((1, 1, False), (1, 2, False), (2, 2, True), (1, 3, True), (1, 3, False)) + (((1, 4, True),) if tier == 'thorough' else ()):
        ts.append(T(inverse, dict(n=n, a=a, sym=s), ['done']))
    return ts
