"""C07: intersections of lines with planes and DUTs"""
from fractions import Fraction as F
from engine.driver import T
from checks.c06 import rot

BOUNDS = 'up to 3 lines per call with any origin and direction, any plane position and normal, any DUT position and rotation angles'
OUTSIDE = 'floating-point rounding (values are reals): lines almost parallel to the plane; more lines per call'


def lines(c, n):
    P = [[c.real('px%d' % i, -1e4, 1e4), c.real('py%d' % i, -1e4, 1e4), c.real('pz%d' % i, -1e6, 1e6)] for i in range(n)]
    D = [[c.real('dx%d' % i, -1, 1), c.real('dy%d' % i, -1, 1), c.real('dz%d' % i, -1, 1)] for i in range(n)]
    return P, D


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def exact_zero(a, b):
    """the scalar product is zero in every order of evaluation"""
    f = [F(x) * F(y) for x, y in zip(a, b)]
    return sum(f) == 0 and all(F(x * y) == v for x, y, v in zip(a, b, f))


def judge(c, X, P, D, pos, nrm):
    n = len(P)
    c.check(X.shape == (n, 3), 'one point per line')
    for i in range(n):
        dn = dot(D[i], nrm)
        x = [X[i][k] for k in range(3)]
        if any(isinstance(v, float) and v != v for v in x):
            c.cover('parallel')
            c.check(c.both(*[c.isnan(v) for v in x]), 'a line parallel to the plane has no intersection (nan)')
            c.check(c.eq(dn, 0.0), 'a line that is not parallel to the plane has an intersection')
            continue
        c.cover('crossing')
        num = dot(pos, nrm) - dot(P[i], nrm)
        off = dot([x[k] - pos[k] for k in range(3)], nrm)
        if not c.symbolic:
            c.check(dn != 0, 'a line parallel to the plane has no intersection (nan)')
            t = num / dn if dn else 0
            c.check(c.both(*[c.eq(x[k], P[i][k] + t * D[i][k]) for k in range(3)]), 'the intersection is the point of the line on the plane')
            c.check(abs(off) < 1e-3 * (1 + abs(t)), 'the intersection is on the plane')
            continue
        c.check(c.neg(dn == 0), 'a line parallel to the plane has no intersection (nan)')
        for k in range(3):
            c.check(c.eq((x[k] - P[i][k]) * dn, num * D[i][k]), 'the intersection is the point of the line on the plane')
        c.check(c.eq(off, 0.0), 'the intersection is on the plane')


def plane(c, m, cfg):
    g = m.mod('tools.geometry_utils')
    n = cfg['n']
    P, D = lines(c, n)
    for k in cfg.get('par', ()):
        D[k] = list(D[k])
    pos = [c.real('qx', -1e4, 1e4), c.real('qy', -1e4, 1e4), c.real('qz', -1e6, 1e6)]
    nrm = [c.real('nx', -1, 1), c.real('ny', -1, 1), c.real('nz', -1, 1)]
    c.assume(c.either(*[v != 0 for v in nrm]))
    if not c.symbolic:  # numbers that are parallel to rounding are outside
        for i in range(n):
            d = dot(D[i], nrm)
            c.assume(exact_zero(D[i], nrm) or abs(d) > 1e-5 * dot(D[i], D[i]) ** 0.5 * dot(nrm, nrm) ** 0.5)
    for i in range(n):
        c.assume(c.either(*[v != 0 for v in D[i]]))
    A = [m.to_array(x, 'float64') for x in (P, D, pos, nrm)]
    X = g.get_line_intersections_with_plane(A[0], A[1], A[2], A[3])
    c.observe('X', X.tolist())
    judge(c, X, P, D, pos, nrm)
    for i in range(n):
        for k in range(3):
            c.check(c.both(c.exact(A[0][i][k], P[i][k]), c.exact(A[1][i][k], D[i][k])), 'the lines are not changed')


def dut(c, m, cfg):
    g = m.mod('tools.geometry_utils')
    n = cfg['n']
    P, D = lines(c, n)
    pos = [c.real('qx', -1e4, 1e4), c.real('qy', -1e4, 1e4), c.real('qz', -1e6, 1e6)]
    ang = [c.angle(k) if k in cfg['ang'] else 0.0 for k in ('al', 'be', 'ga')]
    for i in range(n):
        c.assume(c.either(*[v != 0 for v in D[i]]))
    R = rot(c, *ang)
    nrm = [R[k][2] for k in range(3)]
    if not c.symbolic:
        for i in range(n):
            d = dot(D[i], nrm)
            c.assume(abs(d) > 1e-5 * dot(D[i], D[i]) ** 0.5)
    X = g.get_line_intersections_with_dut(m.to_array(P, 'float64'), m.to_array(D, 'float64'), *(pos + ang))
    c.observe('X', X.tolist())
    judge(c, X, P, D, pos, nrm)


def normal(c, m, cfg):
    g = m.mod('tools.geometry_utils')
    a = [c.real('a%d' % k, -1, 1) for k in range(3)]
    b = [c.real('b%d' % k, -1, 1) for k in range(3)]
    w = g.get_plane_normal(m.to_array(a, 'float64'), m.to_array(b, 'float64'))
    w = [w[k] for k in range(3)]
    c.check(c.both(c.eq(dot(a, w), 0.0), c.eq(dot(b, w), 0.0)), 'the normal is perpendicular to both directions')
    c.check(c.eq(dot(w, w), dot(a, a) * dot(b, b) - dot(a, b) * dot(a, b)), 'the normal is not zero unless the directions are parallel')
    c.cover('done')


def tasks(tier):
    q = tier == 'quick'
    ts = [T(normal, {}, ['done'])]
    for n in (1, 2) if q else (1, 2, 3):
        ts.append(T(plane, dict(n=n), ['parallel', 'crossing']))
    for ang in ([], ['al'], ['be'], ['ga'], ['al', 'be'], ['al', 'be', 'ga']):
        ts.append(T(dut, dict(n=1, ang=ang), ['crossing']))
    ts.append(T(dut, dict(n=2, ang=['al', 'be', 'ga']), ['crossing']))
    return ts
