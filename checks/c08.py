"""C08: Euler angles of rotation matrices"""
import math
from engine.driver import T
from checks.c06 import rot, mul

BOUNDS = 'every rotation matrix (all angles about the three axes), the gimbal-lock matrices, and three rotation matrices made non-orthonormal by any change of one entry'
OUTSIDE = 'floating-point rounding (values are reals), in particular matrices within rounding of gimbal lock'
ASSUMPTIONS = ['the snapping of angles within machine epsilon to zero is decided with a machine epsilon of zero']


class Eps(object):
    eps = 0.0


def euler(c, m, R):
    g = m.mod('tools.geometry_utils')
    if c.symbolic:
        m.patch(m.np, 'finfo', lambda t: Eps)
    return g, g.euler_angles(m.to_array(R, 'float64'))


def judge(c, g, R, ang):
    al, be, ga = ang
    pi = math.pi + 1e-9
    c.check(c.both(al <= pi, al >= -pi, ga <= pi, ga >= -pi), 'first and last angle are in [-pi, pi]')
    c.check(c.both(be <= pi / 2, be >= -pi / 2), 'the second angle is in [-pi/2, pi/2]')
    M = g.rotation_matrix(alpha=al, beta=be, gamma=ga)
    for i in range(3):
        for j in range(3):
            c.check(close(c, M[i][j], R[i][j]), 'the angles give back the rotation matrix')
    c.observe('M', [[M[i][j] for j in range(3)] for i in range(3)])


def close(c, a, b):
    if c.symbolic:
        r = c.eq(a, b)
        if r is True:
            return r
        d = a - b
        return c.both(d < 1e-9, d > -1e-9)
    return abs(a - b) < 1e-6


def general(c, m, cfg):
    a = {k: c.angle(k) if k in cfg['ang'] else cfg.get(k, 0.0) for k in ('al', 'be', 'ga')}
    R = rot(c, a['al'], a['be'], a['ga'])
    for k, v in zip(('al', 'be', 'ga'), cfg.get('sg', ())):
        c.assume(c.sin(a[k]) >= 0 if v > 0 else c.sin(a[k]) < 0)
    if not c.symbolic:
        c.assume(abs(abs(R[2][0]) - 1) > 1e-9)
    c.assume(c.neg(c.either(R[2][0] == 1, R[2][0] == -1)))
    g, ang = euler(c, m, R)
    c.cover('done')
    judge(c, g, R, ang)


def gimbal(c, m, cfg):
    s = cfg['s']
    al, ga = c.angle('al'), c.angle('ga')
    ca, sa, cg, sg = c.cos(al), c.sin(al), c.cos(ga), c.sin(ga)
    R = mul([[cg, -sg, 0], [sg, cg, 0], [0, 0, 1]], mul([[0, 0, s], [0, 1, 0], [-s, 0, 0]], [[1, 0, 0], [0, ca, -sa], [0, sa, ca]]))
    g, ang = euler(c, m, R)
    c.cover('done')
    judge(c, g, R, ang)
    c.check(c.eq(ang[2], 0.0), 'the last angle is zero at gimbal lock')


def invalid(c, m, cfg):
    """one entry of a rotation matrix is wrong"""
    g = m.mod('tools.geometry_utils')
    cs, sn = c.pick('rotation', [(1.0, 0.0), (0.75, 0.6614378277661477), (-0.3846153846153846, 0.9230769230769231)])
    R = [[cs, -sn, 0.0], [sn, cs, 0.0], [0.0, 0.0, 1.0]]
    i, j = cfg['ij']
    d = c.real('d', -2, 2)
    # the column is not of unit length any more
    s = 2 * d * R[i][j] + d * d
    c.assume(c.either(s > 1e-3, s < -1e-3))
    R[i][j] = R[i][j] + d
    if c.symbolic:
        m.patch(m.np, 'finfo', lambda t: Eps)
    try:
        g.euler_angles(m.to_array(R, 'float64'))
        c.fail('a matrix that is no rotation is rejected')
    except ValueError:
        c.cover('rejected')


def tasks(tier):
    ts = []
    for ang in (['al'], ['be'], ['ga'], ['al', 'ga'], ['al', 'be'], ['be', 'ga'], ['al', 'be', 'ga']):
        if len(ang) == 2 and tier == 'quick':
            continue
        if len(ang) == 3:  # split to use all processors
            for b in range(8):
                ts.append(T(general, dict(ang=ang, sg=[1 if b >> k & 1 else -1 for k in range(3)]), ['done']))
            continue
        ts.append(T(general, dict(ang=ang), ['done']))
    for s in (1, -1):
        ts.append(T(gimbal, dict(s=s), ['done']))
    for ij in ((0, 0), (0, 1), (2, 2), (1, 2), (2, 0)):
        ts.append(T(invalid, dict(ij=ij), ['rejected']))
    return ts
