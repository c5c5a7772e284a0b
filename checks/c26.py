"""C26: track angles"""
import math
from engine.driver import T

BOUNDS = 'one and two tracks with any slopes (each component up to 1000 times any other), planes and normal along the axes in nine assignments, and plane normals tilted by any angle against the planes'
OUTSIDE = 'floating-point rounding (values are reals); the direction of the signed angles of tracks that point backwards (the code makes their z slope positive)'

# axis and sign of the normal of the yz plane, of the xz plane and of the sensor plane
AXES = [((0, 1), (1, 1), (2, 1)), ((1, 1), (2, 1), (0, 1)), ((2, 1), (0, 1), (1, 1)), ((0, -1), (1, -1), (2, 1)), ((1, 1), (0, -1), (2, 1)), ((0, 1), (1, -1), (2, -1)),
        ((1, 1), (0, 1), (2, 1)), ((2, -1), (1, 1), (0, 1)), ((0, 1), (2, 1), (1, -1))]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def proj(a, n):  # n is a unit vector
    d = dot(a, n)
    return [x - d * y for x, y in zip(a, n)]


def parallel(c, ang, co, si):
    """the angle is the one of the vector (co, si)"""
    cc, ss = c.cos(ang), c.sin(ang)
    return c.both(c.eq(cc * si, ss * co), cc * co + ss * si > 0)


def angles(c, m, cfg):
    ra = m.mod('result_analysis')
    xz, yz, nn = [0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]
    if cfg['frame'] == 'axes':
        (a, sa), (b, sb), (d, sd) = c.pick('axes', AXES)
        yz, xz, nn = [[float(s) if k == j else 0.0 for k in range(3)] for j, s in ((a, sa), (b, sb), (d, sd))]
    elif cfg['frame']:
        t = c.angle('t')
    S = []
    for i in range(cfg['n']):
        s = [c.real('s%d%s' % (i, k), -1000, 1000) for k in 'xyz']
        c.assume(c.either(s[2] >= 1, s[2] <= -1) if cfg.get('back') else s[2] >= 1)
        S.append(s)
    if cfg['frame'] == 'tilt_x':
        nn = [0.0, c.sin(t), c.cos(t)]
    if cfg['frame'] == 'tilt_y':
        nn = [c.sin(t), 0.0, c.cos(t)]
    for s in S:  # the angles are defined
        for p in (xz, yz):
            q = proj(s, p)
            c.assume(dot(q, q) > 1e-3)
    for p in (xz, yz):
        q = proj(nn, p)
        c.assume(dot(q, q) > 1e-3)
    tot, al, be = ra.get_angles(slopes=m.to_array(S, 'float64'), xz_plane_normal=m.to_array(xz, 'float64'), yz_plane_normal=m.to_array(yz, 'float64'), dut_plane_normal=m.to_array(nn, 'float64'))
    c.check(len(tot) == cfg['n'] and len(al) == cfg['n'] and len(be) == cfg['n'], 'three angles for each track')
    for i, s in enumerate(S):
        if s[2] < 0:
            c.cover('back')
            s = [s[0], s[1], -s[2]]
        else:
            c.cover('done')
        d = dot(s, nn)
        ct = c.cos(tot[i])
        c.observe('total%d' % i, ct)
        c.check(c.both(tot[i] >= 0, tot[i] <= math.pi + 1e-9), 'the total angle is between 0 and pi')
        c.check(c.both(c.eq(ct * ct * dot(s, s), d * d), c.iff(ct < 0, d < 0)), 'the total angle is the one between the track and the plane normal')
        for nm, a, p in (('alpha', al[i], yz), ('beta', be[i], xz)):
            u, v = proj(s, p), proj(nn, p)
            c.check(parallel(c, a, dot(u, v), dot(p, cross(u, v))), '%s is the signed angle of the projection of the track to the one of the plane normal' % nm)


def tasks(tier):
    ts = [T(angles, dict(n=2, frame=None), ['done']), T(angles, dict(n=1, frame=None, back=True), ['done', 'back'])]
    for f in ('axes', 'tilt_x', 'tilt_y'):
        ts.append(T(angles, dict(n=1, frame=f), ['done']))
    return ts
