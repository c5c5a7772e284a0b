"""C06: coordinate transformations are rigid; local and global are inverse"""
from engine.driver import T
from checks.util import telescope

BOUNDS = 'every angle and every translation; 1-2 positions per call, given as array, list or number, z left out or given; every subset of the pose overridden in the call'
OUTSIDE = 'floating-point rounding (values are reals); more positions per call'
NAMES = ('translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma')


def pose(c, t=''):
    return [c.real('tx' + t, -1e5, 1e5), c.real('ty' + t, -1e5, 1e5), c.real('tz' + t, -1e6, 1e6), c.angle('al' + t), c.angle('be' + t), c.angle('ga' + t)]


def rot(c, al, be, ga):
    """Rz(ga) Ry(be) Rx(al)"""
    ca, sa, cb, sb, cg, sg = c.cos(al), c.sin(al), c.cos(be), c.sin(be), c.cos(ga), c.sin(ga)
    rx = [[1, 0, 0], [0, ca, -sa], [0, sa, ca]]
    ry = [[cb, 0, sb], [0, 1, 0], [-sb, 0, cb]]
    rz = [[cg, -sg, 0], [sg, cg, 0], [0, 0, 1]]
    return mul(rz, mul(ry, rx))


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def app(R, v, t=(0, 0, 0)):
    return [sum(R[i][k] * v[k] for k in range(3)) + t[i] for i in range(3)]


def inv(R, v, t=(0, 0, 0)):
    d = [v[k] - t[k] for k in range(3)]
    return [sum(R[k][i] * d[k] for k in range(3)) for i in range(3)]


def pts(c, n, z=True):
    return [[c.real('x%d' % i, -1e4, 1e4), c.real('y%d' % i, -1e4, 1e4), c.real('z%d' % i, -1e4, 1e4) if z else 0.0] for i in range(n)]


def same(c, got, want, msg):
    """got: x, y, z arrays; want: list of points"""
    c.check(len(got) == 3 and all(g.shape == (len(want),) for g in got), 'result has one value per coordinate and position')
    for i, w in enumerate(want):
        for k in range(3):
            c.check(c.eq(got[k][i], w[k]), msg)


def matrices(c, m, cfg):
    g = m.mod('tools.geometry_utils')
    al, be, ga = c.angle('al'), c.angle('be'), c.angle('ga')
    R = g.rotation_matrix(alpha=al, beta=be, gamma=ga)
    c.observe('R', R.tolist())
    W = rot(c, al, be, ga)
    for i in range(3):
        for j in range(3):
            c.check(c.eq(R[i][j], W[i][j]), 'the matrix is the rotation about x, then y, then z')
            c.check(c.eq(sum(R[i][k] * R[j][k] for k in range(3)), 1.0 if i == j else 0.0), 'the matrix is orthonormal')
    det = R[0][0] * (R[1][1] * R[2][2] - R[1][2] * R[2][1]) - R[0][1] * (R[1][0] * R[2][2] - R[1][2] * R[2][0]) + R[0][2] * (R[1][0] * R[2][1] - R[1][1] * R[2][0])
    c.check(c.eq(det, 1.0), 'the determinant is one')
    for f, a, w in ((g.rotation_matrix_x, (al, 0.0, 0.0), None), (g.rotation_matrix_y, (0.0, be, 0.0), None), (g.rotation_matrix_z, (0.0, 0.0, ga), None)):
        M, w = f(a[[0, 1, 2][(g.rotation_matrix_x, g.rotation_matrix_y, g.rotation_matrix_z).index(f)]]), rot(c, *a)
        for i in range(3):
            for j in range(3):
                c.check(c.eq(M[i][j], w[i][j]), 'the rotation about one axis is that of the right-handed system')
    c.cover('done')


def transform(c, m, cfg):
    g = m.mod('tools.geometry_utils')
    n = cfg['n']
    p = pose(c)
    P = pts(c, n)
    X = [m.to_array([v[k] for v in P], 'float64') for k in range(3)]
    R = rot(c, *p[3:])
    kw = dict(zip(('x', 'y', 'z', 'alpha', 'beta', 'gamma'), p))
    L2G = g.local_to_global_transformation_matrix(**kw)
    G2L = g.global_to_local_transformation_matrix(**kw)
    G = g.apply_transformation_matrix(X[0], X[1], X[2], L2G)
    c.observe('G', [v.tolist() for v in G])
    same(c, G, [app(R, v, p[:3]) for v in P], 'local to global rotates about the origin and then moves to the position of the DUT')
    B = g.apply_transformation_matrix(x=G[0], y=G[1], z=G[2], transformation_matrix=G2L)
    same(c, B, P, 'local to global and back gives the position')
    L = g.apply_transformation_matrix(x=X[0], y=X[1], z=X[2], transformation_matrix=G2L)
    c.observe('L', [v.tolist() for v in L])
    same(c, L, [inv(R, v, p[:3]) for v in P], 'global to local is the inverse')
    A = g.apply_rotation_matrix(X[0], X[1], X[2], g.rotation_matrix(p[3], p[4], p[5]))
    same(c, A, [app(R, v) for v in P], 'a rotation is applied to all positions')
    for Y in (G, L, A):
        if n > 1:
            d0 = sum((P[0][k] - P[1][k]) * (P[0][k] - P[1][k]) for k in range(3))
            d1 = sum((Y[k][0] - Y[k][1]) * (Y[k][0] - Y[k][1]) for k in range(3))
            c.check(c.eq(d0, d1), 'distances are kept')
    for k in range(3):
        for i in range(n):
            c.check(c.eq(X[k][i], P[i][k]), 'the input is not changed')
    c.cover('done')


def dut(c, m, cfg):
    """DUT methods; over: names of the pose given in the call"""
    n, over, kind = cfg['n'], cfg['over'], cfg['kind']
    own = pose(c, 'd')
    t = telescope(m, [dict(zip(NAMES, own), dut_type=cfg.get('dut', 'RectangularPixelDut'))])[0]
    other = dict(zip(NAMES, pose(c)))
    kw = {k: other[k] for k in over}
    p = [kw.get(k, o) for k, o in zip(NAMES, own)]
    R = rot(c, *p[3:])
    z = cfg['z']
    P = pts(c, n, z=z == 'any')
    if kind == 'array':
        X = [m.to_array([v[k] for v in P], 'float64') for k in range(3)]
    else:
        X = [[v[k] for v in P] for k in range(3)]
    try:
        G = t.local_to_global_position(X[0], X[1], **kw) if z == 'none' else t.local_to_global_position(X[0], X[1], X[2], **kw)
    except RuntimeError:
        c.check(c.both(not over, c.either(*[v[2] != 0 for v in P])), 'only positions outside the sensor plane are rejected')
        c.cover('rejected')
        return
    c.observe('G', [v.tolist() for v in G])
    if not over:
        for v in P:
            c.check(c.both(v[2] < 1e-6, v[2] > -1e-6), 'positions outside the sensor plane are rejected')
    same(c, G, [app(R, v, p[:3]) for v in P], 'local to global rotates about the origin and then moves to the position of the DUT')
    if kind == 'list':
        G = [v.tolist() for v in G]
    B = t.global_to_local_position(G[0], G[1], G[2], **kw)
    same(c, B, P, 'local to global and back gives the position')
    c.cover('done')


def to_local(c, m, cfg):
    own = pose(c, 'd')
    t = telescope(m, [dict(zip(NAMES, own))])[0]
    P = pts(c, cfg['n'])
    R = rot(c, *own[3:])
    W = [inv(R, v, own[:3]) for v in P]
    try:
        L = t.global_to_local_position(*[m.to_array([v[k] for v in P], 'float64') for k in range(3)])
    except RuntimeError:
        c.check(c.either(*[w[2] != 0 for w in W]), 'only positions outside the sensor plane are rejected')
        c.cover('rejected')
        return
    for w in W:
        c.check(c.both(w[2] < 1e-6, w[2] > -1e-6), 'positions outside the sensor plane are rejected')
    same(c, L, W, 'global to local is the inverse')


def index(c, m, cfg):
    own = pose(c, 'd')
    t = telescope(m, [dict(zip(NAMES, own))])[0]
    R = rot(c, *own[3:])
    col, row = c.real('col', 0.5, 4.5), c.real('row', 0.5, 3.5)
    kw = {}
    if cfg['over']:
        kw = dict(zip(NAMES, pose(c)))
        own = [kw[k] for k in NAMES]
        R = rot(c, *own[3:])
    G = t.index_to_global_position(m.to_array([col], 'float64'), m.to_array([row], 'float64'), **kw)
    c.observe('G', [v.tolist() for v in G])
    same(c, G, [app(R, [(col - 2.5) * 50.0, (row - 2.0) * 20.0, 0], own[:3])], 'the global position of an index is that of its local position')
    c.cover('done')


def extent(c, m, cfg):
    """the extent in the global system, rotation about one axis"""
    own = [c.real('tx', -1e5, 1e5), c.real('ty', -1e5, 1e5), c.real('tz', -1e6, 1e6), 0.0, 0.0, 0.0]
    own[3 + cfg['axis']] = c.angle('a')
    t = telescope(m, [dict(zip(NAMES, own))])[0]
    R = rot(c, *own[3:])
    k = cfg['k']
    lo, hi = (t.x_extent, t.y_extent, t.z_extent)[k](global_position=True)
    W = [app(R, [x, y, 0], own[:3])[k] for x in (-100.0, 100.0) for y in (-30.0, 30.0)]
    for w in W:
        c.check(c.both(c.le(lo, w), c.le(w, hi)), 'the global extent contains the corners of the sensor')
    c.check(c.both(c.either(*[c.eq(lo, w) for w in W]), c.either(*[c.eq(hi, w) for w in W])), 'the global extent is not larger than the sensor')
    c.cover('done')


def index_back(c, m, cfg):
    own = pose(c, 'd')
    t = telescope(m, [dict(zip(NAMES, own))])[0]
    R = rot(c, *own[3:])
    x, y = c.real('x', -99, 99), c.real('y', -29, 29)
    g = app(R, [x, y, 0], own[:3])
    col, row = t.global_position_to_index(*[m.to_array([v], 'float64') for v in g])
    c.check(c.both(c.eq(col[0], x / 50.0 + 2.5), c.eq(row[0], y / 20.0 + 2.0)), 'a global position gives the index of its local position')
    c.cover('done')


def missing(c, m, cfg):
    """a missing position (nan) stays missing and has no influence on the others"""
    own = pose(c, 'd')
    t = telescope(m, [dict(zip(NAMES, own))])[0]
    R = rot(c, *own[3:])
    P = pts(c, 2, z=False)
    k = cfg['k']
    nan = float('nan')
    Q = [[nan, nan, nan] if i == k else P[i] for i in range(2)]
    X = [m.to_array([v[j] for v in Q], 'float64') for j in range(3)]
    G = t.local_to_global_position(*X)
    L = t.global_to_local_position(*G)
    for j in range(3):
        c.check(c.both(c.isnan(G[j][k]), c.isnan(L[j][k])), 'a missing position stays missing')
        c.check(c.eq(G[j][1 - k], app(R, P[1 - k], own[:3])[j]), 'a missing position does not change the others')
        c.check(c.eq(L[j][1 - k], P[1 - k][j]), 'a missing position does not change the others')
    c.cover('done')


def tasks(tier):
    q = tier == 'quick'
    ts = [T(matrices, {}, ['done'])]
    for n in (1, 2) if q else (1, 2, 3):
        ts.append(T(transform, dict(n=n), ['done']))
    subs = [[], list(NAMES)] + [[k] for k in NAMES] + [[k for k in NAMES if k != o] for o in NAMES] + [list(NAMES[:3]), list(NAMES[3:])]
    if not q:
        subs = [[k for i, k in enumerate(NAMES) if b >> i & 1] for b in range(64)]
    for over in subs:
        for kind in ('array', 'list') if not over or not q else ('array',):
            for z in ('none', 'zero', 'any') if not over or not q else ('any',):
                ts.append(T(dut, dict(n=1, over=over, kind=kind, z=z), ['done'] + (['rejected'] if z == 'any' and not over else [])))
    ts.append(T(dut, dict(n=2, over=[], kind='array', z='zero'), ['done']))
    ts.append(T(dut, dict(n=1, over=[], kind='array', z='any', dut='FEI4'), ['done', 'rejected']))
    ts.append(T(to_local, dict(n=1), ['rejected']))
    for over in (False, True):
        ts.append(T(index, dict(over=over), ['done']))
    for a in range(3):
        for k in range(3):
            ts.append(T(extent, dict(axis=a, k=k), ['done']))
    ts.append(T(index_back, {}, ['done']))
    for k in (0, 1):
        ts.append(T(missing, dict(k=k), ['done']))
    return ts
