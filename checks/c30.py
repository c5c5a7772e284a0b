"""C30: straight-line fit in space"""
from engine.driver import T

BOUNDS = ('2 to 5 hits with any subset of missing ones, line through any point with the listed directions, hits at the listed places along the line, '
          'arbitrary deviations perpendicular to the line that leave it the best one; first right singular vector with either sign')
OUTSIDE = ('the singular value decomposition itself (numpy): it is replaced by a model that answers only when the given matrix has the direction of the best line as leading right singular vector, '
           'which the model decides with the solver; hits for which the best line is not determined or not known by construction; floating-point rounding')
ASSUMPTIONS = ['numpy.linalg.svd returns, as first right singular vector, the unit eigenvector of A^T A with the largest eigenvalue, with either sign']
NAN = float('nan')
# direction v, perpendicular vectors e and f, common length
FRAMES = [((0, 0, 1), (1, 0, 0), (0, 1, 0), 1), ((2, 3, 6), (3, -6, 2), (6, 2, -3), 7), ((6, 2, -3), (2, 3, 6), (3, -6, 2), 7), ((-8, 0, 6), (6, 0, 8), (0, 10, 0), 10), ((4, 0, -3), (0, 5, 0), (3, 0, 4), 5),
          ((1, 0, 0), (0, 1, 0), (0, 0, 1), 1)]


def svd_model(c, m, v, mag, sign):
    def svd(A, full_matrices=True, compute_uv=True, hermitian=False):
        flip = A.shape[1] != 3 and A.shape[0] == 3
        rows = (A.T if flip else A).tolist()
        w = [sum(a[q] * sum(a[r] * v[r] for r in range(3)) for a in rows) for q in range(3)]
        cr = [w[1] * v[2] - w[2] * v[1], w[2] * v[0] - w[0] * v[2], w[0] * v[1] - w[1] * v[0]]
        lam = sum(w[k] * v[k] for k in range(3))
        tr = sum(a[q] * a[q] for a in rows for q in range(3)) * sum(q * q for q in v)
        c.check(c.both(*[c.eq(q, 0.0) for q in cr]), 'the best line of the decomposed hits is not that of the given ones')
        c.check(2 * lam >= tr, 'the best line of the decomposed hits is not that of the given ones')
        V = m.to_array([sign * c.rat(q, mag) for q in v] + [0.0] * 6, 'float64').reshape((3, 3))
        return (V.T, None, None) if flip else (None, None, V)
    m.hook('numpy.linalg.svd', svd)


def fit(c, m, cfg):
    ta = m.mod('track_analysis')
    v, e, f, mag = FRAMES[cfg['frame']]
    svd_model(c, m, v, mag, cfg['sign'])
    t = cfg['t']
    n = len(t)
    p = [c.real('p%s' % q, -1e4, 1e4) for q in 'xyz']
    mt = sum(t) / n
    # deviations in both perpendicular directions without component along the line (sum of s, sum of s t vanish)
    dev = []
    for q in 'se':
        if n < 3 or q not in cfg.get('dev', 'se'):
            dev.append([0.0] * n)
            continue
        s = [c.real('%s%d' % (q, i), -10, 10) for i in range(n - 2)]
        # last two follow from the conditions
        a, b = t[n - 2], t[n - 1]
        s0, s1 = sum(s), sum(x * y for x, y in zip(s, t))
        y = (-s1 + s0 * a) / (b - a)
        s += [-s0 - y, y]
        dev.append(s)
    spread = sum((x - mt) ** 2 for x in t)
    c.assume(sum(x * x for s in dev for x in s) <= 0.5 * spread)
    pts = [[p[k] + c.rat(1, mag) * (v[k] * t[i] + e[k] * dev[0][i] + f[k] * dev[1][i]) for k in range(3)] for i in range(n)]
    rows = []
    for g in cfg['rows']:
        rows.append([NAN] * 3 if g is None else [NAN, pts[g][1], NAN] if g == -1 else pts[g])
    A = m.to_array(sum(rows, []), 'float64').reshape((len(rows), 3))
    if cfg.get('loop'):
        H = m.np.full((1, len(rows), 3), m.np.nan)
        H[0] = A
        o, d = ta._fit_tracks_loop(H)
        c.check(o.shape == (1, 3) and d.shape == (1, 3), 'one line per track')
        o, d = o[0], d[0]
    else:
        o, d = ta.line_fit_3d(A)
    o, d = o.tolist(), d.tolist()
    c.observe('line', [o, d])
    mean = [p[k] + c.rat(v[k], mag) * mt for k in range(3)]
    dif = [o[k] - mean[k] for k in range(3)]
    cr = [dif[1] * v[2] - dif[2] * v[1], dif[2] * v[0] - dif[0] * v[2], dif[0] * v[1] - dif[1] * v[0]]
    c.check(c.both(*[c.eq(q, 0.0) for q in cr]), 'the line passes through the centre of the hits')
    sg = -1 if v[2] < 0 else 1
    if v[2] == 0:
        c.check(c.either(*[c.both(*[c.eq(d[k], s * c.rat(v[k], mag)) for k in range(3)]) for s in (1, -1)]), 'the direction is that of the best line')
    else:
        for k in range(3):
            c.check(c.eq(d[k], sg * c.rat(v[k], mag)), 'the direction is that of the best line, of unit length and along the beam')
    c.cover('done')


def tasks(tier):
    out = []

    def w(**cfg):
        out.append(T(fit, cfg, ['done']))
    T3, T4, T5 = [0, 1000, 2000], [0, 500, 2000, 2500], [0, 1000, 2000, 3000, 5000]
    for fr in range(len(FRAMES)):
        for sign in (1, -1):
            w(frame=fr, sign=sign, t=[0, 1000], rows=[0, 1])
            w(frame=fr, sign=sign, t=T3, rows=[0, None, 1, 2] if sign > 0 else [2, 0, 1])
            if tier == 'thorough' or fr in (0, 1):
                w(frame=fr, sign=sign, t=T4, rows=[0, 1, 2, 3, None], dev='s' if fr > 1 else 'se')
                w(frame=fr, sign=sign, t=T5, rows=[0, 1, None, 2, 3, 4], dev='s')
    w(frame=1, sign=1, t=T3, rows=[0, -1, 1, 2])
    w(frame=1, sign=-1, t=T3, rows=[None, 0, 1, 2], loop=True)
    w(frame=3, sign=1, t=[0, 1000], rows=[None, 0, 1], loop=True)
    return out
