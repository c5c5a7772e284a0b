"""C09: pixel index <-> local position"""
from engine.driver import T
from checks.util import telescope

BOUNDS = 'rectangular sensors with any pixel size and up to 1000 x 1000 pixels, every predefined rectangular sensor, 1-2 indices or positions per call as arrays, lists or numbers; non-rectangular designs with any sensor position and any two pixels'
OUTSIDE = 'floating-point rounding (values are reals), so positions within rounding of the sensor edge'
SENSORS = ('FEI4', 'RD53A', 'RD53A_8x8', 'ITkPix', 'ITkPix_8x8', 'TJMonopix1', 'TJMonopix1_2x2', 'PSI46', 'Mimosa26', 'DepfetH5z85', 'DepfetH5z55', 'Timepix3')


def sensor(c, m, cfg):
    k = cfg['dut']
    if k == 'any':
        cs, rs = c.real('cs', 1, 1000), c.real('rs', 1, 1000)
        nc, nr = c.int('nc', 1, 1000), c.int('nr', 1, 1000)
        t = telescope(m, [dict(column_size=cs, row_size=rs, n_columns=nc, n_rows=nr, dut_type=cfg.get('cls', 'RectangularPixelDut'))])[0]
        c.check(c.both(c.eq(t.column_size, cs), c.eq(t.row_size, rs), c.eq(t.n_columns, nc), c.eq(t.n_rows, nr)), 'the DUT has the given pixel size and number')
        return t, cs, rs, nc, nr
    t = telescope(m, [dict(dut_type=k)])[0]
    return t, t.column_size, t.row_size, t.n_columns, t.n_rows


def arr(m, kind, v):
    if kind == 'array':
        return m.to_array(v, 'float64')
    return list(v) if kind == 'list' else v[0]


def vals(kind, a):
    return [a] if kind == 'number' else [a[i] for i in range(len(a))]


def index(c, m, cfg):
    t, cs, rs, nc, nr = sensor(c, m, cfg)
    n, kind = cfg['n'], cfg['kind']
    C = [c.real('c%d' % i, -10, 2000) for i in range(n)]
    R = [c.real('r%d' % i, -10, 2000) for i in range(n)]
    ok = [c.both(C[i] >= 0.5, C[i] <= nc + 0.5, R[i] >= 0.5, R[i] <= nr + 0.5) for i in range(n)]
    try:
        X = t.index_to_local_position(arr(m, kind, C), arr(m, kind, R))
    except ValueError:
        c.check(c.neg(c.both(*ok)), 'an index in the range of the sensor is accepted')
        c.cover('rejected')
        return
    c.check(c.both(*ok), 'an index outside the sensor is rejected')
    c.cover('position')
    x, y, z = (vals(kind, v) for v in X)
    c.observe('x', x), c.observe('y', y)
    c.check(len(x) == n and len(y) == n and len(z) == n, 'one position per index')
    for i in range(n):
        c.check(c.both(c.eq(x[i], (C[i] - (nc + 1) / 2) * cs), c.eq(y[i], (R[i] - (nr + 1) / 2) * rs), c.eq(z[i], 0.0)),
                'pixels are one pitch apart and the sensor is centred on the origin')
    if cfg.get('back', True):
        q = t.local_position_to_index(*[arr(m, kind, v) for v in ((x, y) if cfg.get('z') == 'none' else (x, y, z))])
        q = [vals(kind, v) for v in q]
        for i in range(n):
            c.check(c.both(c.eq(q[0][i], C[i]), c.eq(q[1][i], R[i])), 'index to position and back gives the index')


def position(c, m, cfg):
    t, cs, rs, nc, nr = sensor(c, m, cfg)
    n, kind = cfg['n'], cfg['kind']
    X = [c.real('x%d' % i, -1e6, 1e6) for i in range(n)]
    Y = [c.real('y%d' % i, -1e6, 1e6) for i in range(n)]
    args = [arr(m, kind, X), arr(m, kind, Y)]
    zok = c.b(True)
    if cfg['z']:
        Z = [c.pick('z%d' % i, [0.0, 0.1, -3.0]) for i in range(n)]
        zok = all(z == 0.0 for z in Z)
        args.append(arr(m, kind, Z))
    hx, hy = nc * cs / 2, nr * rs / 2
    if not c.symbolic:
        for i in range(n):  # a position within rounding of the edge is outside
            c.assume(min(abs(abs(X[i]) - hx), abs(abs(Y[i]) - hy)) > 1e-7 or (X[i], Y[i]) == (hx, hy))
    ok = [c.both(X[i] >= -hx, X[i] <= hx, Y[i] >= -hy, Y[i] <= hy) for i in range(n)]
    try:
        q = [vals(kind, v) for v in t.local_position_to_index(*args)]
    except ValueError:
        c.check(c.neg(c.both(*ok)), 'a position on the sensor is accepted')
        c.cover('rejected')
        return
    except RuntimeError:
        c.check(not zok, 'only positions outside the sensor plane are rejected')
        c.cover('not in plane')
        return
    c.check(zok, 'positions outside the sensor plane are rejected')
    c.check(c.both(*ok), 'a position outside the sensor is rejected')
    c.cover('index')
    c.observe('q', q)
    for i in range(n):
        c.check(c.both(c.eq(q[0][i], X[i] / cs + (nc + 1) / 2), c.eq(q[1][i], Y[i] / rs + (nr + 1) / 2)), 'the index is that of the position')
    # index to position again: only if rounding cannot leave the range
    if c.symbolic:
        c.assume(c.both(*[c.both(X[i] <= hx - 1e-6, X[i] >= 1e-6 - hx, Y[i] <= hy - 1e-6, Y[i] >= 1e-6 - hy) for i in range(n)]))
        b = [vals(kind, v) for v in t.index_to_local_position(*[arr(m, kind, v) for v in q])]
        for i in range(n):
            c.check(c.both(c.eq(b[0][i], X[i]), c.eq(b[1][i], Y[i])), 'position to index and back gives the position')


def extent(c, m, cfg):
    t, cs, rs, nc, nr = sensor(c, m, cfg)
    for f, h in ((t.x_extent, nc * cs / 2), (t.y_extent, nr * rs / 2), (t.z_extent, 0.0)):
        lo, hi = f()
        c.check(c.both(c.eq(lo, -h), c.eq(hi, h)), 'the extent is that of the pixels')
    c.check(c.both(c.eq(t.pixel_size[0], cs), c.eq(t.pixel_size[1], rs), c.eq(t.n_pixel[0], nc), c.eq(t.n_pixel[1], nr)), 'pixel size and number are column first')
    c.cover('done')


def missing(c, m, cfg):
    """a missing value is no index and no position"""
    t, cs, rs, nc, nr = sensor(c, m, cfg)
    nan = float('nan')
    C = [1.0, 1.0]
    R = [1.0, 1.0]
    (C if cfg['col'] else R)[cfg['k']] = nan
    f = t.index_to_local_position if cfg['index'] else t.local_position_to_index
    if not cfg['index']:
        C, R = ([v - 1.0 for v in x] for x in (C, R))
    try:
        f(m.to_array(C, 'float64'), m.to_array(R, 'float64'))
        c.fail('a missing value is rejected')
    except ValueError:
        c.cover('rejected')


def odd(c, m, cfg):
    """designs with shifted pixels: two pixels never have the same position, no pixel is far from its readout cell"""
    sp = (c.int('sc', 1, 69), c.int('sr', 1, 275))
    c.assume(c.eq(sp[0] % 2, cfg['par']))
    t = telescope(m, [dict(dut_type=cfg['dut'], sensor_position=sp)])[0]
    c1, r1 = c.int('c1', 1, 80), c.int('r1', 1, 336)
    if cfg['pair'] is None:
        cl, rl = [c1], [r1]
    else:
        dc, dr = cfg['pair']
        cl, rl = [c1, c1 + dc], [r1, r1 + dr]
        c.assume(c.both(cl[1] <= 80, cl[1] >= 1, rl[1] <= 336, rl[1] >= 1))
    x, y, z = t.index_to_local_position(m.to_array(cl, 'float64'), m.to_array(rl, 'float64'))
    c.observe('x', x.tolist()), c.observe('y', y.tolist())
    c.cover('done')
    if cfg['pair'] is None:
        bx, by = (c1 - 40.5) * 250.0, (r1 - 168.5) * 50.0
        c.check(c.both(x[0] - bx < 375, bx - x[0] < 375, y[0] - by < 100, by - y[0] < 100), 'a pixel is not further than one and a half columns and two rows from its readout cell')
        c.check(c.eq(z[0], 0.0), 'pixels are in the sensor plane')
    else:
        c.check(c.neg(c.both(c.eq(x[0], x[1]), c.eq(y[0], y[1]))), 'distinct pixels have distinct positions')


def tasks(tier):
    q = tier == 'quick'
    ts = []
    for kind in ('array', 'list', 'number'):
        for n in (1, 2) if kind == 'array' or (kind == 'list' and not q) else (1,):
            for dut, cls in (('any', 'RectangularPixelDut'), ('any', 'RectangularPixelDutWithDoubleColumns')) + ((('FEI4', ''),) if q else ()):
                if dut == 'any' and n == 2 and q and cls != 'RectangularPixelDut':
                    continue
                for z in ('none', 'given') if n == 1 else ('given',):
                    if kind == 'number':
                        continue
                    ts.append(T(index, dict(dut=dut, cls=cls, n=n, kind=kind, z=z), ['rejected', 'position']))
                for z in (False, True):
                    if kind == 'number':
                        continue
                    ts.append(T(position, dict(dut=dut, cls=cls, n=n, kind=kind, z=z), ['rejected', 'index'] + (['not in plane'] if z else [])))
    ts.append(T(index, dict(dut='any', n=1, kind='number', z='none'), ['rejected', 'position']))
    for s in SENSORS:
        ts.append(T(index, dict(dut=s, n=1, kind='array', z='given'), ['rejected', 'position']))
        ts.append(T(position, dict(dut=s, n=1, kind='array', z=False), ['rejected', 'index']))
        ts.append(T(extent, dict(dut=s), ['done']))
    ts.append(T(extent, dict(dut='any'), ['done']))
    for ix in (True, False):
        for col in (True, False):
            for k in (0, 1):
                ts.append(T(missing, dict(dut='FEI4', index=ix, col=col, k=k), ['rejected']))
    for d in ('Diamond3DpCVD', 'DiamondPseudo3DpCVD'):
        for par in (0, 1):
            ts.append(T(odd, dict(dut=d, par=par, pair=None), ['done']))
            for dc in range(0, 3):
                for dr in range(-3, 4):
                    if dc > 0 or dr > 0:
                        if q and (dc == 2 or abs(dr) > 2):
                            continue
                        ts.append(T(odd, dict(dut=d, par=par, pair=[dc, dr]), ['done']))
    return ts
