"""C10: primitive cell"""
from engine.driver import T
from checks.util import telescope

BOUNDS = 'every predefined sensor and rectangular sensors with several pixel sizes and any number of pixels; 2 positions per call anywhere on or around the sensor'
OUTSIDE = 'floating-point rounding (values are reals): positions within rounding of a cell edge'
# sensor: primitive cell in pixels
CELLS = dict(FEI4=(2, 1), RD53A=(1, 1), RD53A_8x8=(8, 8), ITkPix=(1, 1), ITkPix_8x8=(8, 8), TJMonopix1=(1, 1), TJMonopix1_2x2=(2, 2), PSI46=(2, 1), Mimosa26=(1, 1),
             DepfetH5z85=(1, 1), DepfetH5z55=(1, 1), Timepix3=(1, 1))


def integer(c, q):
    if c.symbolic:
        if isinstance(q, (int, float)):
            return abs(q - round(q)) < 1e-6
        r = (q + 0.5) % 1  # the sensor edge is a rounded number
        return c.both(r > 0.5 - 1e-6, r < 0.5 + 1e-6)
    return abs(q - round(q)) < 1e-5


def circ(c, a, b, size):
    """equal; a number within rounding of an edge may be at either end of the cell"""
    if c.symbolic:
        return c.eq(a, b)
    d = abs(a - b)
    return min(d, abs(size - d)) < 1e-5 * size


def cell(c, m, cfg):
    if cfg['dut'] in CELLS:
        t = telescope(m, [dict(dut_type=cfg['dut'])])[0]
        px, py = CELLS[cfg['dut']]
    else:
        t = telescope(m, [dict(column_size=cfg['cs'], row_size=cfg['rs'], n_columns=c.int('nc', 1, 1000), n_rows=c.int('nr', 1, 1000), dut_type=cfg['dut'])])[0]
        px, py = (2, 1) if 'Double' in cfg['dut'] else (1, 1)
    cs, rs = t.column_size, t.row_size
    X, Y = [c.real('x0', -1e5, 1e5)], [c.real('y0', -1e5, 1e5)]
    k, l = c.int('k', -500, 500), c.int('l', -500, 500)
    # the second position: same point of another cell
    X.append(X[0] + k * (px * cs))
    Y.append(Y[0] + l * (py * rs))
    args = [m.to_array(X, 'float64'), m.to_array(Y, 'float64')]
    if cfg['z'] == 'zero':
        args.append(m.to_array([0.0, 0.0], 'float64'))
    x, y = t.map_to_primitive_cell(*args)
    c.check(x.shape == (2,) and y.shape == (2,), 'one point per position')
    for a, p, size, off, pix in ((x, X, px * cs, t.x_extent()[0], cs), (y, Y, py * rs, t.y_extent()[0], rs)):
        for i in range(2):
            if c.symbolic:
                c.check(c.both(a[i] >= 0, a[i] < size), 'the point is inside the cell')
            else:
                c.check(-1e-6 < a[i] < size + 1e-6, 'the point is inside the cell')
            c.check(integer(c, (p[i] - a[i] - off) / pix), 'the map is a shift by whole pixels from the sensor edge')
            if cfg['dut'] in CELLS:
                c.check(integer(c, (p[i] - a[i] - off) / size), 'the map is a shift by whole cells from the sensor edge')
        c.check(circ(c, a[0], a[1], size), 'equivalent positions are mapped to the same point')
    c.check(c.both(c.exact(args[0][0], X[0]), c.exact(args[1][0], Y[0])), 'the input is not changed')
    c.cover('done')


def shift(c, m, cfg):
    """within one cell the map is a shift"""
    t = telescope(m, [dict(dut_type=cfg['dut'])])[0]
    d = cfg['axis']
    n = CELLS[cfg['dut']][d]
    pix, num, lo = ((t.column_size, t.n_columns, t.x_extent()[0]), (t.row_size, t.n_rows, t.y_extent()[0]))[d]
    P = [c.real('p%d' % i, -1e5, 1e5) for i in range(2)]
    k = c.int('k', 0, num // n)
    lo = lo + k * (n * pix)
    for p in P:
        c.assume(c.both(p >= lo + 1e-3, p <= lo + n * pix - 1e-3))
    Q = [0.25, 0.25]
    r = t.map_to_primitive_cell(*[m.to_array(v, 'float64') for v in ((P, Q) if d == 0 else (Q, P))])
    c.observe('r', [v.tolist() for v in r])
    c.check(c.eq(r[d][0] - r[d][1], P[0] - P[1]), 'distances within a cell are kept')
    c.cover('done')


def plane(c, m, cfg):
    t = telescope(m, [dict(dut_type=cfg['dut'])])[0]
    z = c.pick('z', [0.5, -2.0])
    try:
        t.map_to_primitive_cell(m.to_array([1.0, 2.0], 'float64'), m.to_array([1.0, 2.0], 'float64'), m.to_array([0.0, z], 'float64'))
        c.fail('positions outside the sensor plane are rejected')
    except RuntimeError:
        c.cover('rejected')


def size(c, m, cfg):
    t = telescope(m, [dict(dut_type=cfg['dut'])])[0]
    px, py = CELLS[cfg['dut']]
    s = t.get_primitive_cell_size()
    c.check(c.both(c.eq(s[0], px * t.column_size), c.eq(s[1], py * t.row_size)), 'the DUT reports the size of its cell')
    c.cover('done')


def tasks(tier):
    ts = []
    for d in CELLS:
        for z in ('none', 'zero'):
            ts.append(T(cell, dict(dut=d, z=z), ['done'], samples=0 if z == 'none' else 2))
        for a in (0, 1):
            ts.append(T(shift, dict(dut=d, axis=a), ['done']))
        ts.append(T(plane, dict(dut=d), ['rejected']))
    for d in ('RectangularPixelDut', 'RectangularPixelDutWithDoubleColumns'):
        for cs, rs in ((50.0, 25.0), (250.0, 50.0), (18.5, 100.0)):
            ts.append(T(cell, dict(dut=d, cs=cs, rs=rs, z='none'), ['done']))
    for d in ('RD53A_8x8', 'ITkPix_8x8'):
        ts.append(T(size, dict(dut=d), ['done']))
    return ts
