"""C22: applying the alignment transforms every plane consistently and reversibly"""
from engine.driver import T
from checks.util import telescope, use_telescope, row_dicts
from checks.c06 import rot, app, inv, mul

BOUNDS = 'telescopes of one and two planes (one task: eleven planes), tables of one to three rows in chunks of two and more; every pose of the planes (rotation about all axes of one plane, or about one axis of both) and of the telescope (rotation about all axes, or about one), any position, error, offset and slope, hits present or not'
OUTSIDE = 'floating-point rounding (values are reals); more than six rotation angles at a time; more rows'
ANG = ('al', 'be', 'ga')


def pose(c, tag, angles):
    t = [c.real(tag + k, -1e6, 1e6) for k in 'xyz']
    return t, [c.angle(tag + a) if a in angles else 0.0 for a in ANG]


def attrs(t, a):
    return dict(translation_x=t[0], translation_y=t[1], translation_z=t[2], rotation_alpha=a[0], rotation_beta=a[1], rotation_gamma=a[2])


def vec(c, tag, lim=1e5):
    return [c.real(tag + k, -lim, lim) for k in 'xyz']


def setup(c, m, cfg):
    duts, rots = [], []
    for d, angles in enumerate(cfg['angles']):
        t, a = pose(c, 'd%d' % d, angles) if cfg.get('free', True) or angles else ([10.0 * d, -5.0 * d, 1000.0 * d], [0.0, 0.0, 0.0])
        duts.append(attrs(t, a))
        rots.append((t, rot(c, *a)))
    t, a = pose(c, 'tel', cfg.get('beam', ()))
    tel = telescope(m, duts, **attrs(t, a))
    use_telescope(m, m.mod('dut_alignment'), tel)
    return rots, (t, rot(c, *a))


def near(c, g, w):
    return c.both(*[c.eq(x, y) for x, y in zip(g, w)])


def absolute(c, v):
    return c.ite(v < 0, -v, v)


def columns(nd, name):
    cols = [('event_number', 'int64'), ('hit_flag', 'uint32'), ('track_id', 'int64')]
    for d in range(nd):
        cols += [(f % (k, d), 'float64') for f in ('%s_dut_%d', '%s_err_dut_%d') for k in 'xyz']
        cols += [('charge_dut_%d' % d, 'float32')]
        if 'Tracks' in name:
            cols += [(f % (k, d), 'float64') for f in ('offset_%s_dut_%d', 'slope_%s_dut_%d') for k in 'xyz']
    if 'DUT' in name:
        cols += [(f % k, 'float64') for f in ('offset_%s', 'slope_%s') for k in 'xyz']
    return cols


def apply(c, m, cfg):
    al = m.mod('dut_alignment')
    if c.symbolic:
        c.normal_abs = True
    rots, beam = setup(c, m, cfg)
    nd, name, back = len(rots), cfg['node'], cfg.get('inverse', False)
    use_beam = bool(cfg.get('beam'))
    cols = columns(nd, name)
    local, glob = [], []  # per row: dict column -> value
    for i in range(cfg['n']):
        lo = {'event_number': i // 2, 'hit_flag': c.int('flag%d' % i, 0, 255), 'track_id': c.int('id%d' % i, -1, 100)}
        gl = dict(lo)
        for d in list(range(nd)) + ['']:
            tag = '%d_%s' % (i, d)
            k = d if d != '' else cfg.get('own', 0)
            t, R = rots[k]
            v = []
            if d != '':
                lo['charge_dut_%d' % d] = gl['charge_dut_%d' % d] = c.real('q' + tag, 0, 1000)
                hit = not cfg.get('nohit') or (i + d) % 2 == 0
                p = [c.real('x' + tag, -1e5, 1e5), c.real('y' + tag, -1e5, 1e5), 0.0] if hit else [float('nan')] * 3
                v.append(('%%s_dut_%d' % d, p, True))
                v.append(('%%s_err_dut_%d' % d, [c.real('e' + k + tag, 0, 1e3) for k in 'xyz'] if hit else [float('nan')] * 3, None))
                if 'Tracks' in name:
                    v.append(('offset_%%s_dut_%d' % d, vec(c, 'o' + tag), True))
                    v.append(('slope_%%s_dut_%d' % d, vec(c, 's' + tag, 10), False))
            elif 'DUT' in name:
                v.append(('offset_%s', vec(c, 'po' + tag), True))
                v.append(('slope_%s', vec(c, 'ps' + tag, 10), False))
            for f, p, move in v:
                if p[0] != p[0] or move is None and 'Tracks' not in name:
                    g = q = p
                elif move is None:
                    # errors are turned like a direction, without sign
                    if back:
                        q = p
                        if use_beam:
                            q = [absolute(c, x) for x in inv(beam[1], q)]
                        g, q = p, [absolute(c, x) for x in inv(R, q)]
                    else:
                        q, g = p, [absolute(c, x) for x in app(R, p)]
                        if use_beam:
                            g = [absolute(c, x) for x in app(beam[1], g)]
                else:
                    g = app(R, p, t if move else (0, 0, 0))
                    if use_beam:
                        g = app(beam[1], g, beam[0] if move else (0, 0, 0))
                    q = p
                for k, x, y in zip('xyz', q, g):
                    lo[f % k], gl[f % k] = x, y
        local.append(lo)
        glob.append(gl)
    src, dst = (glob, local) if back else (local, glob)
    f, g = m.path('in.h5'), m.path('out.h5')
    other = m.to_struct([('event_number', 'int64')] + [('%s_dut_%d' % (k, d), 'float64') for d in range(nd) for k in 'xyz'], []) if cfg.get('empty') else None
    nodes = {name: m.to_struct(cols, [tuple(r[n] for n, _ in cols) for r in src])}
    if other is not None:
        nodes['ZEmpty'] = other
    m.write_h5(f, nodes)
    out = al.apply_alignment('telescope.yaml', f, None if cfg.get('default') else g, local_to_global=not back, align_to_beam=use_beam, chunk_size=cfg.get('size', 100))
    if cfg.get('default'):
        c.check(out == f[:-3] + ('_local_coordinates.h5' if back else '_global_coordinates.h5'), 'the default name of the output file')
    else:
        c.check(out == g, 'the name of the output file is returned')
    c.check(sorted(m.nodes(out)) == sorted(nodes), 'all tables are converted')
    tab = m.read_h5(out, name)
    c.check(list(tab.dtype.names) == [n for n, _ in cols], 'the columns of a table change')
    got = row_dicts(tab)
    c.check(len(got) == cfg['n'], 'rows are lost')
    keep, conv = [], []
    for r, w in zip(got, dst):
        for n, _ in cols:
            (conv if n[0] in 'xyz' or n[:2] in ('of', 'sl') else keep).append(c.isnan(r[n]) if w[n] != w[n] else c.eq(r[n], w[n]) if n[0] in 'xyzosc' else c.exact(r[n], w[n]))
    c.check(c.both(*keep), 'a column that is no coordinate changes')
    for x in conv:
        c.check(x, 'a coordinate is not transformed with the pose of its plane')
    if cfg.get('round'):
        h = m.path('back.h5')
        al.apply_alignment('telescope.yaml', out, h, local_to_global=back, align_to_beam=use_beam, chunk_size=cfg.get('size', 100))
        again = row_dicts(m.read_h5(h, name))
        c.check(len(again) == cfg['n'], 'rows are lost')
        same = []
        for r, w in zip(again, src):
            for n, _ in cols:
                if '_err_' not in n:
                    same.append(c.isnan(r[n]) if w[n] != w[n] else c.eq(r[n], w[n]))
        for x in same:
            c.check(x, 'converting back does not restore the table')
        c.cover('round')
    c.observe('x', [r['x_dut_0'] for r in got])
    c.cover('done')


def tasks(tier):
    A = ANG
    t = []
    for back in (False, True):
        D = ['done']
        R = ['done', 'round']
        t += [T(apply, dict(angles=[A], node='MergedClusters', n=1, inverse=back, round=1, default=1), covers=R),
              T(apply, dict(angles=[('be',), ('al',)], node='MergedClusters', n=3, size=3, inverse=back, round=1, nohit=1, empty=1), covers=R),
              T(apply, dict(angles=[('ga',), ()], node='MergedClusters', beam=('al', 'be'), n=2, inverse=back, round=1), covers=R),
              T(apply, dict(angles=[A], node='Tracks_DUT0', n=1, inverse=back, round=1), covers=R),
              T(apply, dict(angles=[('be', 'ga'), ('al',)], node='Tracks_DUT1', own=1, n=1, inverse=back), covers=D),
              T(apply, dict(angles=[('al',), ('be',)], node='TrackCandidates', n=1, inverse=back), covers=D),
              T(apply, dict(angles=[('al', 'be')], node='Tracks_DUT0', beam=('ga',), n=1, inverse=back), covers=D),
              T(apply, dict(angles=[()] + [('ga',)] + [()] * 8 + [('al',)], node='Tracks_DUT10', own=10, n=1, free=False, inverse=back), covers=D)]
        if tier == 'thorough':
            t += [T(apply, dict(angles=[A, A], node='MergedClusters', n=2, inverse=back, round=1), covers=R),
                  T(apply, dict(angles=[A], node='Tracks_DUT0', beam=('al', 'ga') if back else A, n=1, inverse=back), covers=D)]
    return t
