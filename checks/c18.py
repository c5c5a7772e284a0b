"""C18: a telescope configuration survives saving and loading"""
from engine.driver import T

BOUNDS = 'telescopes of one to three planes, every DUT class of telescope/dut.py, plane indices 0 to 7 in any order of insertion; every value of every numeric attribute (reals), limits and resolution given or not, in either order; names from a fixed list with texts that YAML could take for something else'
OUTSIDE = 'the text that YAML writes (PyYAML, run for real in the replay of samples only: symbolic values pass through a stand-in which keeps structure and values and refuses what PyYAML refuses); floating-point rounding; names other than the listed ones'
ASSUMPTIONS = ['yaml.safe_dump followed by yaml.safe_load returns the dumped plain values, with tuples turned into lists, and refuses objects other than plain Python values']

POSE = ['translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma']
SIZES = {
    'FEI4': (250.0, 50.0, 80, 336), 'RD53A': (50.0, 50.0, 400, 192), 'RD53A_8x8': (50.0, 50.0, 400, 192), 'ITkPix': (50.0, 50.0, 400, 384),
    'ITkPix_8x8': (50.0, 50.0, 400, 384), 'TJMonopix1': (40.0, 36.0, 112, 224), 'TJMonopix1_2x2': (40.0, 36.0, 112, 224), 'PSI46': (150.0, 100.0, 52, 80),
    'Mimosa26': (18.4, 18.4, 1152, 576), 'DepfetH5z85': (50.0, 85.0, 64, 64), 'DepfetH5z55': (50.0, 55.0, 64, 64), 'Timepix3': (55.0, 55.0, 256, 256),
    'ScatteringPlane': None, 'Diamond3DpCVD': (250.0, 50.0, 80, 336), 'DiamondPseudo3DpCVD': (250.0, 50.0, 80, 336),
    'RectangularPixelDut': 'given', 'RectangularPixelDutWithDoubleColumns': 'given'}
NAMES = ['DUT', 'Telescope plane 1: x', '12', 'null', 'yes', '1e5', ' # no comment', '- item', "it's", '0x10', 'a: b']


def make(c, cfg, tag, typ, lim, name):
    """attributes given to the constructor and what they must read back as"""
    given = {k: c.real(tag + k, -1e7, 1e7) for k in POSE}
    want = dict(given)
    given['name'] = name
    want['name'] = str(name)
    for k in ('x_limit', 'y_limit'):
        if lim.get(k) == 'unset':
            want[k] = None
        elif lim.get(k) == 'none':
            given[k] = want[k] = None
        else:
            a, b = c.real(tag + k + '0', -1e6, 1e6), c.real(tag + k + '1', -1e6, 1e6)
            if lim.get(k) == 'sorted':
                c.assume(a < b)
            given[k] = [a, b] if lim.get(k) == 'list' else (a, b)
            want[k] = (c.ite(c.le(a, b), a, b), c.ite(c.le(a, b), b, a))
    if lim.get('material') == 'unset':
        want['material_budget'] = 0.0
    elif lim.get('material') == 'none':
        given['material_budget'], want['material_budget'] = None, 0.0
    else:
        given['material_budget'] = want['material_budget'] = c.real(tag + 'mat', 0, 1)
    if lim.get('res') == 'none':
        given['intrinsic_resolution'] = want['intrinsic_resolution'] = None
    elif lim.get('res') == 'unset':
        want['intrinsic_resolution'] = (3.5, 3.5) if typ == 'Mimosa26' else None
    else:
        given['intrinsic_resolution'] = want['intrinsic_resolution'] = (c.real(tag + 'rx', 0, 1e3), c.real(tag + 'ry', 0, 1e3))
    sz = SIZES[typ]
    if sz == 'given':
        sz = (c.real(tag + 'cs', 0.1, 1e4), c.real(tag + 'rs', 0.1, 1e4), c.int(tag + 'nc', 1, 100000), c.int(tag + 'nr', 1, 100000))
        given.update(zip(('column_size', 'row_size', 'n_columns', 'n_rows'), sz))
    if sz is not None:
        want.update(zip(('column_size', 'row_size', 'n_columns', 'n_rows'), sz))
    if typ.startswith('Diamond'):
        given['sensor_position'] = want['sensor_position'] = (c.int(tag + 'sx', 0, 80), c.int(tag + 'sy', 0, 336))
    return given, want


def same_dut(c, d, typ, want):
    if d.__class__.__name__ != typ:
        return [False]
    out = []
    for k, v in want.items():
        g = getattr(d, k)
        if v is None or isinstance(v, str):
            out.append(g is None if v is None else g == v and type(g) is str)
        elif isinstance(v, tuple):
            out.append(isinstance(g, tuple) and len(g) == len(v))
            if out[-1]:
                out += [c.exact(a, b) for a, b in zip(g, v)]
        elif g is None:
            out.append(False)
        else:
            out.append(c.exact(g, v))
    return out


def same_tel(c, tel, pose, want):
    """want: {id: (type, attributes)}"""
    ids = sorted(want)
    out = [len(tel) == len(want), sorted(tel.dut.keys()) == ids, tel.dut_names == [want[i][1]['name'] for i in ids]]
    if all(out):
        got = list(tel)
        for i, d in zip(ids, got):
            out.append(tel[i] is d)
            out += same_dut(c, d, *want[i])
    for k, v in pose.items():
        out.append(c.exact(getattr(tel, k), v))
    return c.both(*out)


def types(c, m, cfg):
    """every class keeps its attributes"""
    tm = m.mod('telescope.telescope')
    f = m.path('tel.yaml')
    typ = c.pick('type', cfg['types'])
    lim = c.pick('lim', cfg['lims'])
    name = c.pick('name', NAMES) if cfg.get('names') else 'DUT'
    pose = {k: c.real('t' + k, -1e7, 1e7) for k in POSE}
    if cfg.get('props'):
        tel = tm.Telescope()
        for k in POSE:
            setattr(tel, k, pose[k])
    else:
        tel = tm.Telescope(**pose)
    g, w = make(c, cfg, 'd', typ, lim, name)
    tel.add_dut(dut_type=typ, dut_id=0, **g)
    c.check(same_tel(c, tel, pose, {0: (typ, w)}), 'a plane does not have the attributes that it was created with')
    tel.save_configuration(f)
    t2 = tm.Telescope(f)
    c.check(same_tel(c, t2, pose, {0: (typ, w)}), 'saving and loading changes a plane')
    t2.save_configuration()
    t3 = tm.Telescope(configuration_file=f)
    c.check(same_tel(c, t3, pose, {0: (typ, w)}), 'saving and loading a second time changes a plane')
    d = getattr(m.mod('telescope.dut'), typ).from_dut(tel[0])
    c.check(c.both(*same_dut(c, d, typ, w)), 'the copy of a plane differs')
    c.observe('tx', t3[0].translation_x)
    c.cover('done')


def several(c, m, cfg):
    """several planes, other keys of the file, changes and a second save"""
    tm = m.mod('telescope.telescope')
    f = m.path('tel.yaml')
    ids = [c.pick('id%d' % i, [7, 0, 10][:cfg['n'] + 1]) for i in range(cfg['n'])]
    c.assume(len(set(ids)) == len(ids))
    pose = {k: c.real('t' + k, -1e7, 1e7) for k in POSE}
    tel = tm.Telescope(**pose)
    want = {}
    ts = cfg['types']
    for i, k in enumerate(ids):
        g, w = make(c, cfg, 'd%d' % i, ts[i], dict(x_limit='sorted', y_limit='unset' if i else 'sorted'), 'plane')
        if i == 1:
            del g['name']
            w['name'] = 'DUT%d' % k
        cls = getattr(m.mod('telescope.dut'), ts[i])
        tel.add_dut(dut_type=cls if i == 0 else ts[i], dut_id=k, **g)
        want[k] = (ts[i], w)
    c.check(same_tel(c, tel, pose, want), 'the telescope does not have the planes that were added')
    keep = c.pick('keep', [False, True])
    old = c.pick('old', ['none', 'other', 'telescope'])
    if old == 'other':
        m.write_text(f, 'OTHER:\n  value: 3\nSECOND: text\n')
    elif old == 'telescope':
        m.write_text(f, 'TELESCOPE:\n  comment: text\n  translation_x: 5.0\n  DUT:\n    1:\n      name: old\n      dut_type: Nonsense\nOTHER:\n  value: 3\nSECOND: text\n')
    tel.save_configuration(f, keep_others=keep)
    t2 = tm.Telescope(f)
    c.check(same_tel(c, t2, pose, want), 'saving and loading changes the telescope')
    raw = m.mod('telescope.telescope').open_configuation(f)
    if keep and old != 'none':
        c.check(raw.get('OTHER') == {'value': 3} and raw.get('SECOND') == 'text', 'the other entries of the file are lost')
        c.cover('kept')
    else:
        c.check(sorted(raw) == ['TELESCOPE'], 'a new file contains entries that nobody gave')
    # change a plane and the telescope, drop a plane, add one
    dx = c.real('dx', -1e6, 1e6)
    t2[ids[0]].translation_x = dx
    t2[ids[0]].rotation_gamma = dx
    t2.rotation_beta = dx
    want[ids[0]][1]['translation_x'] = dx
    want[ids[0]][1]['rotation_gamma'] = dx
    pose['rotation_beta'] = dx
    if cfg['n'] > 1:
        del t2.dut[ids[1]]
        t2[5] = tel[ids[1]]
        want[5] = want.pop(ids[1])
    g = m.path('tel2.yaml')
    t2.save_configuration(g)
    c.check(same_tel(c, tm.Telescope(g), pose, want), 'a changed telescope is not saved as it is')
    t2.save_configuration(f)
    c.check(same_tel(c, tm.Telescope(f), pose, want), 'saving over an older configuration does not replace it')
    c.observe('names', t2.dut_names)
    c.cover('done')


def written(c, m, cfg):
    """configurations written by hand: defaults, order of the entries, invalid entries"""
    tm = m.mod('telescope.telescope')
    f = m.path('tel.yaml')
    head = 'TELESCOPE:\n  rotation_alpha: 1.5\n  translation_z: -4\n  unknown: 3\n  DUT:\n'
    body = {
        'plain': "    3:\n      dut_type: FEI4\n      name: last\n      translation_x: 1\n      translation_y: 2.5\n      translation_z: 1e3\n      rotation_alpha: 0\n      rotation_beta: 0.25\n      rotation_gamma: 0\n"
                 "    1:\n      translation_x: 0\n      translation_y: 0\n      translation_z: 0\n      rotation_alpha: 0\n      rotation_beta: 0\n      rotation_gamma: 0\n      column_size: 50\n      row_size: 20\n      n_columns: 4\n      n_rows: 3\n      x_limit: [9, -2]\n",
        'type': '    0:\n      dut_type: Nonsense\n      name: a\n',
        'attribute': '    0:\n      dut_type: FEI4\n      sensor: 3\n      translation_x: 0\n      translation_y: 0\n      translation_z: 0\n      rotation_alpha: 0\n      rotation_beta: 0\n      rotation_gamma: 0\n',
        'id': '    first:\n      dut_type: FEI4\n      translation_x: 0\n      translation_y: 0\n      translation_z: 0\n      rotation_alpha: 0\n      rotation_beta: 0\n      rotation_gamma: 0\n',
        'missing': '    0:\n      dut_type: FEI4\n      translation_x: 0\n'}
    k = c.pick('case', ['plain', 'type', 'attribute', 'id', 'missing', 'nofile', 'dict', 'string', 'file', 'empty', 'number'])
    zero = {p: 0.0 for p in POSE}
    if k == 'plain':
        m.write_text(f, head + body[k])
        tel = tm.Telescope(f)
        base = dict(x_limit=None, y_limit=None, material_budget=0.0, intrinsic_resolution=None)
        want = {3: ('FEI4', dict(base, name='last', translation_x=1.0, translation_y=2.5, translation_z=1000.0, rotation_alpha=0.0, rotation_beta=0.25, rotation_gamma=0.0)),
                1: ('RectangularPixelDut', dict(base, name='DUT1', x_limit=(-2.0, 9.0), column_size=50.0, row_size=20.0, n_columns=4, n_rows=3, **zero))}
        c.check(same_tel(c, tel, dict(zero, rotation_alpha=1.5, translation_z=-4.0), want), 'a configuration file is not read as it is')
        c.check(tel.pixel_sizes == [(50.0, 20.0), (250.0, 50.0)] and tel.n_pixels == [(4, 3), (80, 336)], 'pixel sizes and numbers do not follow the order of the planes')
        c.cover('read')
    elif k in ('type', 'attribute', 'id', 'missing'):
        m.write_text(f, head + body[k])
        try:
            tm.Telescope(f)
        except Exception:
            c.cover('rejected')
        else:
            c.fail('an invalid plane (%s) is accepted' % k)
    elif k == 'nofile':
        try:
            tm.Telescope(m.path('nothing.yaml'))
        except ValueError:
            c.cover('rejected')
        else:
            c.fail('a missing configuration file is accepted')
    elif k in ('dict', 'string', 'file', 'empty'):
        d = {'A': {'b': 1}, 'C': [1, 2]}
        text = 'A:\n  b: 1\nC: [1, 2]\n'
        if k == 'dict':
            got = tm.open_configuation(d)
        elif k == 'string':
            got = tm.open_configuation(text)
        elif k == 'file':
            m.write_text(f, text)
            got = tm.open_configuation(f)
        else:
            got, d = tm.open_configuation(None), {}
        c.check(got == d, 'a configuration given as %s is not read' % k)
        c.cover('opened')
    elif k == 'number':
        try:
            tm.open_configuation(5)
        except ValueError:
            c.cover('rejected')
        else:
            c.fail('a number is accepted as configuration')
    c.cover('done')


def guard(c, m, cfg):
    """only the listed attributes of a plane can be set; values are converted"""
    tm = m.mod('telescope.telescope')
    tel = tm.Telescope()
    g, w = make(c, cfg, 'd', 'FEI4', {}, 'plane')
    k = c.pick('case', ['attr', 'id', 'item', 'type', 'array'])
    bad = False
    try:
        if k == 'id':
            tel.add_dut('FEI4', c.pick('id', ['0', 1.0, None]), **g)
            bad = True
        elif k == 'type':
            tel.add_dut(c.pick('t', [5, None]), 0, **g)
            bad = True
        elif k == 'item':
            tel[0] = 'FEI4'
            bad = True
    except (ValueError, TypeError):
        c.check(len(tel) == 0, 'a rejected plane is in the telescope')
        c.cover('rejected')
    if bad:
        c.fail('an invalid plane (%s) is accepted' % k)
    if k in ('attr', 'array'):
        tel.add_dut('FEI4', 0, **g)
        if k == 'attr':
            n = c.pick('n', ['translation', 'column_size', 'n_rows', 'Translation_x', 'id'])
            try:
                setattr(tel[0], n, 3)
            except (ValueError, AttributeError):
                c.cover('rejected')
            else:
                c.fail('a plane accepts the attribute %s' % n)
        else:
            # results of calculations are often array elements
            x = c.real('x', -1e6, 1e6)
            for p in POSE:
                setattr(tel[0], p, m.to_array([x], 'float64').reshape(()))
                w[p] = x
                setattr(tel, p, m.to_array([x], 'float64').reshape(()))
            f = m.path('tel.yaml')
            tel.save_configuration(f)
            c.check(same_tel(c, tm.Telescope(f), {p: x for p in POSE}, {0: ('FEI4', w)}), 'values of arrays are not stored')
            c.cover('array')
        c.check(c.both(*same_dut(c, tel[0], 'FEI4', w)), 'an attribute of a plane changes by itself')
    c.cover('done')


def tasks(tier):
    ts = sorted(SIZES)
    L = [{}, dict(x_limit='none', y_limit='list', material='none', res='none'), dict(x_limit='list', y_limit='none'), dict(x_limit='unset', y_limit='unset', material='unset', res='unset')]
    out = []
    for i in range(0, len(ts), 3):
        out.append(T(types, dict(types=ts[i:i + 3], lims=L if tier == 'thorough' else L[:2] + L[3:], props=i % 2), covers=['done']))
    out.append(T(types, dict(types=['FEI4', 'ScatteringPlane'], lims=[{}, L[1]], names=1), covers=['done']))
    out.append(T(several, dict(n=1, types=['ScatteringPlane']), covers=['done', 'kept']))
    out.append(T(several, dict(n=2, types=['RectangularPixelDut', 'Mimosa26']), covers=['done', 'kept']))
    if tier == 'thorough':
        out.append(T(several, dict(n=3, types=['Timepix3', 'Diamond3DpCVD', 'RectangularPixelDutWithDoubleColumns']), covers=['done', 'kept']))
    out.append(T(written, {}, covers=['read', 'rejected', 'opened', 'done']))
    out.append(T(guard, {}, covers=['rejected', 'array', 'done']))
    return out
