"""C05: mapping clusters onto events and merging the planes"""
from engine.driver import T
from checks.util import sorted_ints, telescope, use_telescope, row_dicts

BOUNDS = 'map_cluster: up to 4 (thorough 5) slots and clusters, any sorted event numbers; merge_cluster_data: two planes with up to 3 clusters each or three with up to 2, local positions or pixel indices, read in chunks of 2 rows and more'
OUTSIDE = 'more clusters and planes; values of cluster ID, size and shape that do not fit the columns of the merged table'


def mapping(c, m, cfg):
    ns, nc = cfg['ns'], cfg['nc']
    se, ce = sorted_ints(c, 's', ns), sorted_ints(c, 'c', nc)
    xs = [c.real('x%d' % i, -1000, 1000) for i in range(nc)]
    dt = [('event_number', 'int64'), ('id', 'int32'), ('mean_x', 'float64')]
    cl = m.to_struct(dt, [(e, i + 1, x) for i, (e, x) in enumerate(zip(ce, xs))])
    old = [(c.int('oe%d' % i, 0, 2 ** 40), -1 - i, float('nan')) for i in range(ns)]
    out = m.to_struct(dt, old)
    m.mod('tools.analysis_utils').map_cluster(m.to_array(se, 'int64'), cl, out)
    c.observe('slots', [out['event_number'].tolist(), out['id'].tolist(), out['mean_x'].tolist()])
    ids = out['id'].tolist()
    used = [i for i in ids if i > 0]
    c.check(len(used) == len(set(used)), 'no cluster is put into two slots')
    for i in range(ns):
        k = c.count([c.eq(se[j], se[i]) for j in range(i)])  # slots of the same event before this one
        if ids[i] > 0:
            j = int(ids[i]) - 1
            if j >= nc:
                c.fail('a slot holds something that is no cluster')
                return
            c.cover('mapped')
            c.check(c.eq(ce[j], se[i]), 'a cluster is put into a slot of its own event')
            c.check(c.both(c.eq(out['event_number'][i], ce[j]), c.exact(out['mean_x'][i], xs[j])), 'the cluster is copied unchanged')
            c.check(c.count([c.eq(ce[l], ce[j]) for l in range(j)]) == k, 'clusters of an event are put into its slots in order')
        else:
            c.check(ids[i] == -1 - i, 'other slots are untouched')
            c.check(c.both(c.eq(out['event_number'][i], old[i][0]), c.isnan(out['mean_x'][i])), 'other slots are untouched')
            c.check(c.count([c.eq(ce[l], se[i]) for l in range(nc)]) <= k, 'a slot stays empty only if its event has no cluster left')
    for i, j in zip(used, used[1:]):
        c.check(i < j, 'clusters are in order')


LOCAL = [('event_number', 'int64'), ('frame', 'uint16'), ('charge', 'float32'), ('n_hits', 'uint32'), ('cluster_ID', 'int32'), ('cluster_shape', 'int64'), ('n_cluster', 'uint32'),
         ('mean_x', 'float64'), ('mean_y', 'float64'), ('err_x', 'float32'), ('err_y', 'float32')]
INDEX = LOCAL[:7] + [('mean_column', 'float64'), ('mean_row', 'float64'), ('err_column', 'float32'), ('err_row', 'float32')]


def merged(c, m, cfg):
    n, size, local = cfg['n'], cfg['size'], cfg.get('local', True)
    nd = len(n)
    ha = m.mod('hit_analysis')
    duts = [dict(column_size=50.0 + 10 * d, row_size=20.0 + d, n_columns=4, n_rows=3) for d in range(nd)]
    tel = telescope(m, duts)
    use_telescope(m, ha, tel)
    rows, paths = [], []
    for d in range(nd):
        ev = sorted_ints(c, 'e%d_' % d, n[d])
        rr = []
        for i in range(n[d]):
            t = '%d_%d' % (d, i)
            if local:
                px, py = c.real('x' + t, -90, 90), c.real('y' + t, -25, 25)
            else:
                px, py = c.real('x' + t, 0.5, 4.5), c.real('y' + t, 0.5, 3.5)
            rr.append((ev[i], 10 * d + i, c.real('q' + t, 0, 100), c.int('n' + t, 1, 100), 100 * d + i, c.int('s' + t, 0, 2 ** 40), 1 + i, px, py, c.real('ex' + t, 0, 10), c.real('ey' + t, 0, 10)))
        rows.append(rr)
        paths.append(m.path('cl%d.h5' % d))
        m.write_h5(paths[d], {'Clusters': m.to_struct(LOCAL if local else INDEX, rr)})
    out = m.path('Merged.h5')
    try:
        ha.merge_cluster_data('telescope.yaml', paths, output_merged_file=out, chunk_size=size)
    except ValueError:
        c.check(c.either(*[c.count([c.eq(e[0], x[0]) for x in rr]) >= size for rr in rows for e in rr]), 'an error is raised only if an event fills a chunk')
        c.cover('error')
        return
    got = row_dicts(m.read_h5(out, 'MergedClusters'))
    c.observe('events', [g['event_number'] for g in got])
    c.observe('x', [[g['x_dut_%d' % d] for d in range(nd)] for g in got])
    c.observe('flag', [g['hit_flag'] for g in got])
    for a, b in zip(got, got[1:]):
        c.check(a['event_number'] <= b['event_number'], 'event numbers of the merged table ascend')
    seen = [[0] * n[d] for d in range(nd)]
    nan = lambda v: c.isnan(v)
    for g in got:
        flag = 0
        for d in range(nd):
            x, y, z = (g['%s_dut_%d' % (k, d)] for k in 'xyz')
            q = g['charge_dut_%d' % d]
            if isinstance(x, float) and x != x:
                c.check(c.both(nan(y), nan(z), nan(q)), 'a plane without cluster has no position and charge')
                c.check(c.both(*[c.eq(g['%s_dut_%d' % (k, d)], 0) for k in ('n_hits', 'frame', 'cluster_shape', 'n_cluster')]), 'a plane without cluster has no cluster properties')
                continue
            flag |= 1 << d
            i = int(g['frame_dut_%d' % d]) - 10 * d
            if not 0 <= i < n[d]:
                c.fail('a row holds something that is no cluster of the plane')
                return
            seen[d][i] += 1
            r = rows[d][i]
            c.check(c.eq(g['event_number'], r[0]), 'a cluster is in a row of its own event')
            if local:
                wx, wy, wex, wey = r[7], r[8], r[9], r[10]
            else:
                cs, rs = duts[d]['column_size'], duts[d]['row_size']
                wx, wy, wex, wey = (r[7] - 2.5) * cs, (r[8] - 2.0) * rs, r[9] * cs, r[10] * rs
            c.check(c.both(c.eq(x, wx), c.eq(y, wy), c.eq(z, 0.0)), 'the position is that of the cluster')
            c.check(c.both(c.eq(g['x_err_dut_%d' % d], wex), c.eq(g['y_err_dut_%d' % d], wey), c.eq(g['z_err_dut_%d' % d], 0.0)), 'the position error is that of the cluster')
            c.check(c.both(c.eq(q, r[2]), c.eq(g['n_hits_dut_%d' % d], r[3]), c.eq(g['cluster_ID_dut_%d' % d], r[4]), c.eq(g['cluster_shape_dut_%d' % d], r[5]), c.eq(g['n_cluster_dut_%d' % d], r[6])),
                    'charge and size are those of the cluster')
        c.check(c.eq(g['hit_flag'], flag), 'the hit flag names the planes with a cluster')
        c.check(flag != 0, 'no row without a cluster')
    for d in range(nd):
        for i in range(n[d]):
            c.check(seen[d][i] == 1, 'every cluster of a plane is in the merged table exactly once')
    c.cover('merged')


def tasks(tier):
    q = tier == 'quick'
    ts = []
    N = 3 if q else 5
    for ns in range(N + 1):
        for nc in range(N + 1):
            if ns + nc <= 8:
                ts.append(T(mapping, dict(ns=ns, nc=nc), ['mapped'] if ns and nc else []))
    if q:
        ts.append(T(mapping, dict(ns=4, nc=3), ['mapped']))
    for n in ((2, 2), (3, 1), (1, 3), (1, 1, 1), (2, 0), (0, 1)):
        for size in (2, 3, 10):
            for local in (True, False):
                if local or size == 10:
                    ts.append(T(merged, dict(n=n, size=size, local=local), ['merged']))
    ts.append(T(merged, dict(n=(3, 2), size=2, local=True), ['merged']))
    if not q:
        for n in ((3, 3), (4, 2), (2, 4), (2, 1, 2), (2, 2, 1)):
            for size in (2, 3, 10):
                ts.append(T(merged, dict(n=n, size=size, local=True), ['merged']))
    return ts
