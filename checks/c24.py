"""C24: histogram statistics"""
from engine.driver import T

BOUNDS = 'histograms of 1 to 4 bins with 0 to 3 entries each (mean: 1 to 6 bins with up to 10^6 entries), all bin positions; quantile cuts of histograms of 1 to 4 (thorough: 5) bins with up to 10^6 entries and several pairs of quantiles'
OUTSIDE = 'longer histograms; get_mean_efficiency (the confidence interval is found with scipy.optimize and scipy.stats); rounding of floating-point numbers; quantiles that are not dyadic fractions'


def mean(c, m, cfg):
    au = m.mod('tools.analysis_utils')
    n = cfg['n']
    k = [c.int('k%d' % i, 0, 10 ** 6) for i in range(n)]
    x = [c.real('x%d' % i, -1000, 1000) for i in range(n)]
    total = sum(k[1:], k[0])
    c.assume(total >= 1)
    r = au.get_mean_from_histogram(m.to_array(k, cfg['kind']), m.to_array(x, 'float64') if cfg['array'] else x)
    s = 0
    for a, b in zip(k, x):
        s = s + a * b
    c.observe('mean', r)
    c.check(c.eq(r * total, s), 'the mean times the number of entries is the sum of all entries')
    c.cover('done')


def spread(c, m, cfg):
    au = m.mod('tools.analysis_utils')
    n = cfg['n']
    k = [int(c.int('k%d' % i, 0, cfg['max'])) for i in range(n)]
    x = [c.real('x%d' % i, -1000, 1000) for i in range(n)]
    total = sum(k)
    c.assume(total >= 1)
    ks, xs = m.to_array(k, 'int64'), m.to_array(x, 'float64')
    r = au.get_rms_from_histogram(ks, xs)
    c.observe('rms', r)
    s1 = sum(a * b for a, b in zip(k, x))
    s2 = sum(a * b * b for a, b in zip(k, x))
    c.check(r >= 0, 'the RMS is not negative')
    c.check(c.eq(r * r * (total * total), s2 * total - s1 * s1), 'the squared RMS is the variance of the entries')
    c.cover('done')


def median(c, m, cfg):
    au = m.mod('tools.analysis_utils')
    n = cfg['n']
    k = [int(c.int('k%d' % i, 0, cfg['max'])) for i in range(n)]
    x = [c.real('x%d' % i, -1000, 1000) for i in range(n)]
    if cfg['sorted']:
        for a, b in zip(x, x[1:]):
            c.assume(a <= b)
    total = sum(k)
    c.assume(total >= 1)
    r = au.get_median_from_histogram(m.to_array(k, 'int64'), m.to_array(x, 'float64'))
    c.observe('median', r)
    # the median is the mean of two order statistics
    e = [x[i] for i in range(n) for _ in range(k[i])]

    def rank(v, j):  # v is the j-th smallest entry (0-based)
        return c.both(c.count([y < v for y in e]) <= j, c.count([y <= v for y in e]) > j)
    lo, hi = (total - 1) // 2, total // 2
    c.check(c.either(*[c.both(rank(a, lo), rank(b, hi), c.eq(2 * r, a + b)) for a in x for b in x]), 'the median is the central entry (or the mean of the two central ones)')
    c.cover('done')


def quantiles(c, m, cfg):
    au = m.mod('tools.analysis_utils')
    n = cfg['n']
    p0, p1 = cfg['prob']
    k = [c.int('k%d' % i, 0, 10 ** 6) for i in range(n)]
    total = sum(k[1:], k[0])
    h = m.to_array(k, 'int64') if cfg.get('array', True) else k
    r, idx = au.hist_quantiles(h, prob=cfg['prob'], return_indices=True)
    idx = [int(i) for i in idx]
    data, mask = r.data.tolist(), [bool(v) for v in r.mask.tolist()]
    c.observe('indices', idx)
    c.check(len(data) == n and len(mask) == n, 'the histogram keeps its bins')
    c.check(c.both(*[c.eq(a, b) for a, b in zip(data, k)]), 'the entries are not modified')
    c.check(idx == list(range(idx[0], idx[-1] + 1)) if idx else False, 'the bins kept are contiguous')
    c.check([i for i in range(n) if not mask[i]] == idx, 'the indices are those of the bins that are not masked')
    if not idx or idx[0] < 0 or idx[-1] >= n:
        return
    lo, hi = idx[0], idx[-1]
    below, above = sum(k[:lo], 0), sum(k[hi + 1:], 0)
    c.check(below <= p0 * total, 'not more than the lower quantile is cut off')
    c.check(above <= (1 - p1) * total, 'not more than the upper quantile is cut off')
    if p1 < 1:
        c.check(c.implies(total > 0, c.both(below + k[lo] >= p0 * total, above + k[hi] >= (1 - p1) * total)), 'all that lies beyond the quantiles is cut off')
    if lo > 0:
        c.cover('lower')
    if hi < n - 1:
        c.cover('upper')
    r2 = au.hist_quantiles(h, prob=cfg['prob'])
    c.check([bool(v) for v in r2.mask.tolist()] == mask, 'the cut does not depend on whether the indices are requested')
    c.cover('done')


def tasks(tier):
    q = tier == 'quick'
    ts = []
    for n in (1, 2, 3, 4, 6):
        for kind in ('int64', 'uint32'):
            ts.append(T(mean, dict(n=n, kind=kind, array=kind == 'int64'), ['done']))
    for n in (1, 2, 3) + (() if q else (4,)):
        ts.append(T(spread, dict(n=n, max=3 if n < 4 else 2), ['done']))
        ts.append(T(median, dict(n=n, max=3 if n < 3 else 2, sorted=False), ['done']))
        ts.append(T(median, dict(n=n, max=3, sorted=True), ['done']))
    if q:
        ts.append(T(spread, dict(n=4, max=1), ['done']))
        ts.append(T(median, dict(n=4, max=2, sorted=True), ['done']))
    for n in (1, 2, 3, 4) + (() if q else (5,)):
        for p in ((0.0, 0.875), (0.0625, 0.9375), (0.25, 0.75), (0.0, 1.0), (0.5, 0.5), (0.125, 1.0)):
            cov = ['done']
            if n > 1 and 0 < p[0] and p[1] < 1:
                cov.append('lower')
            if n > 1 and p[1] < 1:
                cov.append('upper')
            ts.append(T(quantiles, dict(n=n, prob=p), cov))
        ts.append(T(quantiles, dict(n=n, prob=[0.25, 0.75], array=False), ['done']))
    return ts
