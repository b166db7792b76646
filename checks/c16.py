"""C16: hypsometry histograms account for every bluespot cell."""
import numpy as np
from engine import h as H
from checks import fakes, lib

PROPERTY = 'C16'
BOUNDS = ('rasters of 2x2, 2x3 and 1x5 cells with up to two bluespots plus background, every real elevation in [-1, 1] at every cell (thorough [-1.5, 2]), '
          'resolutions 0.5, 1, 0.3 (thorough also 0.25, 0.7 and 2.5), float32 and float64 DEMs, both implementations; the histogram bounds alone: '
          'every real zmin <= zmax in [-3, 3] and in [95, 99]; IEEE arithmetic for cells from a list of values that round differently; io and command variants on 2x2 rasters; rejected input: labels that do not match the pour '
          'points, rasters of different shape or resolution, resolutions that are not positive')
OUTSIDE = ('numpy.histogram itself (encoded by its documented contract, compared with the library by replay on every traced input); larger rasters and more '
           'bins; floating-point rounding of scaled elevations (exact reals)')

LAYOUTS = {
    '2x2': ((1, 1), (1, 0)),
    '2x2b': ((1, 2), (0, 1)),
    '2x3': ((1, 0, 2), (1, 2, 0)),
    '1x5': ((1, 1, 0, 1, 1),),
}


def setup(cfg):
    lab = np.array(LAYOUTS[cfg['layout']], dtype=cfg.get('labels', 'int32'))
    lo, hi = cfg.get('range', (-1, 1))
    z = H.reals('z', lab.shape, np.dtype(cfg.get('dtype', 'float32')), lo, hi)
    for v in lib.cells(lab.shape):
        if lab[v] == 0:
            # far away from every bin of a bluespot
            H.assume(H.lor(z[v] == lo, z[v] == hi))
    return lab, z


def check_stats(z, lab, k, st, res, exact):
    """st: the statistics of bluespot k"""
    cs = [v for v in lib.cells(lab.shape) if lab[v] == k]
    counts, b = st.zhistogram.counts, st.zhistogram.bins
    H.check(H.land(*[st.zmin <= z[v] for v in cs]), 'zmin is the lowest terrain')
    H.check(H.lor(*[st.zmin == z[v] for v in cs]), 'zmin is the lowest terrain')
    H.check(H.land(*[st.zmax >= z[v] for v in cs]), 'zmax is the highest terrain')
    H.check(H.lor(*[st.zmax == z[v] for v in cs]), 'zmax is the highest terrain')
    H.check(H.land(b.lower_bound <= st.zmin, st.zmax <= b.upper_bound), 'the bounds enclose the extremes')
    H.check(b.resolution == res, 'resolution')
    n = b.num_bins
    H.check(n >= 1, 'number of bins')
    H.check(len(counts) == n, 'one count per bin')
    H.check(H.near(b.upper_bound - b.lower_bound, n * res, 10), 'the bins have the requested width')
    # no more bins than needed
    H.check(H.land(b.lower_bound > st.zmin - res * 1.000001, b.upper_bound <= st.zmax + res * 1.000001), 'bounds are at most one bin away')
    H.check(H.total([counts[j] for j in range(n)]) == len(cs), 'the counts sum to the number of cells')
    for j in range(n):
        lower, upper = b.lower_bound + j * res, b.lower_bound + (j + 1) * res
        if exact:
            H.check(counts[j] == H.count([H.land(lower <= z[v], z[v] < upper) for v in cs]), 'cells are counted in the bin that contains them')
        else:
            e = 1e-9
            H.check(counts[j] >= H.count([H.land(lower + e <= z[v], z[v] < upper - e) for v in cs]), 'cells are counted in the bin that contains them')
            H.check(counts[j] <= H.count([H.land(lower - e <= z[v], z[v] < upper + e) for v in cs]), 'cells are counted in the bin that contains them')


def h_stats(cfg):
    from malstroem import hyps
    lab, z = setup(cfg)
    res = cfg['res']
    m = int(lab.max())
    if cfg.get('max', True):
        got = list(hyps.bluespot_hypsometry_stats(lab, z, res, m, background=0))
    else:
        got = list(hyps.bluespot_hypsometry_stats(lab, z, res))
    H.check(len(got) == m + 1, 'one entry per label')
    for k in range(m + 1):
        H.check(got[k][0] == k, 'labels in order')
    b = got[0][1].zhistogram
    H.check(H.land(b.bins.num_bins == 0, len(b.counts) == 0), 'the background gets no histogram')
    for k in range(1, m + 1):
        st = got[k][1]
        check_stats(z, lab, k, st, res, cfg['exact'])
        if cfg['exact']:
            H.record('counts_%d' % k, st.zhistogram.counts)
        hyps.assert_hypsometrystats_valid(st)
    # flat attributes and back
    for k in range(0, m + 1):
        st = got[k][1]
        back = hyps.hypsometrystats_from_flatdict(hyps._hypsometrystats_to_flatdict(st))
        same_stats(st, back)
    H.reach('done')


def h_values(cfg):
    """IEEE arithmetic: cells from a list of values that round differently"""
    from malstroem import hyps
    n = cfg['cells']
    z = np.zeros((1, n), dtype=np.dtype(cfg['dtype']))
    for c in range(n):
        z[0, c] = H.choose('z_%d' % c, cfg['values'])
    lab = np.ones((1, n), dtype=np.int32)
    res = H.choose('resolution', cfg['resolutions'])
    got = list(hyps.bluespot_hypsometry_stats(lab, z, res, 1, background=0))
    st = got[1][1]
    cs = [z[0, c] for c in range(n)]
    H.check(H.land(st.zmin == min(cs), st.zmax == max(cs)), 'zmin and zmax are the extremes of the terrain')
    b = st.zhistogram.bins
    H.check(H.land(b.lower_bound <= st.zmin, st.zmax <= b.upper_bound), 'the bounds enclose the extremes')
    H.check(sum(st.zhistogram.counts) == n, 'the counts sum to the number of cells')
    H.check(len(st.zhistogram.counts) == b.num_bins, 'one count per bin')
    same_stats(st, hyps.hypsometrystats_from_flatdict(hyps._hypsometrystats_to_flatdict(st)))
    H.reach('done')


def same_stats(a, b):
    p, q = a.zhistogram.bins, b.zhistogram.bins
    H.check(H.land(p.num_bins == q.num_bins, p.lower_bound == q.lower_bound, p.upper_bound == q.upper_bound, p.resolution == q.resolution),
            'bins survive writing and reading')
    H.check(len(a.zhistogram.counts) == len(b.zhistogram.counts), 'counts survive writing and reading')
    for j in range(len(b.zhistogram.counts)):
        H.check(a.zhistogram.counts[j] == b.zhistogram.counts[j], 'counts survive writing and reading')
    H.check(H.land(a.zmin == b.zmin, a.zmax == b.zmax), 'extremes survive writing and reading')


def h_bins(cfg):
    from malstroem import hyps
    lo, hi = cfg['range']
    zmin, zmax = H.real('zmin', lo, hi), H.real('zmax', lo, hi)
    H.assume(zmin <= zmax)
    res = H.choose('resolution', cfg['resolutions'])
    b = hyps.histogram_bins(zmin, zmax, res)
    H.record('num_bins', b.num_bins)
    H.check(H.land(b.lower_bound <= zmin, zmax <= b.upper_bound), 'the bounds enclose the extremes')
    H.check(H.land(b.lower_bound > zmin - res * 1.000001, b.upper_bound <= zmax + res * 1.000001), 'bounds are at most one bin away')
    H.check(b.num_bins >= 1, 'number of bins')
    H.check(H.near(b.upper_bound - b.lower_bound, b.num_bins * res, 100), 'the bins have the requested width')
    H.check(b.resolution == res, 'resolution')
    H.reach('done')


def pourpoints(ids):
    out = []
    for k in ids:
        out.append(dict(type='Feature', id=k, geometry=dict(type='Point', coordinates=[1.5, float(k)]),
                        properties=dict(bspot_id=k, cell_row=0, cell_col=k, bspot_dmax=0.5, bspot_area=3.0, bspot_vol=2.0 + k, wshed_area=7.0)))
    return out


def h_io(cfg):
    from malstroem import hyps, io
    from malstroem.scripts import hyps as sh
    lab, z = setup(cfg)
    res = cfg['res']
    t = (10.0, 0.5, 0.0, 7.0, 0.0, -0.5)
    m = int(lab.max())
    pps = pourpoints(H.choose('order', (tuple(range(m + 1)), tuple(range(m, -1, -1)))))
    if cfg['how'] == 'io':
        w = fakes.VMem()
        hyps.bluespot_hypsometry_io(fakes.Mem(lab, t), fakes.Mem(z, t), fakes.VMem(pps), res, w)
        out = w.features
        H.check(w.writes == 1, 'written once')
    else:
        fakes.DISK = disk = fakes.Disk()
        io.RasterReader, io.VectorReader, io.VectorWriter = fakes.Reader, fakes.VReader, fakes.VWriter
        disk.put('labels.tif', lab, t)
        disk.put('dem.tif', z, t)
        disk.vectors['pp', 'pourpoints'] = dict(features=pps, crs='CRS')
        sh.process_hypsometry.callback('labels.tif', 'dem.tif', 'pp', 'pourpoints', res, 'out', 'hyps', 'CSV', [], [])
        out = disk.vectors['out', 'hyps']['features']
    H.check(len(out) == m + 1, 'one feature per pour point')
    seen = []
    for f in out:
        p = f['properties']
        k = p['bspot_id']
        H.check(k not in seen, 'one feature per pour point')
        seen.append(k)
        for q in pps:
            if q['properties']['bspot_id'] == k:
                for name in q['properties']:
                    H.check(p[name] == q['properties'][name], 'other attributes are kept')
        H.check(H.near(p['cell_area'], 0.25, 1), 'cell area')
        st = hyps.hypsometrystats_from_flatdict(p)
        if k == 0:
            H.check(H.land(st.zhistogram.bins.num_bins == 0, len(st.zhistogram.counts) == 0), 'the background gets no histogram')
        else:
            check_stats(z, lab, k, st, res, cfg['exact'])
    H.reach('done')


def h_refuse(cfg):
    from malstroem import hyps
    lab = np.array(LAYOUTS['2x2b'], dtype=np.int32)
    z = H.reals('z', lab.shape, np.float32, -1, 1)
    t = (10.0, 0.5, 0.0, 7.0, 0.0, -0.5)
    what = H.choose('what', ('shape', 'resolution', 'few', 'many', 'zero', 'negative', 'fine'))
    res = {'zero': 0, 'negative': -0.5}.get(what, 0.5)
    dem = fakes.Mem(z, t)
    if what == 'shape':
        dem = fakes.Mem(H.reals('y', (2, 3), np.float32, -1, 1), t)
    if what == 'resolution':
        dem = fakes.Mem(z, (10.0, 1.0, 0.0, 7.0, 0.0, -1.0))
    ids = {'few': (0, 1), 'many': (0, 1, 2, 3)}.get(what, (0, 1, 2))
    w = fakes.VMem()
    refused = False
    try:
        hyps.bluespot_hypsometry_io(fakes.Mem(lab, t), dem, fakes.VMem(pourpoints(ids)), res, w)
    except Exception:
        refused = True
    H.check(H.iff(refused, what != 'fine'), 'mismatching input is refused')
    H.check(w.writes == (0 if refused else 1), 'nothing is written when refused')
    H.reach('done')


def configs(tier):
    out = []

    def add(name, h, **kw):
        out.append(dict(dict(name=name, harness='h_' + h, reach=['done'], unwind=400, chunk=30, fork=True), **kw))
    add('stats_2x2', 'stats', layout='2x2', res=0.5, exact=True, cost=10)
    add('stats_2x2b', 'stats', layout='2x2b', res=0.5, exact=True, dtype='float64', cost=20)
    add('stats_2x2_third', 'stats', layout='2x2', res=0.3, exact=False, cost=20, dtype='float64', max=False)
    add('stats_2x3', 'stats', layout='2x3', res=1.0, exact=True, cost=20)
    add('stats_1x5', 'stats', layout='1x5', res=0.5, exact=True, labels='int64', cost=20)
    add('bins', 'bins', impl='py', range=(-3, 3), resolutions=(0.5, 0.25, 1.0, 0.3, 0.1, 2.5), cost=10)
    add('bins_high', 'bins', impl='py', range=(95, 99), resolutions=(0.5, 0.1, 0.3, 0.07), cost=10)
    add('io', 'io', layout='2x2b', res=0.5, exact=True, how='io', cost=20)
    add('command', 'io', layout='2x2', res=0.5, exact=True, how='command', cost=20)
    add('refuse', 'refuse', cost=5)
    vals = (0.1, 1 / 3, 0.7, -0.3, 2.0, 1.15)
    for dt in ('float64', 'float32'):
        add('values_' + dt, 'values', dtype=dt, values=vals if tier != 'quick' else vals[:5], cells=3 if tier != 'quick' else 2, resolutions=(0.1, 0.25), cost=20)
    if tier != 'quick':
        for l in ('2x2', '2x2b', '2x3', '1x5'):
            for res in (0.5, 0.25, 2.5, 0.3, 0.7):
                add('stats_%s_%s_wide' % (l, res), 'stats', layout=l, res=res, exact=res in (0.5, 0.25), range=(-1.5, 2), cost=100, timeout=1500, budget=3000)
    return out
