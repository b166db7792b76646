"""C09: bluespots are the 8-connected wet regions which pass the filter."""
import numpy as np
from engine import h as H
from checks import fakes, lib

PROPERTY = 'C09'
BOUNDS = ('components: every wet / dry pattern of 2x3, 3x3 and 3x4 cells (thorough 4x4, 3x6); with a filter: every non-negative depth at every cell of '
          '2x3 rasters (thorough: 3x3 for the command), five filter expressions and none, through BluespotTool and the bspots command')

OUTSIDE = ('scipy.ndimage.label itself (compiled library; encoded by its contract: components of the given structure numbered by first cell in raster '
           'order, compared with the library by replay on every traced input); larger rasters; other filter expressions (see C10)')

# filter text -> the same condition on area, maximum depth and volume
FILTERS = {
    'area > 0.3': lambda a, m, v: a > 0.3,
    'maxdepth > 0.5 and volume <= 1.5': lambda a, m, v: H.land(m > 0.5, v <= 1.5),
    'area < 1 or maxdepth >= 2': lambda a, m, v: H.lor(a < 1, m >= 2),
    '(area >= 0.5 or volume > 3) and maxdepth != 1': lambda a, m, v: H.land(H.lor(a >= 0.5, v > 3), H.lnot(m == 1)),
    'area > 100': lambda a, m, v: False,
}


def connected(wet, shape):
    """u connected with v through wet cells"""
    cs = lib.cells(shape)
    out = {}
    for k in range(len(cs)):
        v = cs[k]
        # cells before v come from symmetry
        reach = {u: False for u in cs}
        reach[v] = wet[v]
        for step in range((len(cs) + 1) // 2 + 1):
            reach = {u: H.lor(reach[u], H.land(wet[u], H.lor(*[reach[p] for p in lib.neighbours(shape, u[0], u[1])]))) for u in cs}
        for u in cs:
            out[v, u] = reach[u]
    return out


def regions(d):
    w = {v: d[v] != 0 for v in lib.cells(d.shape)}
    return w, connected(w, d.shape)


def check_labels(d, lab, con, keep):
    """keep[v]: the region of v passes"""
    cs = lib.cells(d.shape)
    top = 0
    for v in cs:
        H.check(H.implies(d[v] == 0, lab[v] == 0), 'dry cells carry 0')
        H.check(H.implies(d[v] != 0, H.iff(lab[v] != 0, keep[v])), 'a wet cell carries an id exactly when its region passes')
        H.check(lab[v] >= 0, 'ids are not negative')
        top = H.ite(lab[v] > top, lab[v], top)
        for u in cs:
            if u > v:
                H.check(H.implies(H.land(lab[v] != 0, lab[u] != 0), H.iff(lab[v] == lab[u], con[v, u])), 'same id exactly when connected')
    for k in range(1, len(cs) + 1):
        H.check(H.implies(k <= top, H.lor(*[lab[v] == k for v in cs])), 'ids are consecutive from 1')


def h_cc(cfg):
    from malstroem.algorithms import label
    d = H.reals('d', cfg['shape'], np.dtype(cfg['dtype'])) if cfg['dtype'] != 'bool' else None
    if d is None:
        d = np.zeros(cfg['shape'], dtype=bool)
        for v in lib.cells(cfg['shape']):
            d[v] = H.boolean('d_%d_%d' % v)
    w, con = regions(d)
    lab, n = label.connected_components(d)
    H.record('labels', lab)
    cs = lib.cells(cfg['shape'])
    check_labels(d, lab, con, {v: w[v] for v in cs})
    top = 0
    for v in cs:
        top = H.ite(lab[v] > top, lab[v], top)
    H.check(n == top, 'number of bluespots')
    H.reach('done')


def verdicts(d, w, con, flt, area):
    """evaluate the filter on the region of every cell"""
    cs = lib.cells(d.shape)
    keep = {}
    for v in cs:
        a = H.count([con[v, u] for u in cs]) * area
        m = 0.0
        for u in cs:
            m = H.ite(H.land(con[v, u], d[u] > m), d[u], m)
        s = H.total([H.ite(con[v, u], d[u], 0.0) for u in cs]) * area
        keep[v] = H.land(w[v], FILTERS[flt](a, m, s)) if flt else w[v]
    return keep


def h_tool(cfg):
    from malstroem import bluespots, io
    from malstroem.scripts import bluespot as sb
    from malstroem.scripts import _utils
    shape = cfg['shape']
    d = H.reals('d', shape, np.float32, 0)
    w, con = regions(d)
    t = (10.0, 0.5, 0.0, 7.0, 0.0, -0.5)
    flt = cfg['filter']
    if cfg['how'] == 'tool':
        fdir = np.zeros(shape, dtype=np.uint8)
        acc = np.ones(shape, dtype=np.float64)
        for r, c in lib.cells(shape):
            fdir[r, c] = 2
            acc[r, c] = c + 1
        # a dry cell from which water leaves the raster: the background has a watershed
        fdir[0, 0] = 7
        H.assume(d[0, 0] == 0)
        out, pp, wat = fakes.Mem(), fakes.VMem(), fakes.Mem()
        fn = _utils.parse_filter(flt) if cfg.get('parse', True) else None
        bluespots.BluespotTool(fakes.Mem(d, t), fakes.Mem(fdir, t), fn, out, pp, wat, input_accum=fakes.Mem(acc, t)).process()
        lab = out.data
    else:
        fakes.DISK = disk = fakes.Disk()
        io.RasterReader = fakes.Reader
        io.RasterWriter = fakes.Writer
        disk.put('depths.tif', d, t)
        sb.process_bspots.callback('depths.tif', 'labels.tif', flt)
        lab = disk.rasters['labels.tif']['data']
    H.record('labels', lab)
    H.check(lab.shape == shape, 'shape of the labels')
    check_labels(d, lab, con, verdicts(d, w, con, flt, 0.25))
    H.reach('done')


def configs(tier):
    out = []

    def add(name, h, **kw):
        out.append(dict(dict(name=name, harness='h_' + h, impl='py', reach=['done'], unwind=400, chunk=30), **kw))
    for n, m in ((2, 3), (3, 3), (3, 4)):
        add('components_%dx%d' % (n, m), 'cc', shape=(n, m), dtype='float32', cost=n * m)
    add('components_3x3_bool', 'cc', shape=(3, 3), dtype='bool')
    k = 0
    for f in [''] + sorted(FILTERS):
        for how in ('tool', 'command'):
            if how == 'tool' and k in (1, 5) and tier == 'quick':
                continue
            add('%s_%d_2x3' % (how, k), 'tool', shape=(2, 3), how=how, filter=f, cost=10 if how == 'command' else 40)
        if tier != 'quick':
            add('command_%d_3x3' % k, 'tool', shape=(3, 3), how='command', filter=f, cost=100, timeout=1500, budget=1500)
        k += 1
    add('tool_nofilter_2x3', 'tool', shape=(2, 3), how='tool', filter='', parse=False, cost=40)
    if tier != 'quick':
        add('components_4x4', 'cc', shape=(4, 4), dtype='float32', cost=50, timeout=1500)
        add('components_3x6', 'cc', shape=(3, 6), dtype='float32', cost=50, timeout=1500)
    return out
