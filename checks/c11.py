"""C11: every bluespot gets its pour point and true attributes."""
import numpy as np
from engine import h as H
from checks import c03, fakes, lib

PROPERTY = 'C11'
BOUNDS = ('assembly: every real statistic and watershed count of 3 bluespots, every integer pour point cell, any geotransform (symbolic for coordinates, four '
          'concrete ones for areas); pourpts command and BluespotTool: every labelling with ids 0..2, every non-negative depth, every watershed '
          'raster consistent with the labels and every accumulated flow on 2x3 and 3x3 rasters; with a DEM instead of accumulated flow: every '
          'DEM of 3x3 cells and of 3x4 cells with symbolic drops')
OUTSIDE = ('larger rasters; areas under rotated geotransforms (the code uses |a|*|e|); the entry with id 0 that stands for the background; a background '
           'without watershed cells (its division by zero gives NaN in numpy, not an error)')

TRANSFORMS = [(0.0, 1.0, 0.0, 0.0, 0.0, -1.0), (10.0, 0.5, 0.0, 7.0, 0.0, -0.25), (-4.0, 2.0, 0.0, 3.0, 0.0, 4.0), (5.0, -1.5, 0.0, 1.0, 0.0, -2.0)]


def feature_checks(fs, k, rc, dmax, cnt, vol, wcnt, t, fumm=True):
    """features fs describe bluespot k; rc: None or its pour point"""
    mine = [f for f in fs if f['properties']['bspot_id'] == k]
    H.check(len(mine) == 1, 'one pour point per bluespot')
    f = mine[0]
    p = f['properties']
    area = abs(t[1]) * abs(t[5])
    H.check(f['id'] == k, 'the feature id is the bluespot id')
    H.check(p['bspot_dmax'] == dmax, 'maximum depth')
    H.check(H.same(p['bspot_area'], cnt * area), 'bluespot area')
    H.check(H.same(p['bspot_vol'], vol * area), 'bluespot volume')
    H.check(H.same(p['wshed_area'], wcnt * area), 'watershed area')
    if fumm:
        H.check(H.same(p['bspot_fumm'] * (wcnt * area), 1000 * (vol * area)), 'rain that fills the bluespot')
    r, c = p['cell_row'], p['cell_col']
    if rc is not None:
        H.check(H.land(r == rc[0], c == rc[1]), 'pour point cell')
    g = f['geometry']
    H.check(g['type'] == 'Point', 'geometry is a point')
    x, y = g['coordinates']
    H.check(H.same(x, t[0] + (c + 0.5) * t[1] + (r + 0.5) * t[2]), 'x of the cell centre')
    H.check(H.same(y, t[3] + (c + 0.5) * t[4] + (r + 0.5) * t[5]), 'y of the cell centre')
    return r, c


def h_assemble(cfg):
    from malstroem import bluespots
    n = 3
    if cfg['transform'] == 'symbolic':
        t = tuple([H.real('t%d' % k) for k in range(6)])
        cells = [(0, 0), (3, 1), (2, 7)]
    else:
        t = TRANSFORMS[cfg['transform']]
        cells = [(H.integer('r%d' % k, 0, 10000), H.integer('c%d' % k, 0, 10000)) for k in range(n)]
    pp = [dict(value=0.0, row=r, col=c) for r, c in cells]
    st, ws = [], []
    for k in range(n):
        st.append(dict(min=0.0, max=H.real('max%d' % k), sum=H.real('sum%d' % k), count=H.integer('cnt%d' % k, 1, 1000000)))
        ws.append(H.integer('w%d' % k, 1, 1000000))
    if cfg['transform'] == 'symbolic':
        H.assume(t[1] != 0)
        H.assume(t[5] != 0)
        for k in range(n):
            H.assume(st[k]['count'] == k + 2)
            H.assume(ws[k] == 2 * k + 3)
    fs = bluespots.assemble_pourpoints(t, pp, st, ws)
    H.check(len(fs) == n, 'one feature per entry')
    for k in range(n):
        s = st[k]
        feature_checks(fs, k, cells[k], s['max'], s['count'], s['sum'], ws[k], t)
    H.reach('done')


def inputs(cfg):
    """labels 0..2 (consecutive), depths, watersheds"""
    shape = cfg['shape']
    cs = lib.cells(shape)
    d = H.reals('d', shape, np.float32, 0)
    if 'labels' in cfg:
        return [np.array([[int(ch) for ch in row] for row in cfg[n]], dtype=np.int32) if n != 'd' else d for n in ('labels', 'd', 'wsheds')]
    lab = H.integers('l', shape, 0, cfg.get('top', 2), np.int32)
    wat = H.integers('w', shape, 0, cfg.get('top', 2), np.int32)
    return lab, d, wat


def expect(lab, d, wat, pick, highest, fs, t, fumm=False):
    """pick: raster whose extreme cell is the pour point"""
    cs = lib.cells(lab.shape)
    top = 0
    for v in cs:
        top = H.ite(lab[v] > top, lab[v], top)
    for k in range(1, 10):
        if not (k <= top):
            break
        m = -1.0
        for v in cs:
            m = H.ite(H.land(lab[v] == k, d[v] > m), d[v], m)
        r, c = feature_checks(fs, k, None, m, H.count([lab[v] == k for v in cs]), H.total([H.ite(lab[v] == k, d[v], 0.0) for v in cs]),
                              H.count([wat[v] == k for v in cs]), t, fumm)
        inn = []
        for v in cs:
            here = H.land(r == v[0], c == v[1])
            inn.append(H.land(here, lab[v] == k))
            for u in cs:
                better = pick[u] > pick[v] if highest else pick[u] < pick[v]
                H.check(H.implies(H.land(here, lab[u] == k), H.lnot(better)), 'pour point at the %s cell' % ('highest accumulated flow' if highest else 'lowest filled'))
        H.check(H.lor(*inn), 'the pour point is inside the bluespot')
    H.check(len(fs) <= top + 1, 'no further pour points')


def h_command(cfg):
    from malstroem import io
    from malstroem.algorithms import fill
    from malstroem.scripts import bluespot as sb
    lab, d, wat = inputs(cfg)
    shape = cfg['shape']
    cs = lib.cells(shape)
    for v in cs:
        H.assume(H.implies(lab[v] != 0, wat[v] == lab[v]))
    for k in range(2, cfg.get('top', 2) + 1):
        H.assume(H.implies(H.lor(*[lab[v] == k for v in cs]), H.lor(*[lab[v] == k - 1 for v in cs])))
    for v in cs:
        H.assume(H.implies(wat[v] > 1, H.lor(*[lab[u] == wat[v] for u in cs])))
        H.assume(H.implies(wat[v] > 0, H.lor(*[lab[u] == wat[v] for u in cs])))
    H.assume(H.lor(*[wat[v] == 0 for v in cs]))
    t = TRANSFORMS[cfg.get('transform', 1)]
    fakes.DISK = disk = fakes.Disk()
    io.RasterReader = fakes.Reader
    io.VectorWriter = fakes.VWriter
    disk.put('labels.tif', lab, t)
    disk.put('depths.tif', d, t)
    disk.put('wsheds.tif', wat, t)
    if cfg['accum']:
        acc = H.reals('a', shape, np.float64, 1)
        disk.put('accum.tif', acc, t)
        sb.process_pourpoints.callback('labels.tif', 'depths.tif', 'wsheds.tif', None, 'accum.tif', 'out', 'ESRI shapefile', 'pourpoints', [], [])
        pick = acc
    else:
        short, diag = c03.drops()
        dem = H.reals('z', shape, np.float32)
        disk.put('dem.tif', dem, t)
        sb.process_pourpoints.callback('labels.tif', 'depths.tif', 'wsheds.tif', 'dem.tif', None, 'out', 'ESRI shapefile', 'pourpoints', [], [])
        pick = fill.fill_terrain_no_flats(dem.copy(), short, diag)
    fs = disk.vectors['out', 'pourpoints']['features']
    H.check(len(disk.log) == 1, 'only the pour points are written')
    expect(lab, d, wat, pick, cfg['accum'], fs, t, 'labels' in cfg)
    H.reach('done')


def h_tool(cfg):
    """BluespotTool: the pour points belong to the labels and watersheds it writes"""
    from malstroem import bluespots
    from malstroem.algorithms import fill
    from malstroem.scripts import _utils
    shape = cfg['shape']
    cs = lib.cells(shape)
    t = (10.0, 0.5, 0.0, 7.0, 0.0, -0.5)
    d = H.reals('d', shape, np.float32, 0) if 'depths' not in cfg else np.array([[float(ch) for ch in row] for row in cfg['depths']], dtype=np.float32)
    fdir = np.zeros(shape, dtype=np.uint8)
    for r, c in cs:
        fdir[r, c] = 2
    fdir[0, 0] = 7
    H.assume(d[0, 0] == 0)
    out, pp, wat = fakes.Mem(), fakes.VMem(), fakes.Mem()
    fn = _utils.parse_filter(cfg['filter'])
    if cfg['accum']:
        acc = H.reals('a', shape, np.float64, 1)
        bluespots.BluespotTool(fakes.Mem(d, t), fakes.Mem(fdir, t), fn, out, pp, wat, input_accum=fakes.Mem(acc, t)).process()
        pick = acc
    else:
        short, diag = c03.drops()
        dem = H.reals('z', shape, np.float32)
        bluespots.BluespotTool(fakes.Mem(d, t), fakes.Mem(fdir, t), fn, out, pp, wat, input_dem=fakes.Mem(dem, t)).process()
        pick = fill.fill_terrain_no_flats(dem.copy(), short, diag)
    H.check(out.writes == 1 and wat.writes == 1 and pp.writes == 1, 'each output is written once')
    expect(out.data, d, wat.data, pick, cfg['accum'], pp.features, t)
    H.reach('done')


def configs(tier):
    out = []

    def add(name, h, impls=('py', 'cy'), **kw):
        out.append(dict(dict(name=name, harness='h_' + h, impls=impls, reach=['done'], unwind=400, chunk=30), **kw))
    for k in range(len(TRANSFORMS)):
        add('assemble_%d' % k, 'assemble', ('py',), transform=k)
    add('assemble_symbolic', 'assemble', ('py',), transform='symbolic')
    add('command_fixed_3x4', 'command', shape=(3, 4), accum=True, cost=5, labels=('0110', '0100', '2033'), wsheds=('1111', '0130', '2233'))
    add('command_accum_2x3', 'command', shape=(2, 3), accum=True, cost=10)
    add('command_accum_3x3', 'command', shape=(3, 3), accum=True, cost=30, transform=2)
    add('command_dem_3x3', 'command', shape=(3, 3), accum=False, cost=30, top=1)
    add('tool_accum_2x3', 'tool', shape=(2, 3), accum=True, filter='', cost=30)
    add('tool_accum_filter_2x3', 'tool', shape=(2, 3), accum=True, filter='maxdepth > 0.5', cost=30)
    add('tool_dem_3x4', 'tool', ('py',), shape=(3, 4), accum=False, filter='', cost=30, depths=('0023', '1020', '1000'))
    if tier != 'quick':
        add('tool_dem_3x3', 'tool', shape=(3, 3), accum=False, filter='', cost=60, timeout=1500, budget=1500)
        add('command_dem_3x4', 'command', shape=(3, 4), accum=False, cost=60, timeout=1500, budget=1500)
        add('command_accum_3x4', 'command', shape=(3, 4), accum=True, cost=60, timeout=1500, budget=1500)
        add('tool_accum_3x3', 'tool', shape=(3, 3), accum=True, filter='', cost=60, timeout=1500, budget=1500)
    return out
