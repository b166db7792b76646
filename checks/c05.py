"""C05: water from every cell leaves the raster."""
import numpy as np
from engine import h as H
from checks import c03, fakes, lib

PROPERTY = 'C05'
BOUNDS = ('no-flats fill followed by the D8 step: every elevation and every positive drop pair on 3x3, 3x4, 4x4 (paths followed) and 3x6 (strict '
          'descent) in exact real arithmetic, also through DemTool and the flowdir command on 3x4 (there also with the real safe drops in IEEE arithmetic for elevations from lists of very different magnitudes); the D8 step on every raster with the property C02 '
          'shows for the fill: 4x4 and 4x5 (paths followed), 5x6 (strict descent); thorough: 4x5 and 5x5 end to end, 5x5 and 7x8 by contract, and '
          'bit-precise IEEE arithmetic through the real safe drops, fill and D8 for 3x3 rasters of two and three levels; both implementations')

OUTSIDE = ('larger rasters (by the contract argument strict descent at every interior cell implies the property for any size); rounding inside the fill of '
           'larger rasters; infinite and NaN elevations')


def target(shape, v, k):
    a, b = lib.DIRS[k]
    t = (v[0] + a, v[1] + b)
    return t if lib.inside(shape, t[0], t[1]) else None


def check_leaves(f):
    """follow the directions from every cell at most as many steps as there are cells"""
    shape = f.shape
    cs = lib.cells(shape)
    out = {v: H.lor(*[f[v] == k for k in range(8) if target(shape, v, k) is None]) for v in cs}
    for step in range(len(cs) - 1):
        out = {v: H.lor(out[v], *[H.land(f[v] == k, out[target(shape, v, k)]) for k in range(8) if target(shape, v, k) is not None]) for v in cs}
    for v in cs:
        H.check(H.land(f[v] >= 0, f[v] <= 7), 'every cell has a direction')
        H.check(out[v], 'water leaves the raster in at most as many steps as there are cells')


def check_descends(w, f):
    """every step to a cell of the raster goes strictly down: no path meets a cell twice"""
    shape = f.shape
    for v in lib.cells(shape):
        H.check(H.land(f[v] >= 0, f[v] <= 7), 'every cell has a direction')
        for k in range(8):
            t = target(shape, v, k)
            if lib.is_edge(shape, v[0], v[1]):
                if t is not None:
                    H.check(f[v] != k, 'edge cells flow off the raster')
            else:
                H.check(H.implies(f[v] == k, w[t] < w[v]), 'every step goes strictly down')


def h_full(cfg):
    from malstroem.algorithms import fill, flow
    short, diag = c03.drops()
    z = lib.raster('z', cfg, np.float32)
    s, d = fill.minimum_safe_short_and_diag(z)
    w = fill.fill_terrain_no_flats(z, s, d)
    f = flow.terrain_flowdirection(w, edges_flow_outward=True)
    H.record('flowdir', f)
    if cfg['how'] == 'leaves':
        check_leaves(f)
    else:
        check_descends(w, f)
    H.reach('done')


def h_contract(cfg):
    """any raster with the property C02 shows for the no-flats fill"""
    from malstroem.algorithms import flow
    shape = cfg['shape']
    w = H.reals('w', shape, np.float64)
    for r, c in lib.cells(shape):
        if not lib.is_edge(shape, r, c):
            H.assume(H.lor(*[w[p] < w[r, c] for p in lib.neighbours(shape, r, c)]))
    f = flow.terrain_flowdirection(w, edges_flow_outward=True)
    H.record('flowdir', f)
    if cfg['how'] == 'leaves':
        check_leaves(f)
    else:
        check_descends(w, f)
    H.reach('done')


def h_tool(cfg):
    from malstroem import dem as demmod, io
    from malstroem.scripts import dem as sdem
    c03.drops()
    z = lib.raster('z', cfg, np.float32)
    if cfg['how'] == 'tool':
        w = [fakes.Mem(), fakes.Mem(), fakes.Mem()]
        demmod.DemTool(fakes.Mem(z), w[0], w[1], w[2]).process()
        f = w[1].data
    else:
        fakes.DISK = disk = fakes.Disk()
        io.RasterReader = fakes.Reader
        io.RasterWriter = fakes.Writer
        disk.put('dem.tif', z)
        sdem.process_flowdir.callback('dem.tif', 'flowdir.tif')
        f = disk.rasters['flowdir.tif']['data']
    H.record('flowdir', f)
    check_leaves(f)
    H.reach('done')


def h_fp(cfg):
    """bit-precise: the real safe drops through the real fill and D8 step"""
    from malstroem.algorithms import fill, flow
    v = H.reals('v', (cfg['values'],), np.dtype(cfg['dtype']))
    for i in range(cfg['values']):
        H.assume(H.land(v[i] <= 2.0 ** 120, -2.0 ** 120 <= v[i]))
    z = np.zeros((3, 3), dtype=cfg['dtype'])
    for r, c in lib.cells((3, 3)):
        z[r, c] = v[1]
    z[1, 1] = v[0]
    if cfg['values'] > 2:
        z[cfg['at']] = v[2]
    s, d = fill.minimum_safe_short_and_diag(z)
    w = fill.fill_terrain_no_flats(z, s, d)
    f = flow.terrain_flowdirection(w, edges_flow_outward=True)
    H.record('flowdir', f)
    for rc in lib.cells((3, 3)):
        H.check(f[rc] <= 7, 'every cell has a direction')
    for k in range(8):
        a, b = lib.DIRS[k]
        H.check(H.implies(f[1, 1] == k, w[1 + a, 1 + b] < w[1, 1]), 'every step goes strictly down')
    H.reach('done')


def h_levels(cfg):
    """the real IEEE arithmetic (no stand-in for the safe drops) on elevations of very different magnitudes"""
    from malstroem import dem as demmod, io
    from malstroem.scripts import dem as sdem
    shape = cfg['shape']
    z = np.zeros(shape, dtype=np.float32)
    e = H.choose('edge', cfg['edges'])
    for v in lib.cells(shape):
        z[v] = e
    z[0, 1] = H.choose('outlet', (e, cfg['levels'][0]))
    for v in lib.cells(shape):
        if not lib.is_edge(shape, v[0], v[1]):
            z[v] = H.choose('z_%d_%d' % v, cfg['levels'])
    if cfg['how'] == 'tool':
        w = [fakes.Mem(), fakes.Mem(), fakes.Mem()]
        demmod.DemTool(fakes.Mem(z), w[0], w[1], w[2]).process()
        f = w[1].data
    else:
        fakes.DISK = disk = fakes.Disk()
        io.RasterReader = fakes.Reader
        io.RasterWriter = fakes.Writer
        disk.put('dem.tif', z)
        sdem.process_flowdir.callback('dem.tif', 'flowdir.tif')
        f = disk.rasters['flowdir.tif']['data']
    check_leaves(f)
    H.reach('done')


def configs(tier):
    out = []
    both = ('py', 'cy')

    def add(h, how, n, m, cost=1, impls=both, **kw):
        out.append(dict(name='%s_%s_%dx%d' % (h, how, n, m), shape=(n, m), how=how, harness='h_' + h, impls=impls, reach=['done'], cost=cost, unwind=300, tol=1e-5,
                        chunk=40, **kw))
    add('full', 'leaves', 3, 3)
    add('full', 'leaves', 3, 4)
    add('full', 'leaves', 4, 4, 20)
    add('full', 'descends', 3, 4)
    add('full', 'descends', 4, 4, 20)
    add('contract', 'leaves', 4, 4)
    add('contract', 'leaves', 4, 5)
    add('contract', 'descends', 5, 6)
    add('tool', 'tool', 3, 4)
    add('tool', 'command', 3, 4)
    add('full', 'descends', 3, 6)
    for how in ('tool', 'command'):
        add('levels', how, 3, 4, 10, edges=(0.0, 50000.0, -999.0, 1.0e6), levels=(0.001, 3.3, -999.0), fork=True)
        if tier != 'quick':
            add('levels', how, 4, 4, 100, edges=(0.0, 50000.0, -999.0, 1.0e6), levels=(0.001, 3.3, -999.0), fork=True)
    if tier != 'quick':
        for i in both:
            out.append(dict(name='fp_2_float32', values=2, dtype='float32', harness='h_fp', impl=i, fp=True, reach=['done'], unwind=300, cost=90, timeout=1500, budget=1500, tol=0))
        out.append(dict(name='fp_3_float32', values=3, at=(0, 0), dtype='float32', harness='h_fp', impl='cy', fp=True, reach=['done'], unwind=300, cost=200, timeout=3000, budget=300, tol=0))
        add('full', 'descends', 4, 5, 100, timeout=1500, budget=1500)
        add('full', 'descends', 5, 5, 200, timeout=3000, budget=1500)
        add('full', 'leaves', 4, 5, 200, timeout=3000, budget=1500)
        add('contract', 'leaves', 5, 5, 100, timeout=1500, budget=1500)
        add('contract', 'descends', 7, 8, 50)
    return out
