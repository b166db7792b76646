"""C03: bluespot depths and the DEM tool."""
import numpy as np
from engine import h as H
from checks import fakes, lib

PROPERTY = 'C03'
BOUNDS = ('DemTool: every elevation at every cell of 3x3 .. 4x4 rasters (thorough 4x5, 5x4) with arbitrary positive drops, both output '
          'options and both implementations; cell sizes: every pair of non-zero pixel sizes; depths command: every filled and terrain '
          'value of 2x3 rasters')
OUTSIDE = ('GDAL file access (the readers and writers are in-memory stand-ins; they are checked in C21 and C22); the value of the safe '
           'drops (checked in C02; here any positive pair); float rounding in the subtraction (exact: both operands are float32 and the '
           'sign of a float difference is exact); larger rasters')


def drops():
    """stand-in for the safe drops: any positive pair"""
    from malstroem.algorithms import fill
    short = H.real('short', 0)
    diag = H.real('diag', 0)
    H.assume(short > 0)
    H.assume(diag > 0)

    def stub(dem):
        return short, diag
    fill.minimum_safe_short_and_diag = stub
    return short, diag


def leaves(dem):
    """cell -> some path to the edge never climbs above the cell's own elevation"""
    shape = dem.shape
    inner = [rc for rc in lib.cells(shape) if not lib.is_edge(shape, rc[0], rc[1])]
    out = {}
    for v in inner:
        low = {}
        for rc in lib.cells(shape):
            low[rc] = dem[rc] <= dem[v]
        reach = {}
        for rc in lib.cells(shape):
            reach[rc] = H.land(low[rc], lib.is_edge(shape, rc[0], rc[1]))
        for k in range(len(inner)):
            for rc in inner:
                reach[rc] = H.lor(reach[rc], H.land(low[rc], H.lor(*[reach[n] for n in lib.neighbours(shape, rc[0], rc[1])])))
        out[v] = reach[v]
    return out


def check_depths(dem, depths):
    shape = dem.shape
    free = leaves(dem)
    for r, c in lib.cells(shape):
        H.check(depths[r, c] >= 0, 'depth is not negative')
        if lib.is_edge(shape, r, c):
            H.check(depths[r, c] == 0, 'depth is zero on the edge')
        else:
            H.check(H.iff(depths[r, c] > 0, H.lnot(free[r, c])), 'depth is positive exactly where every way out climbs above the cell')


def h_tool(cfg):
    from malstroem import dem as demmod
    from malstroem.algorithms import fill, flow
    short, diag = drops()
    dem = lib.raster('z', cfg, np.float32)
    rd = fakes.Mem(dem, transform=(3.0, 2.0, 0.0, 7.0, 0.0, -2.0))
    wf, wd, wz, wa = fakes.Mem(), fakes.Mem(), fakes.Mem(), fakes.Mem()
    tool = demmod.DemTool(rd, wf, wd, wz, wa if cfg['accum'] else None)
    tool.process()
    H.check(wf.writes == 1 and wd.writes == 1 and wz.writes == 1, 'each output is written once')
    H.check(wa.writes == (1 if cfg['accum'] else 0), 'accumulated flow is written exactly when asked for')
    H.record('depths', wz.data)
    H.record('flowdir', wd.data)
    shape = dem.shape
    H.check(wf.data.shape == shape and wz.data.shape == shape and wd.data.shape == shape, 'shape of the outputs')
    for r, c in lib.cells(shape):
        H.check(wz.data[r, c] == wf.data[r, c] - dem[r, c], 'depth = filled - dem')
    check_depths(dem, wz.data)
    expect = flow.terrain_flowdirection(fill.fill_terrain_no_flats(dem.copy(), short, diag), edges_flow_outward=True)
    filled = fill.fill_terrain(dem.copy())
    for r, c in lib.cells(shape):
        H.check(wf.data[r, c] == filled[r, c], 'the filled raster is the filled input DEM')
        H.check(wd.data[r, c] == expect[r, c], 'flow directions are those of the input DEM')
    if cfg['accum']:
        acc = flow.accumulated_flow(expect)
        for r, c in lib.cells(shape):
            H.check(wa.data[r, c] == acc[r, c], 'accumulated flow is that of the flow directions')
    H.reach('done')


def h_square(cfg):
    from malstroem import dem as demmod
    from malstroem.algorithms import fill
    t1 = H.real('t1')
    t5 = H.real('t5')
    H.assume(t1 != 0)
    H.assume(t5 != 0)
    dem = np.zeros((3, 3), dtype=np.float32)
    dem[0, 1] = 3
    a = H.ite(t1 < 0, -t1, t1)
    b = H.ite(t5 < 0, -t5, t5)

    def stub(d):
        return 0.001, 0.0015
    fill.minimum_safe_short_and_diag = stub
    w = [fakes.Mem(), fakes.Mem(), fakes.Mem(), fakes.Mem()]
    rd = fakes.Mem(dem)
    rd.transform = (0.0, t1, 0.0, 0.0, 0.0, t5)
    try:
        demmod.DemTool(rd, w[0], w[1], w[2], w[3]).process()
        ok = True
    except AssertionError:
        ok = False
    n = sum([x.writes for x in w])
    if ok:
        H.check(n == 4, 'everything is written')
        H.check(H.lor(a - b <= a * 0.0101, a == b), 'non-square cells are rejected')
        H.check(H.lor(b - a <= a * 0.0101, a == b), 'non-square cells are rejected')
        H.reach('square')
    else:
        H.check(n == 0, 'nothing is written when cells are not square')
        H.check(a != b, 'square cells are accepted')
        H.reach('rejected')


def h_cli(cfg):
    from malstroem import io
    from malstroem.algorithms import fill, flow
    from malstroem.scripts import dem as sdem
    short, diag = drops()
    fakes.DISK = disk = fakes.Disk()
    io.RasterReader = fakes.Reader
    io.RasterWriter = fakes.Writer
    t = (1.0, 2.0, 0.0, 5.0, 0.0, -2.0)
    dt = np.dtype(cfg.get('dtype', 'float32'))
    if dt.kind == 'f':
        dem = H.reals('z', (3, 3), dt)
    else:
        dem = H.integers('z', (3, 3), cfg['lo'], cfg['hi'], dt)
    disk.put('dem.tif', dem, t, 'CRS1')
    sdem.process_filled.callback('dem.tif', 'filled.tif')
    sdem.process_depths.callback('dem.tif', 'filled.tif', 'depths.tif')
    filled = disk.rasters['filled.tif']['data']
    depths = disk.rasters['depths.tif']['data']
    H.record('depths', depths)
    for r, c in lib.cells((3, 3)):
        H.check(depths[r, c] == filled[r, c] - dem[r, c], 'depth = filled - dem')
    check_depths(dem, depths)
    if dt == np.float32:
        other = H.reals('y', (3, 3), dt)
        disk.put('other.tif', other, t, 'CRS1')
        sdem.process_depths.callback('dem.tif', 'other.tif', 'd2.tif')
        d2 = disk.rasters['d2.tif']['data']
        for r, c in lib.cells((3, 3)):
            H.check(d2[r, c] == other[r, c] - dem[r, c], 'depths are computed from the given filled raster')
        sdem.process_flowdir.callback('dem.tif', 'flowdir.tif')
        expect = flow.terrain_flowdirection(fill.fill_terrain_no_flats(dem.copy(), short, diag), edges_flow_outward=True)
        fd = disk.rasters['flowdir.tif']['data']
        for r, c in lib.cells((3, 3)):
            H.check(fd[r, c] == expect[r, c], 'flow directions are those of the input DEM')
        sdem.process_accum.callback('flowdir.tif', 'accum.tif')
        acc = flow.accumulated_flow(expect)
        for r, c in lib.cells((3, 3)):
            H.check(disk.rasters['accum.tif']['data'][r, c] == acc[r, c], 'accumulated flow is that of the flow directions')
    H.reach('done')


def configs(tier):
    out = []
    both = ('py', 'cy')

    def tool(n, m, accum, cost=1, **kw):
        out.append(dict(name='tool_%dx%d%s' % (n, m, '_accum' if accum else ''), shape=(n, m), accum=accum, harness='h_tool', impls=both,
                        reach=['done'], cost=cost, unwind=2 * n * m, tol=1e-5, **kw))
    tool(3, 3, True)
    tool(3, 4, False, 10)
    tool(4, 3, False, 5)
    tool(4, 4, False, 20)
    out.append(dict(name='square', harness='h_square', impl='py', reach=['square', 'rejected'], unwind=40))
    out.append(dict(name='cli_float32', harness='h_cli', impls=both, reach=['done'], unwind=40))
    for dt, lo, hi in (('uint8', 0, 255), ('int16', -20, 20), ('uint16', 0, 40)):
        out.append(dict(name='cli_' + dt, dtype=dt, lo=lo, hi=hi, harness='h_cli', impl='py', reach=['done'], unwind=40))
    out.append(dict(name='cli_float64', dtype='float64', harness='h_cli', impl='py', reach=['done'], unwind=40))
    if tier == 'thorough':
        tool(3, 4, True, 60, timeout=1500, budget=1500)
        tool(4, 4, True, 60, timeout=1500, budget=1500)
        tool(4, 5, False, 60, timeout=1500, budget=1500)
        tool(5, 4, False, 60, timeout=1500, budget=1500)
    return out
