"""C18: final extents and depths follow the water level."""
import numpy as np
from engine import h as H
from checks import fakes, lib

PROPERTY = 'C18'
BOUNDS = ('every labelling of 2x2, 2x3 and 3x3 rasters with labels 0..2 (any of them as background), every real elevation and water level, float32 and float64 '
          'DEMs, 8, 16, 32 and 64 bit labels; in-memory, file and command variants, each output alone and both; pour points in any order next to junctions')
OUTSIDE = 'larger rasters; floating-point rounding of the difference (exact reals)'


def levels(n, bg, z, order):
    out = []
    for k in order:
        out.append(dict(type='Feature', id=k, geometry=None, properties=dict(nodeid=k, nodetype='pourpoint', bspot_id=k, approx_z=z[k], approx_dmax=1.0)))
    out.insert(1, dict(type='Feature', id=n + 3, geometry=None, properties=dict(nodeid=n + 3, nodetype='junction', bspot_id=None, approx_z=None, approx_dmax=None)))
    return out


def check(lab, z, dem, bg, labels, depths, had=True):
    for v in lib.cells(lab.shape):
        lev = 0.0
        for k in range(len(z)):
            if k != bg:
                lev = H.ite(lab[v] == k, z[k], lev)
        wet = H.land(lab[v] != bg, dem[v] <= lev)
        if labels is not None:
            H.check(labels[v] == H.ite(wet, lab[v], bg), 'a cell keeps its id exactly when its terrain is not above the level')
        if depths is not None:
            H.check(H.same(depths[v], H.ite(wet, lev - dem[v], 0.0)), 'depth is the level minus the terrain, zero elsewhere')
            H.check(depths[v] >= 0, 'no depth is negative')


def h_levels(cfg):
    from malstroem import approx, io
    from malstroem.scripts import finalstate
    shape, bg, n = cfg['shape'], cfg.get('background', 0), cfg.get('n', 3)
    lab = H.integers('label', shape, 0, n - 1, np.dtype(cfg.get('labels', 'int32')))
    if cfg.get('top', True):
        # the level list covers every label
        pass
    dem = H.reals('dem', shape, np.dtype(cfg.get('dtype', 'float32')))
    z = [H.real('level_%d' % k) for k in range(n)]
    how = cfg['how']
    if how == 'memory':
        before = lab.copy()
        got, depths = approx.approx_bluespots(lab, {k: z[k] for k in range(n) if k != bg}, dem.copy(), bg)
        check(before, z, dem, bg, got, depths)
    else:
        t = (10.0, 0.5, 0.0, 7.0, 0.0, -0.5)
        order = H.choose('order', (tuple(range(n)), tuple(range(n - 1, -1, -1))))
        fs = levels(n, bg, z, order)
        what = H.choose('what', ('both', 'depths', 'labels', 'none'))
        wd = fakes.Mem(transform=t) if what in ('both', 'depths') else None
        wl = fakes.Mem(transform=t) if what in ('both', 'labels') else None
        refused = False
        if how == 'io':
            try:
                approx.approx_bluespots_io(fakes.Mem(lab, t), fakes.VMem(fs), fakes.Mem(dem, t), wd, wl, bg)
            except Exception:
                refused = True
            gd = wd.data if wd is not None else None
            gl = wl.data if wl is not None else None
        else:
            fakes.DISK = disk = fakes.Disk()
            io.RasterReader, io.RasterWriter, io.VectorReader, io.VectorWriter = fakes.Reader, fakes.Writer, fakes.VReader, fakes.VWriter
            disk.put('labels.tif', lab, t)
            disk.put('dem.tif', dem, t, nodata=-5.0)
            disk.vectors['lev', 'finallevels'] = dict(features=fs, crs='CRS')
            try:
                finalstate.process_bluespots.callback('labels.tif', 'dem.tif', 'lev', 'finallevels', 'd.tif' if wd is not None else None,
                                                      'l.tif' if wl is not None else None)
            except Exception:
                refused = True
            gd = disk.rasters['d.tif']['data'] if 'd.tif' in disk.rasters else None
            gl = disk.rasters['l.tif']['data'] if 'l.tif' in disk.rasters else None
            H.check(H.land(disk.rasters['labels.tif']['data'] is lab, len(disk.rasters) == 2 + (gd is not None) + (gl is not None)), 'inputs are kept')
            for v in lib.cells(shape):
                # documented substitution of nodata cells of the DEM
                dem[v] = H.ite(dem[v] == -5.0, -999.0, dem[v])
        H.check(H.iff(refused, what == 'none'), 'refused exactly when no output is requested')
        H.check(H.iff(gd is not None, what in ('both', 'depths')), 'the requested outputs are written')
        H.check(H.iff(gl is not None, what in ('both', 'labels')), 'the requested outputs are written')
        check(lab, z, dem, bg, gl, gd)
    H.reach('done')


def h_same(cfg):
    """both variants on the same input"""
    from malstroem import approx
    shape, n = cfg['shape'], 3
    lab = H.integers('label', shape, 0, n - 1, np.dtype(cfg['labels']))
    dem = H.reals('dem', shape, np.float32)
    z = [H.real('level_%d' % k) for k in range(n)]
    wd, wl = fakes.Mem(), fakes.Mem()
    approx.approx_bluespots_io(fakes.Mem(lab), fakes.VMem(levels(n, 0, z, (0, 1, 2))), fakes.Mem(dem), wd, wl)
    got, depths = approx.approx_bluespots(lab.copy(), {k: z[k] for k in range(n)}, dem.copy())
    H.check(H.land(wd.data.shape == shape, wl.data.shape == shape, got.shape == shape, depths.shape == shape), 'shape')
    for v in lib.cells(shape):
        H.check(got[v] == wl.data[v], 'both variants give the same extent')
        H.check(H.same(depths[v], wd.data[v]), 'both variants give the same depth')
    H.reach('done')


def configs(tier):
    out = []

    def add(name, h, **kw):
        out.append(dict(dict(name=name, harness='h_' + h, impl='py', reach=['done'], unwind=400, chunk=20), **kw))
    add('memory_2x3', 'levels', shape=(2, 3), how='memory', cost=5)
    add('memory_2x2_64', 'levels', shape=(2, 2), how='memory', labels='int64', dtype='float64', cost=5)
    add('memory_2x3_bg1', 'levels', shape=(2, 3), how='memory', background=1, cost=5)
    add('memory_3x3_bytes', 'levels', shape=(3, 3), how='memory', labels='uint8', n=4, cost=10)
    add('io_2x3', 'levels', shape=(2, 3), how='io', cost=10)
    add('io_2x2_bg2', 'levels', shape=(2, 2), how='io', background=2, labels='int64', cost=10)
    add('io_3x3_short', 'levels', shape=(3, 3), how='io', labels='uint16', dtype='float64', cost=10)
    add('command_2x3', 'levels', shape=(2, 3), how='command', cost=10)
    add('same_2x3', 'same', shape=(2, 3), labels='int32', cost=5)
    add('same_1x4', 'same', shape=(1, 4), labels='uint8', cost=5)
    if tier != 'quick':
        for how in ('memory', 'io', 'command'):
            add('%s_5x5' % how, 'levels', shape=(5, 5), how=how, n=6, cost=50, timeout=1500)
            add('%s_4x6_64' % how, 'levels', shape=(4, 6), how=how, n=5, labels='int64', dtype='float64', cost=50, timeout=1500)
    return out
