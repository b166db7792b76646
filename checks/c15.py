"""C15: initial volumes are rain times area, in cubic metres."""
import numpy as np
from engine import h as H
from checks import fakes, lib

PROPERTY = 'C15'
BOUNDS = ('uniform rain: every real rain depth and every real watershed area of 5 nodes of both types, tool and command; precipitation raster: every '
          'labelling with ids 0..3 and every precipitation value on 2x3 and 3x3 rasters (thorough 3x4), five concrete labellings of 3x3 cells with every precipitation, units mm, l and m3, four cell sizes, node ids '
          'below, at and beyond the highest label, label types int32, uint8 and int64, data types float32, float64 and int16')
OUTSIDE = 'larger rasters; rotated geotransforms (cell area is |a|*|e|); rounding of the sums'


def nodes(ids, junctions, areas):
    out = []
    for k, i in enumerate(ids):
        j = i in junctions
        out.append(dict(type='Feature', id=i, geometry=dict(type='Point', coordinates=[1.0 * k, 2.0]),
                        properties=dict(nodeid=i, dstrnodeid=None, nodetype='junction' if j else 'pourpoint', bspot_id=None if j else i,
                                        bspot_area=1.5 * k, bspot_vol=2.5 * k, wshed_area=areas[k], inputv=-7.0)))
    return out


def unchanged(before, after, attribute):
    H.check(len(after) == len(before), 'every node is written once')
    by = {}
    for g in after:
        i = g['properties']['nodeid']
        H.check(i not in by, 'every node is written once')
        by[i] = g
    for f in before:
        p = f['properties']
        g = by[p['nodeid']]
        q = g['properties']
        H.check(g['id'] == f['id'] and g['geometry']['coordinates'] == f['geometry']['coordinates'], 'geometry is kept')
        for name in p:
            if name != attribute:
                H.check(name in q, 'no other attribute is changed')
                H.check(q[name] is None if p[name] is None else q[name] == p[name], 'no other attribute is changed')
        for name in q:
            H.check(name == attribute or name in p, 'no attribute is added')
    return by


def use_disk():
    from malstroem import io
    fakes.DISK = fakes.Disk()
    io.RasterReader = fakes.Reader
    io.RasterWriter = fakes.Writer
    io.VectorReader = fakes.VReader
    io.VectorWriter = fakes.VWriter
    return fakes.DISK


def h_uniform(cfg):
    from malstroem import rain
    from malstroem.scripts import initvolume
    mm = H.real('mm', 0)
    areas = [H.real('area_%d' % k, 0) for k in range(5)]
    ids = (4, 0, 2, 9, 1)
    fs = nodes(ids, (9,), areas)
    attr = cfg['attribute']
    if cfg['how'] == 'tool':
        w = fakes.VMem()
        rain.SimpleVolumeTool(fakes.VMem(fs), w, attr, mm).process()
        H.check(w.writes == 1, 'written once')
        got = w.features
    else:
        H.assume(mm != 0)
        disk = use_disk()
        disk.vectors['nodes', 'nodes'] = dict(features=fs, crs='CRS')
        initvolume.process_volumes.callback('nodes', 'nodes', mm, None, rain.Unit.mm, None, 'out', 'initvolumes', attr, 'gpkg', [], [])
        got = disk.vectors['out', 'initvolumes']['features']
    by = unchanged(fs, got, attr)
    for k in range(5):
        H.check(H.near(by[ids[k]]['properties'][attr] * 1000, mm * areas[k], mm * areas[k]), 'rain times area / 1000')
    H.reach('done')


TRANSFORMS = {'one': (0.0, 1.0, 0.0, 0.0, 0.0, -1.0), 'half': (3.0, 0.5, 0.0, 1.0, 0.0, -0.5), 'up': (3.0, 2.0, 0.0, 1.0, 0.0, 2.0), 'flat': (3.0, 4.0, 0.0, 1.0, 0.0, -0.5)}


PATTERNS = (('110', '023', '333'), ('000', '000', '000'), ('111', '222', '333'), ('000', '010', '000'), ('303', '020', '101'))


def h_raster(cfg):
    from malstroem import rain
    from malstroem.scripts import initvolume
    shape = cfg['shape']
    t = TRANSFORMS[cfg['cell']]
    if cfg.get('patterns'):
        pat = H.choose('labels', PATTERNS)
        lab = np.array([[int(ch) for ch in row] for row in pat], dtype=np.dtype(cfg.get('labels', 'int32')))
    else:
        lab = H.integers('l', shape, 0, cfg.get('top', 3), np.dtype(cfg.get('labels', 'int32')))
    dt = np.dtype(cfg.get('dtype', 'float32'))
    pr = H.reals('p', shape, dt, 0) if dt.kind == 'f' else H.integers('p', shape, 0, 1000, dt)
    ids = cfg.get('ids', (3, 1, 7, 0, 2))
    fs = nodes(ids, (7,), [5.0] * 5)
    attr = cfg.get('attribute', 'inputv')
    unit = rain.Unit[cfg['unit']]
    if cfg['how'] == 'tool':
        w = fakes.VMem()
        rain.RasterVolumeTool(fakes.VMem(fs), fakes.Mem(lab, t), fakes.Mem(pr, (100.0, 9.0, 0.0, 1.0, 0.0, -9.0)), unit, w, attr).process()
        H.check(w.writes == 1, 'written once')
        got = w.features
    else:
        disk = use_disk()
        disk.vectors['nodes', 'nodes'] = dict(features=fs, crs='CRS')
        disk.put('labels.tif', lab, t)
        disk.put('pr.tif', pr, t)
        initvolume.process_volumes.callback('nodes', 'nodes', None, 'pr.tif', unit, 'labels.tif', 'out', 'initvolumes', attr, 'gpkg', [], [])
        got = disk.vectors['out', 'initvolumes']['features']
    by = unchanged(fs, got, attr)
    area = abs(t[1] * t[5])
    factor = {'mm': area / 1000, 'l': 0.001, 'm3': 1.0}[cfg['unit']]
    for i in ids:
        s = 0.0
        for v in lib.cells(shape):
            s = s + H.ite(lab[v] == i, pr[v], 0)
        got = by[i]['properties'][attr]
        ok = H.near(got, s * factor, s * factor) if cfg.get('patterns') else H.same(got, s * factor)
        H.check(ok, 'sum of the precipitation over the cells of the node, in cubic metres')
    H.reach('done')


def h_refuse(cfg):
    """rasters of different shape are refused before anything is written"""
    from malstroem import rain
    shape = H.choose('shape', ((2, 4), (3, 3), (3, 2), (1, 6)))
    w = fakes.VMem()
    lab = H.integers('l', (2, 3), 0, 2, np.int32)
    pr = H.reals('p', shape, np.float32, 0)
    try:
        rain.RasterVolumeTool(fakes.VMem(nodes((1, 2, 0), (), [1.0] * 3)), fakes.Mem(lab), fakes.Mem(pr), rain.Unit.mm, w, 'v').process()
        ok = True
    except AssertionError:
        ok = False
    H.check(not ok and w.writes == 0, 'rasters of different shape are refused')
    H.reach('done')


def configs(tier):
    out = []
    both = ('py', 'cy')

    def add(name, h, impls=both, **kw):
        out.append(dict(dict(name=name, harness='h_' + h, impls=impls, reach=['done'], unwind=400, chunk=40), **kw))
    add('uniform_tool', 'uniform', ('py',), how='tool', attribute='inputv')
    add('uniform_command', 'uniform', ('py',), how='command', attribute='rainvol')
    for u, c in (('mm', 'half'), ('mm', 'flat'), ('l', 'up'), ('m3', 'half'), ('mm', 'up'), ('l', 'one')):
        add('raster_%s_%s_2x3' % (u, c), 'raster', shape=(2, 3), how='tool', unit=u, cell=c, cost=5)
    add('command_mm_2x3', 'raster', shape=(2, 3), how='command', unit='mm', cell='up', attribute='x', cost=5)
    add('command_m3_2x3', 'raster', shape=(2, 3), how='command', unit='m3', cell='half', cost=5)
    add('command_l_2x3', 'raster', shape=(2, 3), how='command', unit='l', cell='half', cost=5)
    for u, c in (('mm', 'up'), ('l', 'half'), ('mm', 'flat'), ('m3', 'flat')):
        add('patterns_%s_%s_3x3' % (u, c), 'raster', shape=(3, 3), how='tool', unit=u, cell=c, cost=20, patterns=True)
    add('patterns_int16_3x3', 'raster', ('py',), shape=(3, 3), how='command', unit='mm', cell='half', labels='uint8', dtype='int16', patterns=True)
    add('raster_int64_2x3', 'raster', ('py',), shape=(2, 3), how='tool', unit='mm', cell='half', labels='int64', dtype='float64', cost=5)
    add('refuse', 'refuse', ('py',))
    if tier != 'quick':
        add('raster_mm_3x3', 'raster', shape=(3, 3), how='tool', unit='mm', cell='up', cost=60, timeout=1500)
        add('raster_l_3x4', 'raster', shape=(3, 4), how='tool', unit='l', cell='up', cost=60, timeout=1500)
        add('raster_mm_4x4', 'raster', shape=(4, 4), how='tool', unit='mm', cell='half', cost=90, timeout=1500, top=2)
    return out
