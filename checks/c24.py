"""C24: outputs are georeferenced like the inputs, at cell centres."""
import numpy as np
from engine import h as H
from checks import c23, fakes, lib

PROPERTY = 'C24'
BOUNDS = ('cell to world: every geotransform (six reals, rotated ones included), every row and column up to 10^6; the complete command and the chain of '
          'subcommands on 4x4 .. 4x6 terrains with junctions: every origin and rotation term, pixel sizes 1x-1, 0.4x-0.4, 0.4x0.4 and -3x-3, every '
          'output raster and layer; writers and polygonisation: calls made to GDAL / OGR (stand-ins)')
OUTSIDE = 'what GDAL and OGR do with the georeference they are given; other terrains'

SIZES = ((1.0, -1.0), (0.4, -0.4), (0.4, 0.4), (-3.0, -3.0))


def centre(t, r, c):
    return t[0] + (c + 0.5) * t[1] + (r + 0.5) * t[2], t[3] + (c + 0.5) * t[4] + (r + 0.5) * t[5]


def same2(g, w):
    return H.land(len(g) == 2, H.same(g[0], w[0]), H.same(g[1], w[1]))


def h_cell(cfg):
    from malstroem import bluespots, vector
    t = tuple([H.real('t%d' % k) for k in range(6)])
    if cfg.get('free'):
        # bilinear terms: one of row, column and transform symbolic at a time
        r, c = H.choose('cell', ((0, 0), (0, 7), (5, 0), (123456, 654321), (3, 2)))
    else:
        t = H.choose('t', ((10.0, 0.5, 0.25, 20.0, -0.125, -0.5), (0.0, -2.0, 0.0, 3.0, 0.0, 2.0), (1.0, 0.0, 2.0, 4.0, 2.0, 0.0)))
        r, c = H.integer('r', 0, 10 ** 6), H.integer('c', 0, 10 ** 6)
    if cfg['what'] == 'cell':
        cell = (r, c, 9) if H.choose('three', (False, True)) else (r, c)
        H.check(same2(vector.transform_cell_to_world(cell, t), centre(t, r, c)), 'world coordinate of a cell is the image of its centre')
        return
    if cfg.get('free'):
        w, h = H.choose('size', SIZES)
        t = (t[0], w, t[2], t[3], t[4], h)
    elif t[1] == 0:
        return
    stats = [dict(min=0.5, max=2.0, sum=3.0, count=4)] * 2
    pps = bluespots.assemble_pourpoints(t, [dict(row=r, col=c), dict(row=c, col=r)], stats, [7, 9])
    for k, (i, j) in ((0, (r, c)), (1, (c, r))):
        f = [f for f in pps if f['properties']['bspot_id'] == k][0]
        H.check(same2(f['geometry']['coordinates'], centre(t, i, j)), 'pour point is at the centre of its cell')
        H.check(H.land(f['properties']['cell_row'] == i, f['properties']['cell_col'] == j), 'pour point has its row and column')


def h_all(cfg):
    """every output of the complete command and of the chain"""
    import os
    c23.stubs()
    pat = cfg['pattern']
    shape = (len(pat), len(pat[0]))
    dem = np.array([['0123456789abcdefghij'.index(ch) for ch in row] for row in pat], dtype=np.float32)
    w, h = H.choose('size', cfg['sizes'])
    t = (H.real('t0'), w, H.real('t2'), H.real('t3'), H.real('t4'), h)
    disk = fakes.Disk()
    disk.put('dem.tif', dem, t, crs='CRS of the dem', nodata=cfg.get('nodata'))
    flt = cfg.get('filter')
    accum = H.choose('accum', (False, True))
    if cfg['how'] == 'complete':
        if H.symbolic():
            os.path.isdir = c23.yes
            os.path.exists = c23.yes
            os.listdir = c23.nothing
            c23.run_complete(disk, 'dem.tif', c23.OUT, accum, flt, 60.0, 0.5, True)
        else:
            import tempfile
            with tempfile.TemporaryDirectory() as outdir:
                c23.run_complete(disk, 'dem.tif', outdir, accum, flt, 60.0, 0.5, True)
    else:
        fakes.DISK = disk
        c23.chain('dem.tif', 60.0, 0.5, accum, flt, True)
    n = 0
    for name in disk.rasters:
        d = disk.rasters[name]
        n = n + 1
        H.check(H.land(len(d['transform']) == 6, *[H.same(a, b) for a, b in zip(d['transform'], t)]), 'rasters have the geotransform of the DEM')
        H.check(d['crs'] == 'CRS of the dem', 'rasters have the coordinate system of the DEM')
        H.check(d['data'].shape == shape, 'rasters have the shape of the DEM')
    H.check(n == (9 if accum else 8), 'all rasters are written')
    pts, lines, pps = {}, [], {}
    for ds, name in disk.vectors:
        d = disk.vectors[ds, name]
        H.check(d['crs'] == 'CRS of the dem', 'layers have the coordinate system of the DEM')
        for f in d['features']:
            p, g = f['properties'], f['geometry']
            if name == 'pourpoints':
                H.check(same2(g['coordinates'], centre(t, p['cell_row'], p['cell_col'])), 'pour points are at the centre of their cell')
                pps[p['bspot_id']] = g['coordinates']
            elif name == 'nodes':
                pts[p['nodeid']] = (g['coordinates'], p)
            elif name == 'streams':
                lines.append(f)
    H.check(len(pts) > 0, 'there are nodes')
    for k in pts:
        g, p = pts[k]
        if p['nodetype'] == 'pourpoint':
            H.check(same2(g, pps[p['bspot_id']]), 'nodes are at their pour point')
        H.check(H.lor(*[same2(g, centre(t, v[0], v[1])) for v in lib.cells(shape)]), 'nodes are at the centre of a cell')
    for f in lines:
        p, cs = f['properties'], f['geometry']['coordinates']
        H.check(same2(cs[0], pts[p['nodeid']][0]), 'streams start at their node')
        if p.get('dstrnodeid') is not None:
            H.check(same2(cs[-1], pts[p['dstrnodeid']][0]), 'streams end at the downstream node')
        for g in cs:
            H.check(H.lor(*[same2(g, centre(t, v[0], v[1])) for v in lib.cells(shape)]), 'stream vertices are at the centre of a cell')
    for name in ('initvolumes', 'finalstate', 'finalvolumes'):
        for ds, nm in disk.vectors:
            if nm == name:
                for f in disk.vectors[ds, nm]['features']:
                    H.check(same2(f['geometry']['coordinates'], pts[f['properties']['nodeid']][0]), 'results are at their node')
    H.reach('done')


class Calls(object):
    """stand-in for gdal, ogr and osr: remembers what layers and rasters are created with"""
    wkbPolygon, wkbPoint, wkbNone, OFTInteger, GA_Update, TermProgress_nocb = 3, 1, 100, 0, 1, None

    def __init__(self, exists):
        self.exists = exists
        self.layers = []
        self.polygonized = []
        self.srs = 'SRS of %s'

    # gdal / ogr
    def Open(self, name, update=0):
        if update or name.endswith('.gpkg'):
            if not self.exists:
                raise RuntimeError('no such datasource')
            return Target(self)
        return Source(self)

    def OpenEx(self, name, *args, **kw):
        return self.Open(name)

    def PushErrorHandler(self, *args):
        pass

    def PopErrorHandler(self):
        pass

    def GetDriverByName(self, name):
        return self

    def CreateDataSource(self, name, options=()):
        return Target(self)

    def FieldDefn(self, name, kind):
        return name

    def Polygonize(self, band, mask, layer, field, options, callback=None):
        self.polygonized.append((band, layer, field, list(options)))
        return 0

    # osr
    def SpatialReference(self, wkt=None):
        return Srs(wkt)


class Srs(object):
    def __init__(self, wkt):
        self.wkt = wkt

    def ImportFromWkt(self, wkt):
        self.wkt = wkt
        return 0

    def ExportToWkt(self):
        return self.wkt


class Source(object):
    def __init__(self, calls):
        self.calls = calls

    def GetSpatialRef(self):
        return Srs('CRS of the raster')

    def GetProjection(self):
        return 'CRS of the raster'

    def GetProjectionRef(self):
        return 'CRS of the raster'

    def GetRasterBand(self, k):
        return Band(k)


class Band(object):
    def __init__(self, k):
        self.k = k

    def GetMaskBand(self):
        return ('mask', self.k)


class Target(object):
    def __init__(self, calls):
        self.calls = calls

    def GetLayerByName(self, name):
        return None

    def CreateLayer(self, name, srs=None, geom_type=0, options=()):
        self.calls.layers.append((name, srs, geom_type))
        return Layer()


class Layer(object):
    def CreateField(self, f):
        return 0


def h_layers(cfg):
    """what the OGR layers are created with"""
    from malstroem import io, vector
    calls = Calls(H.choose('exists', (False, True)))
    try:
        if cfg['what'] == 'polys':
            vector.gdal = vector.ogr = calls
            vector.vectorize_labels_file_io('labels.tif', 'out.gpkg', 'lay', 'gpkg', quiet=H.choose('quiet', (False, True)))
            want = 'CRS of the raster'
        else:
            io.gdal = io.ogr = io.osr = calls
            geom = H.choose('geom', (Calls.wkbPoint, Calls.wkbNone))
            want = 'CRS given'
            io.VectorWriter('gpkg', 'out.gpkg', 'lay', None, geom, want)._init_datasource()
    except (AttributeError, TypeError):
        # an interface of GDAL which the stand-in does not have
        return
    H.check(len(calls.layers) == 1, 'one layer is created')
    name, srs, geom = calls.layers[0]
    H.check(name == 'lay', 'the layer has the name given')
    H.check(srs is not None and srs.ExportToWkt() == want, 'the layer has the coordinate system of its source')
    H.reach('layer')


def configs(tier):
    out = []
    for what in ('cell', 'pourpoint'):
        for free in (True, False):
            out.append(dict(name='%s-%s' % (what, 'transform' if free else 'cell'), harness='h_cell', what=what, free=free, impls=('py',), cost=5))
    for what in ('polys', 'writer'):
        out.append(dict(name='layers-' + what, harness='h_layers', what=what, impls=('py',), fork=True, cost=5))
    pats = {'two': ('777777', '713237', '777773'), 'rows': ('5555', '5125', '5555', '5135', '5545'), 'junction': ('5555555', '5155155', '5253525', '5554555'), 'one': ('5555', '5115', '5324', '5555')}
    for how in ('complete', 'chain'):
        for nm in pats:
            out.append(dict(name='%s-%s' % (how, nm), harness='h_all', how=how, pattern=pats[nm], sizes=SIZES, impls=('py',), fork=True, forkvals=True,
                            reach=('done',), cost=40, unwind=400, budget=380))
    return out
