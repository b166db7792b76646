"""C21: nodata cells, and only those, get the substitute."""
import numpy as np
from engine import h as H
from checks import lib

PROPERTY = 'C21'
BOUNDS = ('rasters of 1x3 and 2x2 cells, every stored value at every cell (NaN included), nodata: none, NaN, 0 and every real; substitute: none, 0 and '
          'every real; float32, float64, int16, int32 and uint8 data (integer substitutes that the type can hold); the dataset is a stand-in for GDAL')
OUTSIDE = ('GDAL itself; infinite cells and infinite nodata; cells whose distance from the nodata value is within 5 % of the comparison tolerance '
           '1e-8 + 1e-5 * |nodata| (the reader may treat them either way); larger rasters (the reader treats cells independently)')


class Gdal(object):
    """stand-in for osgeo.gdal: one dataset with one band"""
    GA_ReadOnly = 0

    def __init__(self, data, nodata):
        self.data, self.nodata = data, nodata

    def Open(self, path, *args):
        return Ds(self)

    def OpenEx(self, path, *args, **kw):
        return Ds(self)


class Ds(object):
    def __init__(self, g):
        self.g = g
        self.RasterYSize, self.RasterXSize = g.data.shape
        self.RasterCount = 1

    def GetRasterBand(self, k):
        assert k == 1
        return Bnd(self.g)

    def GetGeoTransform(self, *args, **kw):
        return (10.0, 2.0, 0.5, 20.0, 0.25, -3.0)

    def GetProjection(self):
        return 'CRS'

    def GetProjectionRef(self):
        return 'CRS'

    def ReadAsArray(self, *args, **kw):
        return self.g.data.copy()


class Bnd(object):
    def __init__(self, g):
        self.g = g

    def GetNoDataValue(self):
        return self.g.nodata

    def ReadAsArray(self, *args, **kw):
        return self.g.data.copy()


def h_read(cfg):
    from malstroem import io
    shape = cfg['shape']
    dt = np.dtype(cfg['dtype'])
    isfloat = dt.kind == 'f'
    if isfloat:
        data = H.reals('x', shape, dt)
        nans = {}
        for v in lib.cells(shape):
            nans[v] = H.boolean('nan_%d_%d' % v) if cfg['nodata'] == 'nan' or v == (0, 0) else False
            data[v] = H.ite(nans[v], H.nan(), data[v])
    else:
        info = np.iinfo(dt)
        data = H.integers('x', shape, int(info.min), int(info.max), dt)
        nans = {v: False for v in lib.cells(shape)}
    nd = {'none': None, 'nan': float('nan'), 'zero': 0.0, 'real': 0.0}[cfg['nodata']]
    if cfg['nodata'] == 'real':
        if isfloat:
            nd = H.real('nodata')
        else:
            nd = float(H.choose('nodata', cfg['values']))
    how = cfg.get('subst', 'real')
    sub = None
    if how == 'real':
        sub = H.real('subst', -10000, 10000) if isfloat else H.integer('subst', *cfg['range'])
    elif how == 'zero':
        sub = 0
    before = data.copy()
    io.gdal = Gdal(data, nd)
    r = io.RasterReader('dem.tif') if how == 'none' else io.RasterReader('dem.tif', nodatasubst=sub)
    got = r.read()
    H.check(got.shape == shape, 'shape of the data')
    H.check(got.dtype == dt, 'type of the data')
    H.check(tuple(r.shape) == shape, 'shape of the reader')
    H.check(tuple(r.transform) == (10.0, 2.0, 0.5, 20.0, 0.25, -3.0), 'transform of the reader')
    H.check(r.crs == 'CRS', 'coordinate system of the reader')
    H.check(tuple(r.resolution) == (3.0, 2.0), 'resolution of the reader (height, width)')
    again = r.read()
    for v in lib.cells(shape):
        x = before[v]
        if sub is None or nd is None:
            hit, far = False, True
        elif cfg['nodata'] == 'nan':
            hit, far = nans[v], H.lnot(nans[v])
        else:
            d = H.ite(nans[v], 0.0, x) - nd
            a = H.ite(d < 0, 0 - d, d)
            m = H.ite(nd < 0, 0 - nd, nd)
            tol = 1e-8 + 1e-5 * m
            hit = H.land(H.lnot(nans[v]), a <= 0.95 * tol)
            far = H.lor(nans[v], a > 1.05 * tol)
        kept = H.lor(H.land(nans[v], H.isnan(got[v])), H.land(H.lnot(nans[v]), got[v] == x))
        H.check(H.implies(far, kept), 'cells with data are unchanged')
        if sub is not None:
            H.check(H.implies(hit, got[v] == sub), 'nodata cells get the substitute')
            H.check(H.lor(kept, got[v] == sub), 'a cell is unchanged or gets the substitute')
        H.check(H.lor(H.land(H.isnan(got[v]), H.isnan(again[v])), got[v] == again[v]), 'reading again gives the same')
    H.reach('done')


def configs(tier):
    out = []

    def add(**kw):
        kw['name'] = '%s_%s_%s_%s' % (kw['dtype'], kw['nodata'], kw.get('subst', 'real'), 'x'.join(str(n) for n in kw['shape']))
        out.append(dict(kw, harness='h_read', impls=('py',), nan=np.dtype(kw['dtype']).kind == 'f' or kw['nodata'] == 'nan', reach=('done',), cost=5))
    shapes = ((1, 3), (2, 2)) if tier == 'quick' else ((1, 3), (2, 2), (2, 3), (3, 3))
    for shape in shapes:
        for dt in ('float32', 'float64'):
            for nd in ('none', 'nan', 'zero', 'real'):
                for sub in ('real', 'none', 'zero'):
                    add(shape=shape, dtype=dt, nodata=nd, subst=sub)
        for dt, vals, rng in (('int16', (-32768, 0, 7), (-9999, 9999)), ('int32', (-999, 0, 2147483647), (-9999, 9999)), ('uint8', (0, 255, 8), (0, 255))):
            for nd in ('none', 'zero', 'real', 'nan'):
                for sub in ('real', 'none'):
                    add(shape=shape, dtype=dt, nodata=nd, subst=sub, values=vals, range=rng)
    return out
