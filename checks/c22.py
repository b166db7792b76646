"""C22: writing a raster never changes its values."""
import numpy as np
from engine import h as H
from checks import lib

PROPERTY = 'C22'
BOUNDS = ('rasters of 1x1, 1x2 and 2x2 cells; every value at every cell of bool, (u)int8 .. (u)int64 (exact integers), float16, float32, float64 and 80 bit '
          'long double (magnitudes 2^-100 .. 2^100; bit-precise IEEE arithmetic); complex and text arrays; nodata none or any number, with and without georeference; GDAL is a stand-in '
          'that records what is created and written')
OUTSIDE = 'GDAL itself; NaN and infinite cells; larger rasters (only the extremes of the data decide the type)'

# GDAL data types: name -> number, and what they hold
TYPES = {'GDT_Byte': (1, 'uint8'), 'GDT_UInt16': (2, 'uint16'), 'GDT_Int16': (3, 'int16'), 'GDT_UInt32': (4, 'uint32'), 'GDT_Int32': (5, 'int32'),
         'GDT_Float32': (6, 'float32'), 'GDT_Float64': (7, 'float64'), 'GDT_UInt64': (12, 'uint64'), 'GDT_Int64': (13, 'int64'), 'GDT_Int8': (14, 'int8')}


class Gdal(object):
    def __init__(self):
        self.created = []
        for k in TYPES:
            setattr(self, k, TYPES[k][0])

    def GetDriverByName(self, name):
        return self

    def Create(self, path, xsize, ysize, bands=1, eType=1, options=()):
        ds = Ds(path, xsize, ysize, bands, eType)
        self.created.append(ds)
        return ds


class Ds(object):
    def __init__(self, path, xsize, ysize, bands, kind):
        self.path, self.xsize, self.ysize, self.bands, self.kind = path, xsize, ysize, bands, kind
        self.transform = self.crs = self.nodata = self.data = None

    def SetGeoTransform(self, t):
        self.transform = t
        return 0

    def SetProjection(self, crs):
        self.crs = crs
        return 0

    def GetRasterBand(self, k):
        assert k == 1
        return self

    def SetNoDataValue(self, nd):
        self.nodata = nd
        return 0

    def WriteArray(self, data, xoff=0, yoff=0):
        assert xoff == 0 and yoff == 0
        self.data = data
        return 0

    def FlushCache(self):
        pass


def held(v, kind, isint):
    """kind holds the value v (an integer when isint)"""
    name = [TYPES[k][1] for k in TYPES if TYPES[k][0] == kind][0]
    dt = np.dtype(name)
    if dt.kind == 'f':
        if not isint:
            return True
        bits = 24 if name == 'float32' else 53
        m = H.ite(v < 0, 0 - v, v)
        ok = m <= 2 ** bits
        for k in range(1, 65 - bits):
            ok = H.lor(ok, H.land(m <= 2 ** (bits + k), m % 2 ** k == 0))
        return ok
    info = np.iinfo(dt)
    return H.land(v >= int(info.min), v <= int(info.max)) if isint else False


def h_write(cfg):
    from malstroem import io
    shape = cfg['shape']
    dt = np.dtype(cfg['dtype'])
    if dt.kind == 'f':
        lim = 2 ** 100 if cfg['dtype'] == 'longdouble' else None
        data = H.reals('x', shape, dt, -lim if lim else None, lim)
        if lim:
            for v in lib.cells(shape):
                H.assume(H.lor(data[v] == 0, H.lor(data[v] >= 1 / lim, data[v] <= -1 / lim)))
    elif dt.kind == 'b':
        data = H.integers('x', shape, 0, 1, np.int64).astype(bool)
    elif dt.kind in 'iu':
        info = np.iinfo(dt)
        lo, hi = cfg.get('range', (int(info.min), int(info.max)))
        data = H.integers('x', shape, lo, hi, dt)
    else:
        data = np.zeros(shape, dtype=dt)
        data[0, 0] = 1.5 if dt.kind == 'c' else '1'
    before = data.copy()
    t = H.choose('transform', ((1.0, 0.5, 0.1, 2.0, 0.2, -0.5), None))
    crs = H.choose('crs', ('CRS', None))
    nd = H.choose('nodata', (None, 0, -999, 0.5))
    io.gdal = gdal = Gdal()
    refused = False
    w = io.RasterWriter('out.tif', t, crs) if nd is None else io.RasterWriter('out.tif', t, crs, nd)
    try:
        w.write(data)
    except Exception:
        refused = True
    for v in lib.cells(shape):
        if dt.kind in 'biuf':
            H.check(data[v] == before[v], 'the array itself is not changed')
    if refused:
        H.reach('refused')
        H.check(len(gdal.created) == 0, 'nothing is written when the array is refused')
        if dt.kind in 'b' or dt in (np.dtype('float64'), np.dtype('float32'), np.dtype('int32'), np.dtype('uint32'), np.dtype('int16'), np.dtype('uint16'), np.dtype('uint8')):
            H.check(False, 'types which GDAL has are written')
        return
    H.reach('written')
    H.check(len(gdal.created) == 1, 'one file is created')
    d = gdal.created[0]
    H.check(H.land(d.path == 'out.tif', d.bands == 1), 'file and bands')
    H.check(H.land(d.ysize == shape[0], d.xsize == shape[1]), 'shape of the file')
    H.check(d.data is not None, 'data is written')
    H.check(d.transform == t, 'georeference of the file')
    H.check(d.crs == crs, 'projection of the file')
    H.check(d.nodata == nd, 'nodata value of the file')
    if d.data is None:
        return
    H.check(d.data.shape == shape, 'shape of the data')
    H.check(dt.kind in 'biuf', 'only numbers are written')
    name = [TYPES[k][1] for k in TYPES if TYPES[k][0] == d.kind][0]
    isint = dt.kind in 'biu'
    for v in lib.cells(shape):
        x = before[v]
        y = d.data[v]
        if isint:
            H.check(y == x, 'values handed to GDAL are the values of the array')
            H.check(held(x if dt.kind != 'b' else H.ite(x, 1, 0), d.kind, True), 'the type of the file holds every value')
        else:
            H.check(np.dtype(name).kind == 'f', 'the type of the file holds fractions')
            H.check(y == x, 'values handed to GDAL are the values of the array')
            # what GDAL stores
            H.check(d.data.astype(name)[v] == x, 'the type of the file holds every value')


def configs(tier):
    out = []
    shapes = ((1, 1), (1, 2), (2, 2)) if tier == 'quick' else ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3))
    for shape in shapes:
        for dt in ('bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float32', 'float64', 'longdouble', 'complex128', 'U3'):
            k = np.dtype(dt).kind
            fp = False
            if k == 'f':
                fp = 'wide' if dt == 'longdouble' else True
            if k in 'fcU' and shape == (2, 3):
                continue
            reach = ['written']
            if dt in ('int64', 'uint64', 'longdouble'):
                reach.append('refused')
            if k in 'cU':
                reach = ['refused']
            if dt == 'longdouble' and shape != (1, 1) and tier == 'quick':
                continue
            out.append(dict(name='%s_%dx%d' % (dt, shape[0], shape[1]), harness='h_write', shape=shape, dtype=dt, impls=('py',), fp=fp, reach=tuple(reach),
                            cost=20 if k == 'f' else 5))
    return out
