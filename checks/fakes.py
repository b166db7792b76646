"""In-memory stand-ins for the reader and writer classes of malstroem.io (the tools only use their interface)."""
import numpy as np
from engine import h as H

DISK = None

T0 = (0.0, 1.0, 0.0, 0.0, 0.0, -1.0)


class Disk(object):
    def __init__(self):
        self.rasters = {}
        self.vectors = {}
        self.log = []

    def put(self, name, data, transform=T0, crs='CRS', nodata=None):
        self.rasters[name] = dict(data=data, transform=transform, crs=crs, nodata=nodata)


class Reader(object):
    """RasterReader on the in-memory disk"""

    def __init__(self, filepath, nodatasubst=None):
        f = DISK.rasters[filepath]
        self.filepath = filepath
        self.data = f['data']
        self.transform = f['transform']
        self.crs = f['crs']
        self.nodata = f['nodata']
        self.nodatasubst = nodatasubst
        self.shape = self.data.shape
        self.resolution = (abs(self.transform[5]), abs(self.transform[1]))

    def read(self):
        d = self.data.copy()
        if self.nodata is not None and self.nodatasubst is not None:
            for r in range(d.shape[0]):
                for c in range(d.shape[1]):
                    d[r, c] = H.ite(d[r, c] == self.nodata, self.nodatasubst, d[r, c])
        return d


class Writer(object):
    """RasterWriter on the in-memory disk"""

    def __init__(self, filepath, transform, crs, nodata=None):
        self.filepath = filepath
        self.transform = transform
        self.crs = crs
        self.nodata = nodata

    def write(self, data):
        DISK.log.append(('raster', self.filepath))
        DISK.rasters[self.filepath] = dict(data=data.copy(), transform=self.transform, crs=self.crs, nodata=self.nodata)


class VReader(object):
    def __init__(self, datasource, layername=None):
        f = DISK.vectors[datasource, layername]
        self.datasource = datasource
        self.layername = layername
        self.features = f['features']
        self.crs = f['crs']

    def read_geojson_features(self):
        return copyfeatures(self.features)


class VWriter(object):
    def __init__(self, driver, datasource, layername, fields, geomtype, crs, dsco=[], lco=[]):
        self.driver = driver
        self.datasource = datasource
        self.layername = layername
        self.geomtype = geomtype
        self.crs = crs

    def write_geojson_features(self, geojsonfeatures):
        fs = geojsonfeatures
        if isinstance(fs, dict) and fs.get('type', None) == 'FeatureCollection':
            fs = fs['features']
        DISK.log.append(('vector', (self.datasource, self.layername)))
        DISK.vectors[self.datasource, self.layername] = dict(features=copyfeatures(fs), crs=self.crs, geomtype=self.geomtype, driver=self.driver)


def copyfeatures(fs):
    return [copyjson(f) for f in fs]


def copyjson(x):
    if isinstance(x, dict):
        return {k: copyjson(x[k]) for k in x}
    if isinstance(x, (list, tuple)):
        return [copyjson(v) for v in x]
    return x


class Mem(object):
    """a reader / writer of the in-memory kind the tools accept (duck typed)"""

    def __init__(self, data=None, transform=T0, crs='CRS', nodata=None, nodatasubst=None):
        self.data = data
        self.transform = transform
        self.crs = crs
        self.nodata = nodata
        self.nodatasubst = nodatasubst
        self.writes = 0
        if data is not None:
            self.shape = data.shape
        self.resolution = (abs(transform[5]), abs(transform[1]))

    def read(self):
        return self.data.copy()

    def write(self, data):
        self.writes += 1
        self.data = data.copy()


class VMem(object):
    def __init__(self, features=None, crs='CRS'):
        self.features = features
        self.crs = crs
        self.writes = 0

    def read_geojson_features(self):
        return copyfeatures(self.features)

    def write_geojson_features(self, fs):
        self.writes += 1
        if isinstance(fs, dict) and fs.get('type', None) == 'FeatureCollection':
            fs = fs['features']
        self.features = copyfeatures(fs)
