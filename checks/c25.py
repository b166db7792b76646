"""C25: the complete command refuses a non-empty output directory."""
import os
import numpy as np
from engine import h as H
from checks import c23, fakes, lib

PROPERTY = 'C25'
BOUNDS = ('every state of the output path: existence, kind and presence of each of three possible entries are symbolic booleans, any entry being a file, a '
          'hidden file, a directory or the output of an earlier run; with and without accumulated flow, vector output and filter; DEM cells and rain '
          'symbolic where the command runs')
OUTSIDE = 'what the file system does between the check and the first write; the click layer, which refuses a path that does not exist by itself'

ENTRIES = ('.hidden', 'malstroem.gpkg', 'sub')


def h_refuse(cfg):
    c23.stubs()
    exists = H.boolean('exists')
    isdir = H.boolean('isdir')
    H.assume(H.implies(isdir, exists))
    present = [H.boolean('entry%d' % k) for k in range(3)]
    for p in present:
        H.assume(H.implies(p, isdir))
    accum, vector = cfg.get('accum', False), cfg.get('vector', False)
    dem = np.array([[5, 5, 5], [5, 1, 5], [5, 4, 5]], dtype=np.float32)
    dem[1, 1] = H.real('z', 0, 3)
    disk = fakes.Disk()
    disk.put('dem.tif', dem, c23.T)
    mm = H.real('mm', 1, 5000)
    if H.symbolic():
        outdir = c23.OUT
        world = World(exists, isdir, present)
        os.path.isdir = world.isdir
        os.path.exists = world.exists
        os.path.isfile = world.isfile
        os.listdir = world.listdir
        os.scandir = world.listdir
        rc = run(disk, outdir, accum, vector, mm)
    else:
        import tempfile
        with tempfile.TemporaryDirectory() as tmp:
            outdir = os.path.join(tmp, 'out')
            if isdir:
                os.mkdir(outdir)
                for k in range(3):
                    if present[k]:
                        if k == 2:
                            os.mkdir(os.path.join(outdir, ENTRIES[k]))
                        else:
                            open(os.path.join(outdir, ENTRIES[k]), 'w').close()
            elif exists:
                open(outdir, 'w').close()
            rc = run(disk, outdir, accum, vector, mm)
    ok = H.land(isdir, H.lnot(H.lor(*present)))
    done = len(disk.rasters) > 1
    if done:
        H.reach('run')
        H.check(ok, 'processing needs an existing empty directory')
        for name in disk.rasters:
            H.check(name == 'dem.tif' or os.path.dirname(name) == outdir, 'rasters are written inside the output directory')
        for ds, layer in disk.vectors:
            H.check(os.path.dirname(ds) == outdir, 'layers are written inside the output directory')
    else:
        H.reach('refused')
        H.check(H.lnot(ok), 'an existing empty directory is accepted')
        H.check(len(disk.vectors) == 0, 'nothing is written')
        H.check(len(disk.log) == 0, 'nothing is written')


def run(disk, outdir, accum, vector, mm):
    try:
        return c23.run_complete(disk, 'dem.tif', outdir, accum, None, mm, 0.5, vector)
    except Exception:
        # refusing by an exception is as good
        return 'raised'


class World(object):
    def __init__(self, exists, isdir, present):
        self.e, self.d, self.p = exists, isdir, present

    def exists(self, path):
        return self.e

    def isdir(self, path):
        return self.d

    def isfile(self, path):
        return H.land(self.e, H.lnot(self.d))

    def listdir(self, path='.'):
        if not self.e:
            raise FileNotFoundError(path)
        if not self.d:
            raise NotADirectoryError(path)
        out = []
        for k in range(3):
            if self.p[k]:
                out.append(ENTRIES[k])
        return out


def configs(tier):
    out = []
    for ac in (False, True):
        for ve in (False, True):
            out.append(dict(name='refuse%d%d' % (ac, ve), harness='h_refuse', fork=True, forkvals=True, impls=('py',), accum=ac, vector=ve,
                            reach=('run', 'refused'), unwind=400, cost=20, budget=300))
    return out
