"""C23: the complete command equals the documented chain of subcommands.  The harness of C25 uses run_complete."""
import numpy as np
from engine import h as H
from checks import fakes, lib

PROPERTY = 'C23'
BOUNDS = ('the complete command and the documented chain of subcommands run in one path-wise symbolic execution on the same inputs (in-memory stand-ins for '
          'GDAL rasters and OGR layers): terrain patterns of 4x4 to 5x6 cells with one, two and three bluespots in cascade, up to four elevations '
          '(pits, rims, sills) symbolic over real ranges that change the drainage, every rain up to 5000 mm, resolutions 0.25 and 0.6, no filter / area, '
          'volume and depth filters, with and without accumulated flow and vector outputs, nodata values below, above and inside the range of elevations')
OUTSIDE = ('GDAL / OGR file access (C21, C22; polygons: C27) - the polygonised rasters are compared instead; other terrains; the value of the safe drops '
           '(a stand-in that depends on the terrain given); a rain of 0 mm, which initvolumes refuses; nodata metadata of the depths and flow direction '
           'files, which the chain sets to -999')

OUT = 'out'
T = (100.0, 2.0, 0.0, 50.0, 0.0, -2.0)


def safe(dem):
    """stand-in for the safe drops: any function of the terrain will do"""
    short = 0.00390625
    for v in lib.cells(dem.shape):
        if dem[v] > 40:
            short = 0.0078125
    return short, short * 1.5


def polys(path):
    lab = fakes.DISK.rasters[path]['data']
    return [dict(type='Feature', geometry=None, properties=dict(bspot_id=lab[v], cell=v)) for v in lib.cells(lab.shape)]


def polys_io(labeled_file, out_ds, out_layer, out_format, out_dsco=[], out_lco=[], id_attribute='bspot_id', quiet=False):
    fakes.DISK.vectors[out_ds, out_layer] = dict(features=polys(labeled_file), crs=fakes.DISK.rasters[labeled_file]['crs'])


def stubs(entries=()):
    from malstroem import bluespots, io
    from malstroem.algorithms import fill
    from malstroem.scripts import bluespot, complete
    fill.minimum_safe_short_and_diag = safe
    io.RasterReader, io.RasterWriter, io.VectorReader, io.VectorWriter = fakes.Reader, fakes.Writer, fakes.VReader, fakes.VWriter
    bluespots.vectorize_labels_file = polys
    bluespot.vectorize_labels_file_io = polys_io
    complete.vectorize_labels_file_io = polys_io


def chain(dem, mm, zresolution, accum, flt, vector):
    from malstroem.scripts import bluespot, dem as demcmd, finalstate, hyps, initvolume, stream
    v = 'results.gpkg'
    demcmd.process_filled.callback(dem, 'filled.tif')
    demcmd.process_depths.callback(dem, 'filled.tif', 'depths.tif')
    demcmd.process_flowdir.callback(dem, 'flowdir.tif')
    if accum:
        demcmd.process_accum.callback('flowdir.tif', 'accum.tif')
    bluespot.process_bspots.callback('depths.tif', 'bluespots.tif', flt)
    bluespot.process_wsheds.callback('bluespots.tif', 'flowdir.tif', 'wsheds.tif')
    bluespot.process_pourpoints.callback('bluespots.tif', 'depths.tif', 'wsheds.tif', dem, 'accum.tif' if accum else None, v, 'gpkg', 'pourpoints', (), ())
    hyps.process_hypsometry.callback('bluespots.tif', dem, v, 'pourpoints', zresolution, v, 'hyps', 'gpkg', (), ())
    stream.process_network.callback('bluespots.tif', 'flowdir.tif', v, 'pourpoints', v, 'nodes', 'streams', 'gpkg', (), ())
    initvolume.process_volumes.callback(v, 'nodes', mm, None, None, None, v, 'initvolumes', 'inputv', 'gpkg', (), ())
    finalstate.process_net.callback(v, 'initvolumes', 'inputv', v, 'finalvolumes', 'gpkg', (), ())
    finalstate.process_finallevels.callback(v, 'finalvolumes', v, 'hyps', v, 'finallevels', 'gpkg', (), ())
    finalstate.process_bluespots.callback('bluespots.tif', dem, v, 'finallevels', 'final_depths.tif', 'final_bluespots.tif')
    bluespot.process_polys.callback('final_bluespots.tif', v, 'gpkg', 'finalpolygons', (), ())
    if vector:
        bluespot.process_polys.callback('bluespots.tif', v, 'gpkg', 'bluespots', (), ())
        bluespot.process_polys.callback('wsheds.tif', v, 'gpkg', 'watersheds', (), ())


RASTERS = {'filled.tif': 'filled.tif', 'flowdir.tif': 'flowdir.tif', 'bs_depths.tif': 'depths.tif', 'accum.tif': 'accum.tif',
           'watersheds.tif': 'wsheds.tif', 'bluespots.tif': 'bluespots.tif', 'finaldepths.tif': 'final_depths.tif', 'finalbluespots.tif': 'final_bluespots.tif'}
VECTORS = {'pourpoints': 'pourpoints', 'nodes': 'nodes', 'streams': 'streams', 'initvolumes': 'initvolumes', 'finalstate': 'finalvolumes', 'hypsometry': 'hyps',
           'finallevels': 'finallevels', 'finalbluespots': 'finalpolygons', 'bluespots': 'bluespots', 'watersheds': 'watersheds'}


def eq(a, b):
    if isinstance(a, dict):
        if not isinstance(b, dict) or sorted(a) != sorted(b):
            return False
        return H.land(True, *[eq(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        return H.land(True, *[eq(a[i], b[i]) for i in range(len(a))])
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return H.land(type(a) == type(b), a == b)
    return H.same(a, b)


def base(path):
    return path[len(OUT) + 1:]


def run_complete(disk, dem, outdir, accum, flt, mm, zres, vector):
    from malstroem.scripts import complete
    fakes.DISK = disk
    return complete.process_all.callback(dem, outdir, accum, flt, mm, zres, vector)


def h_chain(cfg):
    import os
    stubs()
    pat = cfg['pattern']
    shape = (len(pat), len(pat[0]))
    dem = np.zeros(shape, dtype=np.float32)
    nd = cfg.get('nodata')
    for v in lib.cells(shape):
        ch = pat[v[0]][v[1]]
        if ch in cfg.get('vars', {}):
            lo, hi = cfg['vars'][ch]
            dem[v] = H.real('z_%d_%d' % v, lo, hi)
        elif ch == '#':
            dem[v] = nd
        else:
            dem[v] = '0123456789abcdefghij'.index(ch)
    mm = cfg.get('mm')
    if mm is None:
        mm = H.real('mm', 0, 5000)
        H.assume(mm > 0)
    zres = cfg.get('zres', 0.6)
    flt = H.choose('filter', cfg.get('filters', (None, 'area > 5')))
    accum = H.choose('accum', cfg.get('accum', (False, True)))
    vector = cfg.get('vector', True)
    a, b = fakes.Disk(), fakes.Disk()
    for d in (a, b):
        d.put('dem.tif', dem.copy(), T, nodata=nd)
    if H.symbolic():
        os.path.isdir = yes
        os.path.exists = yes
        os.listdir = nothing
        outdir = OUT
        run_complete(a, 'dem.tif', outdir, accum, flt, mm, zres, vector)
    else:
        import tempfile
        with tempfile.TemporaryDirectory() as outdir:
            run_complete(a, 'dem.tif', outdir, accum, flt, mm, zres, vector)
    fakes.DISK = b
    chain('dem.tif', mm, zres, accum, flt, vector)
    n = 1
    for name in RASTERS:
        if name == 'accum.tif' and not accum:
            continue
        ra = a.rasters.get(os.path.join(outdir, name))
        rb = b.rasters.get(RASTERS[name])
        H.check(ra is not None, 'raster %s is written' % name)
        n = n + 1
        if ra is None:
            continue
        H.check(ra['data'].shape == rb['data'].shape, 'raster %s has the shape of the chain' % name)
        H.check(H.land(True, *[H.same(ra['data'][v], rb['data'][v]) for v in lib.cells(shape)]), 'raster %s is the one of the chain' % name)
        H.check(H.land(tuple(ra['transform']) == tuple(rb['transform']), ra['crs'] == rb['crs']), 'raster %s is georeferenced like the chain' % name)
        if name not in ('bs_depths.tif', 'flowdir.tif'):
            H.check(ra['nodata'] == rb['nodata'], 'raster %s has the nodata value of the chain' % name)
    H.check(len(a.rasters) == n, 'no other raster is written')
    m = 0
    for name in VECTORS:
        if name in ('bluespots', 'watersheds') and not vector:
            continue
        va = a.vectors.get((os.path.join(outdir, 'malstroem.gpkg'), name))
        vb = b.vectors.get(('results.gpkg', VECTORS[name]))
        H.check(va is not None, 'layer %s is written' % name)
        m = m + 1
        if va is None:
            continue
        H.check(va['crs'] == vb['crs'], 'layer %s has the crs of the chain' % name)
        H.check(len(va['features']) == len(vb['features']), 'layer %s has the features of the chain' % name)
        H.check(eq(va['features'], vb['features']), 'layer %s is the one of the chain' % name)
    H.check(len(a.vectors) == m, 'no other layer is written')
    H.record('n', len(b.vectors['results.gpkg', 'nodes']['features']))
    H.reach('done')


def yes(path):
    return True


def nothing(path='.'):
    return []


def configs(tier):
    out = []

    def add(name, **kw):
        kw['name'] = name
        kw['harness'] = 'h_chain'
        kw['fork'] = True
        kw['forkvals'] = True
        kw.setdefault('impls', ('py',))
        kw['reach'] = ('done',)
        kw['unwind'] = 400
        kw.setdefault('cost', 60)
        kw.setdefault('budget', 380 if tier == 'quick' else 4000)
        out.append(kw)
    # a pit, a sill, a rim: every rain
    for k, (fl, ac, pat, vs) in enumerate(((None, False, ('5555', '5p15', '5324', '5555'), {'p': (0, 3)}), ('area > 5', True, ('5555', '5115', '53x4', '5555'), {'x': (0, 6)}),
                                          ('maxdepth > 2 or volume > 40', False, ('5555', '5215', '5313', '5r55'), {'r': (0, 6)}),
                                          (None, True, ('55555', '51x25', '55455'), {'x': (0, 6)}))):
        add('one%d' % k, pattern=pat, vars=vs, filters=(fl,), accum=(ac,), vector=k % 2 == 0, zres=0.6 if k < 2 else 0.25)
    # nodata above the terrain, below it and within it
    for nd in (50.0, -9999.0, 3.0):
        add('nodata%d' % nd, pattern=('55555', '512#5', '531x5', '55555'), vars={'x': (2.5, 6)}, nodata=nd, filters=(None,), accum=(False,), zres=2.5)
    add('nodata-edge', pattern=('55555', 'x112#', '55555'), vars={'x': (0, 6)}, nodata=50.0, filters=(None,), accum=(False,), zres=0.6)
    # two bluespots in cascade
    add('two', pattern=('777777', '71623s', '777773'), vars={'s': (0, 8)}, filters=(None,), accum=(False,), zres=2.5)
    add('filter', pattern=('777777', '71r237', '777773'), vars={'r': (2, 7)}, filters=('volume > 14',), accum=(True,), zres=2.5)
    # two elevations, given rain
    add('pair0', pattern=('5555', '5p15', '53x4', '5555'), vars={'p': (0, 3), 'x': (0, 6)}, filters=(None,), accum=(False,), zres=2.5, mm=400.0)
    add('pair1', pattern=('77777', '717s7', '76r17', '77777'), vars={'r': (2, 7), 's': (2, 8)}, filters=('maxdepth > 2',), accum=(False,), zres=2.5, mm=700.0)
    return out
