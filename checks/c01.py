"""C01: fill_terrain."""
import numpy as np
from engine import h as H
from checks import lib

PROPERTY = 'C01'
BOUNDS = ('every elevation at every cell of rasters 3x3 .. 4x5 / 3x8 (quick) and up to 5x5 (thorough), and of larger rasters (5x5 .. 7x7) in '
          'which some cells have a fixed elevation so that the fill needs several rounds; elevations are arbitrary reals (only their order '
          'matters to the code); Python and compiled version')
OUTSIDE = 'rasters with more symbolic cells than these; NaN and infinite elevations; rasters with fewer than 3 rows or columns'


def depressionless(dem, f):
    shape = dem.shape
    reach = {}
    inner = []
    for r, c in lib.cells(shape):
        e = lib.is_edge(shape, r, c)
        reach[r, c] = e
        if not e:
            inner.append((r, c))
    down = {}
    for r, c in inner:
        for n in lib.neighbours(shape, r, c):
            down[(r, c), n] = f[n] <= f[r, c]
    for k in range(len(inner)):
        for cell in inner:
            reach[cell] = H.lor(reach[cell], *[H.land(reach[n], down[cell, n]) for n in lib.neighbours(shape, cell[0], cell[1])])
        # in-place updates: usually stable after a few rounds; the bound is the number of interior cells
    return [reach[cell] for cell in inner]


def h_fill(cfg):
    from malstroem.algorithms import fill
    dem = lib.raster('z', cfg, np.float32)
    orig = dem.copy()
    f = fill.fill_terrain(dem)
    shape = dem.shape
    H.record('filled', f)
    H.check(f.shape == shape, 'shape of the filled raster')
    raised = False
    for r, c in lib.cells(shape):
        H.check(dem[r, c] == orig[r, c], 'input raster unchanged')
        H.check(f[r, c] >= dem[r, c], 'filled >= dem')
        if lib.is_edge(shape, r, c):
            H.check(f[r, c] == dem[r, c], 'edge unchanged')
        else:
            for n in lib.neighbours(shape, r, c):
                H.check(H.lor(f[r, c] <= dem[r, c], f[r, c] <= f[n]), 'raised no higher than necessary')
    for ok in depressionless(dem, f):
        H.check(ok, 'non-uphill path to the edge')
    H.reach('done')


SPIRAL = ['000000',
          '09.9.0',
          '09.9.9',
          '09...9',
          '099999',
          '000000']

# corridors which the four sweeps of a round fill only partly
ZIG = ['9999999',
       '9.....9',
       '99999.9',
       '9.....9',
       '9.99999',
       '9......',
       '9999999']
RING = ['99999', '9...9', '9.9.9', '9...9', '99.99']
HALF = ['.....', '.9.9.', '.....', '.9.9.', '.....']
LONG = ['999999999', '9.......0', '999999999']
U = ['9999999', '9.9.9.9', '9.....9', '9.9.9.9', '999.999']


def configs(tier):
    out = []
    both = ('py', 'cy')

    def full(n, m, cost=1, **kw):
        out.append(dict(name='full_%dx%d' % (n, m), shape=(n, m), harness='h_fill', impls=both, reach=['done'], cost=cost, unwind=2 * n * m, **kw))

    def pat(name, p, cost=1, **kw):
        out.append(dict(name=name, pattern=p, harness='h_fill', impls=both, reach=['done'], cost=cost, unwind=60, **kw))
    for n, m in ((3, 3), (3, 4), (4, 3), (4, 4), (3, 6), (6, 3)):
        full(n, m, cost=n * m)
    pat('spiral', SPIRAL, 30)
    pat('ring', RING, 20)
    pat('long', LONG, 5)
    pat('zigzag', ZIG, 40)
    pat('comb', U, 40)
    if tier == 'thorough':
        full(4, 5, 60, timeout=1500, budget=1500)
        full(5, 4, 60, timeout=1500, budget=1500)
        full(3, 8, 50, timeout=900, budget=900)
        full(5, 5, 90, timeout=3000, budget=3000)
        pat('half', HALF, 60, timeout=1500, budget=1500)
    return out
