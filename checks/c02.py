"""C02: fill_terrain_no_flats and the safe minimum drops."""
import numpy as np
from engine import h as H
from checks import c01, lib

PROPERTY = 'C02'
BOUNDS = ('fill: every elevation at every cell of rasters 3x3 .. 4x5 and 3x7 (thorough: 5x5, 4x6, 3x10) with every positive drop pair '
          '(symbolic), and larger rasters with some fixed cells and fixed drops; exact real arithmetic; both implementations. Safe drops: '
          'bit-precise IEEE arithmetic, every finite float32 elevation pair and every float64 elevation pair below 2^900, every elevation '
          'of at most that magnitude (all 2^64 bit patterns)')
OUTSIDE = ('float rounding inside the fill sweeps (covered only by the safe-drop result); rasters with more symbolic cells; zero drops; '
           'that minimum_safe_short_and_diag reduces over all cells is shown for rasters of one and two cells')


def h_noflats(cfg):
    from malstroem.algorithms import fill
    dem = lib.raster('z', cfg, np.float32)
    if cfg.get('inc') == 'sym':
        short = H.real('short', 0)
        diag = H.real('diag', 0)
        H.assume(short > 0)
        H.assume(diag > 0)
    else:
        short, diag = cfg['inc']
    orig = dem.copy()
    f = fill.fill_terrain_no_flats(dem, short, diag)
    shape = dem.shape
    H.record('filled', f)
    H.check(f.shape == shape, 'shape of the filled raster')
    for r, c in lib.cells(shape):
        H.check(dem[r, c] == orig[r, c], 'input raster unchanged')
        H.check(f[r, c] >= dem[r, c], 'filled >= dem')
        if lib.is_edge(shape, r, c):
            H.check(f[r, c] == dem[r, c], 'edge unchanged')
        else:
            ok = []
            need = []
            for k in range(8):
                a, b = lib.DIRS[k]
                inc = diag if a and b else short
                ok.append(H.leq(f[r + a, c + b] + inc, f[r, c]))
                need.append(H.leq(f[r, c], f[r + a, c + b] + inc))
            H.check(H.lor(*ok), 'interior cell above a neighbour by the required drop')
            H.check(H.lor(f[r, c] <= dem[r, c], H.land(*need)), 'raised no higher than necessary')
    H.reach('done')


def h_safe(cfg):
    from malstroem.algorithms import fill
    dem = H.reals('z', cfg['shape'], cfg['dtype'])
    for r, c in lib.cells(cfg['shape']):
        H.assume(H.land(dem[r, c] <= 2.0 ** 900, -2.0 ** 900 <= dem[r, c]))
    short, diag = fill.minimum_safe_short_and_diag(dem)
    H.record('short', short)
    H.record('diag', diag)
    # any elevation the no-flats fill can meet: magnitude up to that of the most extreme elevation
    z = H.reals('y', (1,), np.float64)[0]
    top = dem[0, 0]
    ext = False
    for r, c in lib.cells(cfg['shape']):
        ext = H.lor(ext, H.land(z <= dem[r, c], -dem[r, c] <= z), H.land(z <= -dem[r, c], dem[r, c] <= z))
    H.assume(ext)
    H.check(short > 0, 'short is positive')
    H.check(diag > short, 'diag is larger than short')
    H.check(z + short > z, 'adding short raises every elevation')
    H.check(z + diag > z, 'adding diag raises every elevation')
    H.reach('done')


def configs(tier):
    out = []
    both = ('py', 'cy')

    def full(n, m, cost=1, inc='sym', **kw):
        out.append(dict(name='full_%dx%d_%s' % (n, m, 'sym' if inc == 'sym' else 'fix'), shape=(n, m), inc=inc, harness='h_noflats', impls=both, reach=['done'], cost=cost, unwind=2 * n * m, tol=1e-5, **kw))

    for dt in (np.float32, np.float64):
        for shape in ((1, 1), (1, 2)):
            out.append(dict(name='safe_%s_%dx%d' % (np.dtype(dt).name, shape[0], shape[1]), shape=shape, dtype=dt, harness='h_safe', impl='py', reach=['done'],
                            fp=True, timeout=300, cost=50, tol=0))
    full(3, 3)
    full(3, 4)
    full(4, 3)
    full(3, 5)
    full(4, 4)
    full(3, 5, inc=(0.25, 0.375))
    full(4, 4, inc=(0.25, 0.375))

    def pat(name, p, cost=1, inc=(0.25, 0.375), **kw):
        out.append(dict(name=name + ('_sym' if inc == 'sym' else ''), pattern=p, inc=inc, harness='h_noflats', impls=both, reach=['done'], cost=cost, unwind=80, tol=1e-5, **kw))
    pat('spiral', c01.SPIRAL, 30)
    pat('ring', c01.RING, 20)
    pat('long', c01.LONG, 5)
    pat('comb', c01.U, 40)
    full(4, 5, 40)
    full(3, 7, 5)
    if tier == 'thorough':
        pat('zigzag', c01.ZIG, 90, budget=1500, timeout=1500)
        full(5, 5, 80, budget=3000, timeout=1500)
        full(4, 6, 80, budget=3000, timeout=1500)
        full(3, 10, 20, budget=1500, timeout=1500)
        pat('spiral_sym', c01.SPIRAL, 60, inc='sym', budget=3000, timeout=1500)
        pat('ring_sym', c01.RING, 60, inc='sym', budget=3000, timeout=1500)
        pat('half_sym', c01.HALF, 60, inc='sym', budget=3000, timeout=1500)
    return out
