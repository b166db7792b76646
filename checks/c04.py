"""C04: D8 flow directions."""
import numpy as np
from engine import h as H
from checks import lib

PROPERTY = 'C04'
BOUNDS = ('every elevation at every cell (exact real arithmetic, slopes compared up to a relative 1e-6) of rasters 3x3, 3x5, 4x4, 5x3, 5x6 (thorough: '
          'up to 6x7), both edge modes, both implementations, float64 and float32 terrain; bit-precise IEEE '
          'arithmetic for one lower or higher neighbour in each of the eight directions: every float64 pair of magnitude up to 2^1000; '
          'the edge codes for every content of rasters up to 5x6')
OUTSIDE = 'NaN and infinite elevations; larger rasters (each interior cell is computed from its own 3x3 window)'
R2 = 1.4142135623730951


def codes(shape, r, c):
    n, m = shape[0] - 1, shape[1] - 1
    if r == 0 and c == 0:
        return 7
    if r == 0 and c == m:
        return 1
    if r == n and c == 0:
        return 5
    if r == n and c == m:
        return 3
    if r == 0:
        return 0
    if r == n:
        return 4
    if c == 0:
        return 6
    return 2


def spec(z, f, outward):
    shape = z.shape
    H.check(f.shape == shape, 'shape of the direction raster')
    for r, c in lib.cells(shape):
        if lib.is_edge(shape, r, c):
            H.check(f[r, c] == (codes(shape, r, c) if outward else 8), 'edge code')
            continue
        lower = []
        for k in range(8):
            a, b = lib.DIRS[k]
            lower.append(z[r + a, c + b] < z[r, c])
        H.check(f[r, c] <= 8, 'direction code')
        H.check(H.iff(f[r, c] == 8, H.lnot(H.lor(*lower))), 'no direction exactly when no neighbour is lower')
        for k in range(8):
            a, b = lib.DIRS[k]
            H.check(H.implies(f[r, c] == k, lower[k]), 'flows to a strictly lower neighbour')
            dk = (float(z[r, c]) - float(z[r + a, c + b])) * (1.0 if a * b == 0 else 1.0 / R2)
            for j in range(8):
                if j != k:
                    p, q = lib.DIRS[j]
                    dj = (float(z[r, c]) - float(z[r + p, c + q])) * (1.0 if p * q == 0 else 1.0 / R2)
                    H.check(H.implies(f[r, c] == k, dj <= dk * 1.000001), 'flows along the steepest slope')


def h_d8(cfg):
    from malstroem.algorithms import flow
    dt = np.dtype(cfg['dtype'])
    if dt.kind == 'f':
        z = H.reals('z', cfg['shape'], dt)
    else:
        z = H.integers('z', cfg['shape'], -50, 50, dt)
    keep = z.copy()
    f = flow.terrain_flowdirection(z, edges_flow_outward=cfg['outward'])
    H.record('flow', f)
    for rc in lib.cells(cfg['shape']):
        H.check(z[rc] == keep[rc], 'terrain unchanged')
    spec(z, f, cfg['outward'])
    H.reach('done')


def h_default(cfg):
    from malstroem.algorithms import flow
    z = H.reals('z', (3, 3), np.float64)
    f = flow.terrain_flowdirection(z)
    for r, c in lib.cells((3, 3)):
        if lib.is_edge((3, 3), r, c):
            H.check(f[r, c] == codes((3, 3), r, c), 'edges flow outward by default')
    H.reach('done')


def h_edges(cfg):
    from malstroem.algorithms import flow
    f = H.integers('f', cfg['shape'], 0, 8, np.uint8)
    keep = f.copy()
    flow.set_edges_flow_outward(f)
    for r, c in lib.cells(cfg['shape']):
        if lib.is_edge(cfg['shape'], r, c):
            H.check(f[r, c] == codes(cfg['shape'], r, c), 'edge code')
        else:
            H.check(f[r, c] == keep[r, c], 'interior unchanged')
    H.reach('done')


def h_fp(cfg):
    from malstroem.algorithms import flow
    k = H.choose('k', cfg['dirs'])
    v = H.reals('v', (2,), np.float64)
    for i in range(2):
        H.assume(H.land(v[i] <= 2.0 ** 1000, -2.0 ** 1000 <= v[i]))
    z = np.zeros((3, 3), dtype=np.float64)
    for rc in lib.cells((3, 3)):
        z[rc] = v[0]
    a, b = lib.DIRS[k]
    z[1 + a, 1 + b] = v[1]
    f = flow.terrain_flowdirection(z, edges_flow_outward=False)
    H.check(H.iff(f[1, 1] == k, v[1] < v[0]), 'any representable drop gives a direction')
    H.check(H.iff(f[1, 1] == 8, v[0] <= v[1]), 'no drop gives no direction')
    H.reach('done')


def h_codes(cfg):
    """the meaning of the codes in the functions that follow directions"""
    from malstroem.algorithms import flow
    r = H.integer('r', 1, 2)
    c = H.integer('c', 1, 3)
    for k in range(8):
        a, b = lib.DIRS[k]
        d = flow.direction_to_delta(k)
        H.check(tuple(d) == (a, b), 'direction code to cell offset')
        t = flow.cell_in_direction((r, c), k)
        H.check(H.land(t[0] == r + a, t[1] == c + b), 'cell in direction')
    H.check(flow.direction_to_delta(8) is None, 'no direction has no offset')
    H.reach('done')


def configs(tier):
    out = []
    both = ('py', 'cy')
    shapes = [(3, 3), (3, 5), (4, 4), (5, 3), (5, 6)]
    if tier == 'thorough':
        shapes += [(4, 7), (6, 7)]
    for n, m in shapes:
        for o in (True, False):
            out.append(dict(name='d8_%dx%d_%s' % (n, m, 'out' if o else 'nodir'), shape=(n, m), outward=o, dtype='float64', harness='h_d8', impls=both,
                            reach=['done'], cost=n * m, unwind=200, chunk=56, timeout=200, budget=200))
    out.append(dict(name='d8_float32', chunk=56, shape=(3, 4), outward=True, dtype='float32', harness='h_d8', impl='py', reach=['done'], cost=10, unwind=200))
    for n, m in ((3, 3), (2, 2), (4, 5), (5, 6), (2, 5)):
        out.append(dict(name='edges_%dx%d' % (n, m), shape=(n, m), harness='h_edges', impl='py', reach=['done'], unwind=200))
    out.append(dict(name='default', harness='h_default', impl='py', reach=['done'], unwind=200))
    out.append(dict(name='codes', harness='h_codes', impl='py', reach=['done'], unwind=200))
    for i in both:
        out.append(dict(name='fp', dirs=[2] if tier == 'quick' and i == 'py' else [2, 3] if tier == 'quick' else list(range(8)), harness='h_fp', impl=i, fp=True,
                        reach=['done'], unwind=200, cost=90, timeout=300 if tier == 'quick' else 2000, budget=300))
    return out
