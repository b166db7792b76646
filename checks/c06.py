"""C06: accumulated flow."""
import numpy as np
from engine import h as H
from checks import c04, lib

PROPERTY = 'C06'
BOUNDS = ('every direction raster without cycles of 1x3, 3x1 and 2x2 cells (all eight directions and no direction in every cell); every 3x3 raster '
          'whose cells take one of three neighbouring directions or none, for four (thorough: all eight) such triples; thorough: also 2x3 and 1x5 with '
          'all directions, 3x4 and 4x4 with triples; both implementations')
OUTSIDE = 'direction rasters with cycles (the property excludes them), larger rasters, 3x3 rasters mixing more than three directions'


# sets of directions which cannot form a cycle
DOMAINS = {'se': (2, 3, 4), 'sw': (4, 5, 6), 'nw': (6, 7, 0), 'ne': (0, 1, 2), 'e': (1, 2, 3), 's': (3, 4, 5), 'w': (5, 6, 7), 'n': (7, 0, 1)}


def one_of(name, options):
    """symbolic choice of one of a few concrete integers (merged, not forked)"""
    r = options[-1]
    for k in range(len(options) - 1):
        r = H.ite(H.boolean('%s_%d' % (name, options[k])), options[k], r)
    return r


def directions(cfg, nodir=True):
    """symbolic direction raster without cycles"""
    shape = cfg['shape']
    dom = cfg.get('domain', 'all')
    f = np.zeros(shape, dtype=np.uint8)
    for r, c in lib.cells(shape):
        if cfg.get('edges') and lib.is_edge(shape, r, c):
            f[r, c] = c04.codes(shape, r, c)
        elif dom == 'all':
            f[r, c] = H.integer('f_%d_%d' % (r, c), 0, 8 if nodir else 7)
        else:
            f[r, c] = one_of('f_%d_%d' % (r, c), DOMAINS[dom] + ((8,) if cfg.get('nodir', True) and nodir else ()))
    if dom == 'all':
        acyclic(f)
    return f


def acyclic(f):
    """assume an order of the cells in which every cell comes after the cell it flows to"""
    shape = f.shape
    n = shape[0] * shape[1]
    rank = H.integers('rank', shape, 0, n - 1, np.int64)
    for r, c in lib.cells(shape):
        for k in range(8):
            a, b = lib.DIRS[k]
            if lib.inside(shape, r + a, c + b):
                H.assume(H.implies(f[r, c] == k, rank[r + a, c + b] < rank[r, c]))
    return rank


def h_accum(cfg):
    from malstroem.algorithms import flow
    f = directions(cfg)
    keep = f.copy()
    a = flow.accumulated_flow(f)
    shape = f.shape
    H.record('accum', a)
    H.check(a.shape == shape, 'shape of the result')
    for r, c in lib.cells(shape):
        H.check(f[r, c] == keep[r, c], 'direction raster unchanged')
        s = 1
        for k in range(8):
            p, q = lib.DIRS[k]
            u = (r - p, c - q)
            if lib.inside(shape, u[0], u[1]):
                s = s + H.ite(keep[u] == k, a[u], 0.0)
        # on a raster without cycles these equations have exactly one solution: the number of cells draining through each cell
        H.check(a[r, c] == s, 'one plus the accumulated flow of the cells flowing directly into it')
        H.check(a[r, c] >= 1, 'at least the cell itself')
    H.reach('done')


def configs(tier):
    out = []
    both = ('py', 'cy')

    def add(name, n, m, cost=1, impls=both, **kw):
        out.append(dict(name='%s_%dx%d' % (name, n, m), shape=(n, m), harness='h_accum', impls=impls, split=True, integral=True, loopcheck=3,
                        reach=['done'], cost=cost, unwind=200, **kw))
    for n, m in ((1, 3), (3, 1), (2, 2)):
        add('all', n, m)
    for d in sorted(DOMAINS) if tier != 'quick' else ('se', 'nw', 'e', 's'):
        add(d, 3, 3, cost=20, domain=d)
    if tier != 'quick':
        add('all', 2, 3, cost=100)
        add('all', 1, 5, cost=50)
        for d in ('sw', 'n'):
            add(d, 3, 4, cost=300, domain=d)
            add(d + '_draining', 4, 4, cost=300, domain=d, nodir=False)
    return out
