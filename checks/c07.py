"""C07: local watersheds of labelled cells."""
import numpy as np
from engine import h as H
from checks import c06, lib

PROPERTY = 'C07'
BOUNDS = ('every draining direction raster of 1x3, 3x1 and 2x2 cells with every label and every unlabelled value of the label types int32, int64, '
          'int16 and uint8 (2x2: label values -1..2); 3x3 rasters and oblong ones of 2x3, 3x2, 2x4 and 4x2 cells whose cells take one of three neighbouring directions, label and unlabelled values '
          '-1..2 (the code only compares and copies labels); thorough: all eight direction triples, 2x3 with all directions, triples on 3x4 and 4x4, '
          'more label types; both implementations')
OUTSIDE = 'direction rasters with cycles or undirected cells (excluded by the property), larger rasters, unsigned 64 bit labels'


def spec(f, before, after, unlabelled):
    """on a draining raster these equations have exactly one solution: the label of the first labelled cell downstream"""
    shape = f.shape
    for v in lib.cells(shape):
        w = unlabelled
        for k in range(8):
            a, b = lib.DIRS[k]
            t = (v[0] + a, v[1] + b)
            if lib.inside(shape, t[0], t[1]):
                w = H.ite(f[v] == k, after[t], w)
        H.check(H.implies(before[v] != unlabelled, after[v] == before[v]), 'labelled cells keep their label')
        H.check(H.implies(before[v] == unlabelled, after[v] == w), 'unlabelled cells get the label of the first labelled cell downstream')


def h_water(cfg):
    from malstroem.algorithms import flow
    f = c06.directions(cfg, nodir=False)
    dt = np.dtype(cfg['dtype'])
    i = np.iinfo(dt)
    lo, hi = cfg.get('labels', (int(i.min), int(i.max)))
    lab = H.integers('l', cfg['shape'], lo, hi, dt)
    un = H.integer('unlabelled', lo, hi)
    keep = f.copy()
    before = lab.copy()
    flow.watersheds_from_labels(f, lab, un)
    H.record('watersheds', lab)
    for v in lib.cells(cfg['shape']):
        H.check(f[v] == keep[v], 'direction raster unchanged')
    spec(keep, before, lab, un)
    H.reach('done')


def configs(tier):
    out = []
    both = ('py', 'cy')

    def add(name, n, m, dtype, cost=1, impls=both, **kw):
        out.append(dict(name='%s_%dx%d_%s' % (name, n, m, dtype), shape=(n, m), dtype=dtype, harness='h_water', impls=impls, split=True, loopcheck=3,
                        reach=['done'], cost=cost, unwind=300, chunk=9, **kw))
    for dt in ('int32', 'int64', 'int16', 'uint8'):
        add('all', 1, 3, dt)
    add('all', 3, 1, 'int64')
    add('all', 2, 2, 'int32', labels=(-1, 2))
    small = (-1, 2)
    if tier == 'quick':
        add('se', 3, 3, 'int32', cost=30, domain='se', labels=small)
        add('n', 3, 3, 'int64', cost=10, domain='n', labels=small)
        for d, shape in (('e', (3, 2)), ('w', (2, 3)), ('ne', (4, 2)), ('sw', (2, 4)), ('s', (3, 2))):
            add(d, shape[0], shape[1], 'int32', cost=20, domain=d, labels=small)
    else:
        for d in sorted(c06.DOMAINS):
            add(d, 3, 3, 'int32', cost=30, domain=d, labels=small)
            add(d, 3, 3, 'int64', cost=30, domain=d, labels=small)
            for shape in ((3, 2), (2, 3), (4, 2), (2, 4)):
                add(d, shape[0], shape[1], 'int32', cost=40, domain=d, labels=small)
        for dt in ('int8', 'uint16', 'uint32'):
            add('all', 1, 3, dt)
        add('all', 2, 3, 'int32', cost=200, labels=(0, 3))
        for d in ('s', 'w', 'ne'):
            add(d, 3, 4, 'int32', cost=300, domain=d, labels=(0, 2))
            add(d, 4, 4, 'int32', cost=400, domain=d, labels=(0, 1))
    return out
