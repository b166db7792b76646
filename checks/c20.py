"""C20: the compiled functions stay within their buffers."""
import numpy as np
from engine import h as H
from checks import c06, c19, lib

PROPERTY = 'C20'
BOUNDS = ('every access of the compiled functions to an array, a list without bounds check, a C variable or a C integer operation is an obligation, for: fill '
          'sweeps over every block of rows and columns that keeps its neighbours inside, in rasters 3x3 .. 4x5, and through the fill drivers from 1x1 on (with 10 '
          'and 100 wide strips where the terrain is a plane); D8 from 1x1 to 4x4 and 1x5, 5x1; accumulated flow and watersheds on every direction raster (cells '
          'without direction included; accumulated flow also with cycles) of 1x1 .. 2x2, 1x3 and 3x1, 3x3 with three directions; tracing from any cell within two '
          'cells of the raster; label functions on every label content up to 2x2, 1x4 and 4x1 which the pure Python version accepts, numbers of labels absent, '
          'zero, exact and too large; contiguous and strided arrays; array types and dimensions which are not supported')
OUTSIDE = 'rasters with more than 2^31 cells or rows; the C code Cython makes of the .pyx sources (they are executed symbolically as Cython defines them); NaN'


def fast(mod, name):
    return c19.both(mod, name)[1]


def strided(a, how):
    """the same raster with another memory layout"""
    n, m = a.shape
    if how == 'transposed':
        b = np.zeros((m, n), dtype=a.dtype).T
    elif how == 'every second':
        b = np.zeros((2 * n, 2 * m), dtype=a.dtype)[::2, ::2]
    elif how == 'backwards':
        b = np.zeros((n, m), dtype=a.dtype)[::-1, ::-1]
    else:
        return a
    for r in range(n):
        for c in range(m):
            b[r, c] = a[r, c]
    return b


def h_sweep(cfg):
    flats = cfg['flats']
    c = fast('fill', '_fill_terrain' if flats else '_fill_terrain_no_flats')
    n, m = cfg['shape']
    z = strided(H.reals('z', cfg['shape'], np.float32), cfg.get('layout'))
    f = strided(H.reals('f', cfg['shape'], np.float32 if flats else np.float64), cfg.get('layout'))
    before = f.copy()
    r1 = H.choose('from_row', tuple(range(1, n - 1)))
    r2 = H.choose('to_row', tuple(range(1, n - 1)))
    c1 = H.choose('from_col', tuple(range(1, m - 1)))
    c2 = H.choose('to_col', tuple(range(1, m - 1)))
    # a sweep in ascending order over one row or column is passed as a range of that one cell
    args = (r1, r2, c1, c2)
    if not flats:
        args = args + (0.25, 0.5)
    c(z, f, *args)
    for v in lib.cells(cfg['shape']):
        ins = min(r1, r2) <= v[0] <= max(r1, r2) and min(c1, c2) <= v[1] <= max(c1, c2)
        # (a descending one-cell range is processed in the same way)
        if not ins:
            H.check(f[v] == before[v], 'cells outside the block are not written')
    H.reach('done')


def h_fill(cfg):
    from malstroem.algorithms import fill, speedups
    shape = cfg['shape']
    z = H.reals('z', shape, np.float32)
    speedups.disable()
    if cfg['flats']:
        ok = c19.attempt(fill.fill_terrain, (z.copy(),))
    else:
        ok = c19.attempt(fill.fill_terrain_no_flats, (z.copy(), 0.25, 0.5))
    speedups.enable()
    if ok is None:
        H.reach('refused')
        return
    r = fill.fill_terrain(z) if cfg['flats'] else fill.fill_terrain_no_flats(z, 0.25, 0.5)
    H.check(r.shape == shape, 'a result')
    H.reach('done')


def h_d8(cfg):
    c = fast('flow', '_terrain_flow')
    shape = cfg['shape']
    z = strided(H.reals('z', shape), cfg.get('layout'))
    r = c(z)
    H.check(r.shape == shape, 'a result')
    for v in lib.cells(shape):
        H.check(r[v] <= 8, 'every cell is written')
    H.reach('done')


def h_accum(cfg):
    c = fast('flow', 'accumulated_flow')
    f = strided(c19.graph(cfg), cfg.get('layout'))
    a = c(f)
    H.check(a.shape == cfg['shape'], 'a result')
    n = cfg['shape'][0] * cfg['shape'][1]
    for v in lib.cells(cfg['shape']):
        H.check(H.land(a[v] >= 0, a[v] <= n), 'at most the number of cells')
    H.reach('done')


def h_trace(cfg):
    c = fast('flow', 'trace_accumulated_flow')
    f = c19.graph(cfg)
    n, m = cfg['shape']
    a = H.integers('a', cfg['shape'], 0, 3, np.int64).astype(np.float64)
    cell = (H.choose('row', tuple(range(-2, n + 2))), H.choose('col', tuple(range(-2, m + 2))))
    c(f, strided(a, cfg.get('layout')), cell)
    H.reach('done')


def h_water(cfg):
    c = fast('flow', 'assign_watersheds_upstream')
    f = strided(c19.graph(cfg), cfg.get('layout'))
    dt = np.dtype(cfg['dtype'])
    i = np.iinfo(dt)
    a = strided(H.integers('l', cfg['shape'], int(i.min), int(i.max), dt), cfg.get('layout'))
    un = H.integer('unlabelled', int(i.min), int(i.max))
    n, m = cfg['shape']
    cell = (H.choose('row', tuple(range(-n, n))), H.choose('col', tuple(range(-m, m)))) if cfg.get('negative') else H.choose('cell', tuple(lib.cells(cfg['shape'])))
    c(f, a, cell, un)
    H.reach('done')


def h_label(cfg):
    p, c = c19.both('label', cfg['function'])
    shape = cfg['shape']
    d = c19.number('d', shape, cfg['data'])
    lo, hi = cfg['range']
    lab = np.zeros(shape, dtype=np.dtype(cfg['labels']))
    for v in lib.cells(shape):
        lab[v] = H.choose('l_%d_%d' % v, tuple(range(lo, hi + 1)))
    more = {}
    if cfg['nlabels'] is not None:
        more['nlabels'] = cfg['nlabels']
    if cfg['function'] == 'label_data':
        more['background'] = H.choose('background', (0, 1, -1))
    try:
        ok = p(d, lab, **more)
    except Exception:
        H.reach('refused')
        return
    r = c(strided(d, cfg.get('layout')), strided(lab, cfg.get('layout')), **more)
    H.check(len(r) == len(ok), 'number of entries')
    H.reach('done')


def h_types(cfg):
    """arrays of other types and dimensions are refused; nothing of them is read or written"""
    fill = {}
    good = {'z': 'float32', 'f': 'float32', 'g': 'float64', 'd': 'uint8', 'a': 'float64', 'l': 'int32'}
    bad = H.choose('bad', cfg['which'])
    kind = H.choose('kind', cfg['kinds'])
    dims = H.choose('dims', ((3, 3), (9,), (3, 3, 1)))

    def arr(k):
        dt = good[k]
        shape = (3, 3)
        if k == bad:
            dt = kind or dt
            shape = dims
        a = np.zeros(shape, dtype=dt)
        a[...] = 1
        return a
    if kind is None and dims == (3, 3) or kind == good[bad]:
        return
    fn = cfg['function']
    c = fast(*fn)
    args = tuple(arr(x) if type(x) is str else x for x in cfg['args'])
    before = tuple(x.copy() if type(x) is np.ndarray else x for x in args)
    refused = False
    try:
        c(*args)
    except Exception:
        refused = True
    H.check(refused, 'refused with an exception')
    for x, y in zip(args, before):
        if type(x) is np.ndarray:
            H.check(bool(np.array_equal(x, y)), 'arguments unchanged')
    H.reach('refused')


def configs(tier):
    out = []
    deep = tier != 'quick'

    def add(name, harness, shape=None, cost=1, reach=('done',), **kw):
        if shape is not None:
            name += '_%dx%d' % shape
            kw['shape'] = shape
        if kw.get('layout'):
            name += '_' + kw['layout'].replace(' ', '_')
        out.append(dict(name=name, harness=harness, impls=('cy',), reach=list(reach), cost=cost, unwind=300, **kw))
    for flats in (True, False):
        w = 'flats' if flats else 'noflats'
        for s in ((3, 3), (3, 4), (4, 3)) + (((4, 4), (4, 5), (5, 4)) if deep else ()):
            add('sweep_' + w, 'h_sweep', s, cost=10, flats=flats)
        for lay in ('transposed', 'every second', 'backwards'):
            add('sweep_' + w, 'h_sweep', (3, 4) if deep else (3, 3), cost=5, flats=flats, layout=lay)
        for s in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)):
            add('fill_' + w, 'h_fill', s, flats=flats, reach=())
        for s in ((3, 3), (3, 4), (4, 3)) if deep else ((3, 3),):
            add('fill_' + w, 'h_fill', s, cost=30, flats=flats)
    for s in ((1, 1), (1, 5), (5, 1), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4)) + (((4, 4),) if deep else ()):
        add('d8', 'h_d8', s, cost=10)
    for lay in ('transposed', 'every second', 'backwards'):
        add('d8', 'h_d8', (3, 3), layout=lay)
        add('accum', 'h_accum', (1, 2), layout=lay, domain='any', loopcheck=3, split=True)
        add('water', 'h_water', (1, 2), layout=lay, dtype='int32', loopcheck=3, split=True)
        add('trace', 'h_trace', (1, 2), layout=lay, loopcheck=3, split=True)
        add('label_data', 'h_label', (1, 2), layout=lay, function='label_data', data='float64', labels='int32', range=(0, 2), nlabels=None)
        add('label_stats', 'h_label', (2, 2), layout=lay, function='label_stats', data='float32', labels='int32', range=(0, 1), nlabels=None)
    for s in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)) + (((2, 3), (3, 2), (1, 4)) if deep else ()):
        add('accum', 'h_accum', s, domain='any', loopcheck=3, split=True, cost=30 if s == (2, 2) else 5)
    for s in ((1, 1), (1, 2), (2, 1), (1, 3)) + (((2, 2), (3, 1)) if deep else ()):
        add('trace', 'h_trace', s, loopcheck=3, split=True, cost=10)
    for s, dt in (((1, 1), 'int32'), ((1, 2), 'int32'), ((2, 1), 'int64'), ((1, 3), 'int32'), ((3, 1), 'int64'), ((1, 3), 'uint8'), ((2, 2), 'int32')):
        add('water_' + dt, 'h_water', s, dtype=dt, loopcheck=3, split=True, cost=40 if s == (2, 2) else 5)
    add('water_negative', 'h_water', (1, 2), dtype='int32', negative=True, loopcheck=3, split=True)
    for dom in ('e',) if not deep else sorted(c06.DOMAINS):
        add('accum_' + dom, 'h_accum', (3, 3), domain=dom, loopcheck=3, split=True, cost=40)
        if deep:
            add('water_' + dom, 'h_water', (3, 3), dtype='int64', domain=dom, loopcheck=3, split=True, cost=100)
            add('trace_' + dom, 'h_trace', (3, 3), domain=dom, loopcheck=3, split=True, cost=100)
    for fn in ('label_stats', 'label_min_index', 'label_data'):
        for data, labels, s, rng, n in (('float32', 'int32', (1, 3), (-2, 2), None), ('float64', 'int32', (1, 3), (-2, 2), None), ('float64', 'int64', (1, 3), (-2, 2), None),
                                        ('float32', 'int32', (2, 2), (0, 2), 0), ('float64', 'int32', (1, 3), (0, 2), 0), ('int32', 'uint8', (1, 3), (0, 3), 0),
                                        ('float64', 'int32', (1, 3), (-1, 2), 1), ('float32', 'int32', (3, 1), (-1, 2), 1), ('float32', 'int64', (3, 1), (-1, 2), 1),
                                        ('float32', 'int32', (1, 4), (0, 2), 4), ('float64', 'int32', (4, 1), (0, 2), 4)):
            add('%s_%s_%s_%s' % (fn, data, labels, n), 'h_label', s, function=fn, data=data, labels=labels, range=rng, nlabels=n, cost=10,
                reach=('done', 'refused') if rng[0] < 0 else ('done',))
    ints = ('int8', 'int16', 'int32', 'int64', 'uint16', 'uint32', 'uint64', 'bool')
    noints = ints[:-1]     # (a bool array is laid out as uint8)
    flts = ('float32', 'float64', 'float16', 'complex128')
    add('types_fill', 'h_types', function=('fill', '_fill_terrain'), args=('z', 'f', 1, 1, 1, 1), which=('z', 'f'), kinds=ints + flts + ('uint8', None), reach=('refused',))
    add('types_fill_noflats', 'h_types', function=('fill', '_fill_terrain_no_flats'), args=('z', 'g', 1, 1, 1, 1, 0.5, 0.5), which=('z', 'g'),
        kinds=ints + flts + ('uint8', None), reach=('refused',))
    add('types_d8', 'h_types', function=('flow', '_terrain_flow'), args=('g',), which=('g',), kinds=ints + flts + ('uint8', None), reach=('refused',))
    add('types_accum', 'h_types', function=('flow', 'accumulated_flow'), args=('d',), which=('d',), kinds=noints + flts + (None,), reach=('refused',))
    add('types_trace', 'h_types', function=('flow', 'trace_accumulated_flow'), args=('d', 'a', (1, 1)), which=('d', 'a'), kinds=noints + flts + ('uint8', None), reach=('refused',))
    add('types_water', 'h_types', function=('flow', 'assign_watersheds_upstream'), args=('d', 'l', (1, 1), 0), which=('d',), kinds=noints + flts + (None,), reach=('refused',))
    for fn in ('label_stats', 'label_min_index', 'label_data'):
        add('types_' + fn, 'h_types', function=('label', fn), args=('g', 'l'), which=('l',), kinds=flts, reach=('refused',))
    return out
