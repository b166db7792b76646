"""C19: compiled and pure Python versions give the same results; enable / disable."""
import numpy as np
from engine import h as H
from checks import c06, lib

PROPERTY = 'C19'
BOUNDS = ('both versions run on the same symbolic input: label statistics, lowest cells and label data of 2x2, 1x3 and 3x1 rasters for the data types '
          'float32 / float64 (every value, bit-precise sums) and int32 and the label types int32, int64, uint8, int16, with and without the number of labels '
          '(also 0 and larger than needed), any background label; one sweep of both fill functions over 3x3 .. 4x4 rasters in each of the four orders '
          'from every intermediate state, and bit-precise IEEE arithmetic on 3x3; D8 on 3x3 and 3x4 rasters (thorough: 4x4, 5x3); accumulated flow on every '
          'direction raster (also cyclic, with undirected cells) of 2x2, 1x3 and 3x1 and on draining 3x3 rasters; accumulated flow traced from any cell and '
          'watersheds upstream of any cell, in rasters of 1x3, 3x1 and 2x2 cells (thorough: more); every history of up to 6 (thorough: 9) enable / disable calls, with the functions '
          'replaced by others beforehand or not, and with and without the compiled modules')
OUTSIDE = 'NaN cells; larger rasters; the C code Cython makes of the .pyx sources (they are executed symbolically as Cython defines them)'

PAIRS = (('fill', '_fill_terrain'), ('fill', '_fill_terrain_no_flats'), ('flow', 'trace_accumulated_flow'), ('flow', 'accumulated_flow'),
         ('flow', '_terrain_flow'), ('flow', 'assign_watersheds_upstream'), ('label', 'label_stats'), ('label', 'label_min_index'), ('label', 'label_data'))
CYNAMES = {'_terrain_flow': 'terrain_flow'}


def both(mod, name):
    from malstroem.algorithms import fill, flow, label, speedups
    m = {'fill': fill, 'flow': flow, 'label': label}[mod]
    speedups.disable()
    p = getattr(m, name)
    speedups.enable()
    c = getattr(m, name)
    H.check(p is not c, 'two versions')
    return p, c


def number(name, shape, dtype):
    dt = np.dtype(dtype)
    if dt.kind == 'f':
        return H.reals(name, shape, dt)
    if dt.kind == 'u':
        return H.integers(name, shape, 0, 50, dt)
    return H.integers(name, shape, -50, 50, dt)


def attempt(f, args):
    """result, or None when it raises"""
    try:
        return (f(*args),)
    except Exception:
        return None


def h_label(cfg):
    p, c = both('label', cfg['function'])
    shape = cfg['shape']
    d = number('d', shape, cfg['data'])
    n = cfg['nlabels']
    top = cfg['maxlabel']
    lo = cfg.get('minlabel', 0)
    if cfg['function'] == 'label_data':
        lab = np.zeros(shape, dtype=np.dtype(cfg['labels']))
        for v in lib.cells(shape):
            lab[v] = H.choose('l_%d_%d' % v, tuple(range(lo, top + 1)))
    else:
        lab = H.integers('l', shape, lo, top, np.dtype(cfg['labels']))
    d2 = d.copy()
    l2 = lab.copy()
    more = {}
    if 'background' in cfg:
        more['background'] = H.choose('background', cfg['background'])
    if n is not None:
        more['nlabels'] = n
    rp = p(d, lab, **more)
    rc = c(d2, l2, **more)
    for v in lib.cells(shape):
        H.check(H.land(d[v] == d2[v], lab[v] == l2[v]), 'arguments unchanged')
    H.check(len(rp) == len(rc), 'number of entries')
    H.record('entries', len(rp))
    eq = (lambda a, b: a == b) if cfg.get('fp') else H.same
    for k in range(len(rp)):
        if cfg['function'] == 'label_stats':
            H.check(rp[k]['count'] == rc[k]['count'], 'count')
            for x in ('min', 'max', 'sum'):
                H.check(eq(rp[k][x], rc[k][x]), x)
        elif cfg['function'] == 'label_min_index':
            H.check(eq(rp[k]['value'], rc[k]['value']), 'value')
            H.check(H.land(rp[k]['row'] == rc[k]['row'], rp[k]['col'] == rc[k]['col']), 'position')
        else:
            H.check(len(rp[k]) == len(rc[k]), 'number of values of a label')
            for i in range(len(rp[k])):
                H.check(eq(float(rp[k][i]), float(rc[k][i])), 'values of a label')
    if cfg['function'] != 'label_data':
        H.check(rp.dtype == rc.dtype, 'type of the result')
    H.reach('done')


def h_sweep(cfg):
    flats = cfg['flats']
    p, c = both('fill', '_fill_terrain' if flats else '_fill_terrain_no_flats')
    shape = cfg['shape']
    n, m = shape
    z = H.reals('z', shape, np.float32)
    f = H.reals('f', shape, np.float32 if flats else np.float64)
    f2 = f.copy()
    z2 = z.copy()
    f0 = f.copy()
    rows = (1, n - 2) if H.choose('down', (True, False)) else (n - 2, 1)
    cols = (1, m - 2) if H.choose('right', (True, False)) else (m - 2, 1)
    args = (rows[0], rows[1], cols[0], cols[1])
    if not flats:
        s = H.real('short', lo=0)
        args = args + (s, H.real('diag', lo=0))
        H.assume(H.land(args[4] <= 1000.0, args[5] <= 1000.0))
    a = p(z, f, *args)
    b = c(z2, f2, *args)
    changed = False
    for v in lib.cells(shape):
        H.check(f[v] == f2[v] if cfg.get('fp') else H.same(f[v], f2[v]), 'levels after the sweep')
        H.check(z[v] == z2[v], 'terrain unchanged')
    if a:
        H.check(b != 0, 'reports whether something changed')
    else:
        H.check(b == 0, 'reports whether something changed')
    H.reach('done')


def h_d8(cfg):
    p, c = both('flow', '_terrain_flow')
    shape = cfg['shape']
    z = H.reals('z', shape)
    z2 = z.copy()
    a = p(z)
    b = c(z2)
    H.check(H.land(a.shape == b.shape, a.dtype == b.dtype), 'kind of the result')
    for v in lib.cells(shape):
        H.check(z[v] == z2[v], 'terrain unchanged')
        if lib.is_edge(shape, v[0], v[1]):
            H.check(a[v] == b[v], 'edge cells')
            continue
        H.check(H.iff(a[v] == 8, b[v] == 8), 'cells without direction')
        sa = 0.0
        sb = 0.0
        for k in range(8):
            i, j = lib.DIRS[k]
            d = (float(z[v]) - float(z[v[0] + i, v[1] + j])) * (1.0 if i * j == 0 else 0.7071067811865475)
            sa = H.ite(a[v] == k, d, sa)
            sb = H.ite(b[v] == k, d, sb)
        H.check(H.lor(a[v] == b[v], H.near(sa, sb, sa)), 'the same direction up to ties')
    H.reach('done')


def graph(cfg):
    if cfg.get('domain') == 'any':
        f = np.zeros(cfg['shape'], dtype=np.uint8)
        for v in lib.cells(cfg['shape']):
            f[v] = H.integer('f_%d_%d' % v, 0, 8)
        return f
    return c06.directions(cfg)


def h_accum(cfg):
    p, c = both('flow', 'accumulated_flow')
    f = graph(cfg)
    f2 = f.copy()
    a = p(f)
    b = c(f2)
    H.check(H.land(a.shape == b.shape, a.dtype == b.dtype), 'kind of the result')
    for v in lib.cells(cfg['shape']):
        H.check(a[v] == b[v], 'accumulated flow')
        H.check(f[v] == f2[v], 'directions unchanged')
    H.reach('done')


def h_trace(cfg):
    p, c = both('flow', 'trace_accumulated_flow')
    f = graph(cfg)
    shape = cfg['shape']
    a = H.integers('a', shape, 0, 3, np.int64).astype(np.float64)
    b = a.copy()
    cell = (H.choose('row', tuple(range(-1, shape[0] + 1))), H.choose('col', tuple(range(-1, shape[1] + 1))))
    p(f, a, cell)
    c(f.copy(), b, cell)
    for v in lib.cells(shape):
        H.check(a[v] == b[v], 'accumulated flow')
    H.reach('done')


def h_water(cfg):
    p, c = both('flow', 'assign_watersheds_upstream')
    f = graph(cfg)
    shape = cfg['shape']
    lo, hi = cfg.get('labels', (-1, 2))
    a = H.integers('l', shape, lo, hi, np.dtype(cfg['dtype']))
    b = a.copy()
    un = H.integer('unlabelled', lo, hi)
    cell = H.choose('cell', tuple(lib.cells(shape)))
    p(f, a, cell, un)
    c(f.copy(), b, cell, un)
    for v in lib.cells(shape):
        H.check(a[v] == b[v], 'labels')
    H.reach('done')


def h_switch(cfg):
    from malstroem.algorithms import fill, flow, label, speedups
    mods = {'fill': fill, 'flow': flow, 'label': label}
    H.check(speedups.enabled, 'enabled when the compiled modules are there')
    slow = {}
    fast = {}
    for m, k in PAIRS:
        fast[m, k] = getattr(mods[m], k)
    speedups.disable()
    for m, k in PAIRS:
        slow[m, k] = getattr(mods[m], k)
        H.check(slow[m, k] is not fast[m, k], 'disabling replaces the compiled version')
    first = dict(slow)
    try:
        switch(cfg, mods, speedups, slow, fast)
    finally:
        # as found, for the next history in the same process
        speedups.available = True
        speedups.disable()
        for m, k in PAIRS:
            setattr(mods[m], k, first[m, k])
        speedups.enable()


def switch(cfg, mods, speedups, slow, fast):
    if H.choose('replaced', (False, True)):
        # somebody else's versions: disabling gives back exactly the versions enabling replaced
        for m, k in PAIRS:
            slow[m, k] = [m, k]
            setattr(mods[m], k, slow[m, k])
    there = H.choose('available', (True, False))
    speedups.available = there
    on = False
    for i in range(cfg['steps']):
        if H.choose('step_%d' % i, (True, False)):
            speedups.enable()
            on = there
        else:
            speedups.disable()
            on = False
        H.check(speedups.enabled == on, 'speedups.enabled')
        for m, k in PAIRS:
            H.check(getattr(mods[m], k) is (fast[m, k] if on else slow[m, k]), 'function in use')
    H.reach('on' if on else 'off')


def configs(tier):
    out = []
    deep = tier != 'quick'

    def add(name, harness, cost=1, reach=('done',), **kw):
        out.append(dict(name=name, harness=harness, impls=('cy',), reach=list(reach), cost=cost, unwind=300, **kw))
    out.append(dict(name='switch', harness='h_switch', impls=('cy',), steps=9 if deep else 6, reach=['on', 'off'], cost=10, unwind=300))

    for fn in ('label_stats', 'label_min_index'):
        for data, labels, shape, n, fp in (('float32', 'int32', (1, 3), None, True), ('float64', 'int32', (3, 1), None, True),
                                           ('float32', 'int32', (2, 2), None, False), ('float64', 'int32', (2, 2), None, False),
                                           ('float32', 'int32', (1, 3), 0, False), ('float64', 'int32', (1, 3), 0, False),
                                           ('float32', 'int32', (1, 3), 4, True), ('float64', 'int32', (1, 3), 4, True),
                                           ('float64', 'int64', (1, 3), None, False), ('float32', 'int64', (2, 2), 4, False),
                                           ('float32', 'uint8', (3, 1), None, False), ('float64', 'uint8', (1, 3), 4, True),
                                           ('int32', 'int16', (2, 2), None, False)):
            add('%s_%s_%s_%s_%dx%d%s' % ((fn, data, labels, n) + shape + ('_fp' if fp else '',)), 'h_label', function=fn, data=data, labels=labels,
                shape=shape, nlabels=n, maxlabel=2, fp=fp, cost=30 if fp and n is None else 5)
        add('%s_negative' % fn, 'h_label', function=fn, data='float32', labels='int32', shape=(1, 3), nlabels=3, maxlabel=2, minlabel=-2, cost=5)
        if deep:
            for data in ('float32', 'float64'):
                for labels in ('int32', 'int64'):
                    add('%s_%s_%s_3x3' % (fn, data, labels), 'h_label', function=fn, data=data, labels=labels, shape=(3, 3), nlabels=None, maxlabel=3, fp=True, cost=60)
    for data, labels, shape in (('float32', 'int32', (2, 2)), ('float64', 'int32', (1, 3)), ('float64', 'int64', (3, 1)), ('float32', 'uint8', (1, 3)),
                                ('int32', 'int16', (1, 3)), ('float64', 'int16', (3, 1))):
        for n in (None, 0, 4):
            add('label_data_%s_%s_%s' % (data, labels, n), 'h_label', function='label_data', data=data, labels=labels, shape=shape, nlabels=n, maxlabel=2,
                background=(0, 1, 5) if shape != (2, 2) else (0, 2), cost=10)
        add('label_data_%s_%s_plain' % (data, labels), 'h_label', function='label_data', data=data, labels=labels, shape=shape, nlabels=None, maxlabel=2, cost=5)
    add('label_data_negative', 'h_label', function='label_data', data='float32', labels='int32', shape=(1, 3), nlabels=3, maxlabel=2, minlabel=-2,
        background=(-1, 0), cost=5)
    for flats in (True, False):
        w = 'flats' if flats else 'noflats'
        add('sweep_%s_3x3_fp' % w, 'h_sweep', flats=flats, shape=(3, 3), fp=True, cost=60)
        for shape in ((3, 3), (3, 4), (4, 3), (4, 4)) + (((4, 5), (5, 5)) if deep else ()):
            add('sweep_%s_%dx%d' % ((w,) + shape), 'h_sweep', flats=flats, shape=shape, cost=10 * (shape[0] - 2) * (shape[1] - 2))
    for shape in ((3, 3), (3, 4), (2, 2), (2, 3)) + (((4, 4), (5, 3)) if deep else ()):
        add('d8_%dx%d' % shape, 'h_d8', shape=shape, cost=10)
    for shape in ((2, 2), (1, 3), (3, 1)) + (((1, 4), (4, 1), (2, 3), (3, 2)) if deep else ()):
        add('accum_any_%dx%d' % shape, 'h_accum', shape=shape, domain='any', loopcheck=3, cost=30, split=True)
    for dom in ('s',) if not deep else sorted(c06.DOMAINS):
        add('accum_%s_3x3' % dom, 'h_accum', shape=(3, 3), domain=dom, loopcheck=3, cost=40, split=True)
    for shape in ((1, 3), (3, 1)) + (((2, 2),) if deep else ()):
        add('trace_%dx%d' % shape, 'h_trace', shape=shape, loopcheck=3, cost=30, split=True)
    for dt in ('int32', 'int64', 'int16', 'uint8'):
        if deep or dt in ('int32', 'int16'):
            add('watersheds_2x2_%s' % dt, 'h_water', shape=(2, 2), dtype=dt, labels=(0, 3) if dt == 'uint8' else (-1, 2), loopcheck=3, cost=30, split=True)
        add('watersheds_1x3_%s' % dt, 'h_water', shape=(1, 3), dtype=dt, labels=(int(np.iinfo(dt).min), int(np.iinfo(dt).max)), loopcheck=3, cost=10, split=True)
    if deep:
        for dom in sorted(c06.DOMAINS):
            add('watersheds_%s_3x3' % dom, 'h_water', shape=(3, 3), dtype='int32', domain=dom, loopcheck=3, cost=100, split=True)
            add('trace_%s_3x3' % dom, 'h_trace', shape=(3, 3), domain=dom, loopcheck=3, cost=100, split=True)
    return out
