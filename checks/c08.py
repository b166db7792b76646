"""C08: zonal statistics."""
import numpy as np
from engine import h as H
from checks import lib

PROPERTY = 'C08'
BOUNDS = ('every data value (exact arithmetic) and every label raster: statistics and extreme positions on 2x3 cells with labels 0..2 (0..3 with the '
          'number of labels given), also extreme positions on 3x3; lists of values on 2x2 and 2x3 cells with labels 0..2 and background 0, 1 or 2; '
          'thorough: statistics on 3x3, lists with labels 0..3; float32, float64 and integer data with int32, int64 and small label types (the '
          'specialised and the general compiled version), both implementations')
OUTSIDE = 'rounding of the sums, NaN data, negative labels, larger rasters and more labels, integer data beyond 2^53'
INF = float('inf')


def inputs(cfg):
    dt = np.dtype(cfg['data'])
    if dt.kind == 'f':
        d = H.reals('d', cfg['shape'], dt)
    else:
        d = H.integers('d', cfg['shape'], -4, 4, dt)
    lab = H.integers('l', cfg['shape'], 0, cfg['maxlabel'], np.dtype(cfg['labels']))
    return d, lab


def highest(cfg, lab):
    if cfg['nlabels']:
        return cfg['maxlabel'], cfg['maxlabel']
    n = 0
    for v in lib.cells(lab.shape):
        n = H.ite(lab[v] > n, int(lab[v]), n)
    return None, n


def h_stats(cfg):
    from malstroem.algorithms import label
    d, lab = inputs(cfg)
    arg, n = highest(cfg, lab)
    s = label.label_stats(d, lab, arg) if arg is not None else label.label_stats(d, lab)
    cs = lib.cells(lab.shape)
    m = len(s)
    H.check(m == n + 1, 'one entry per label from 0 to the highest')
    for k in range(m):
        here = [lab[v] == k for v in cs]
        H.check(s[k]['count'] == H.count(here), 'count')
        H.check(H.same(s[k]['sum'], H.total([H.ite(c, float(d[v]), 0.0) for c, v in zip(here, cs)])), 'sum')
        for what, sign, empty in (('min', 1, INF), ('max', -1, -INF)):
            x = s[k][what]
            H.check(H.implies(H.lnot(H.lor(*here)), x == empty), '%s without cells' % what)
            H.check(H.implies(H.lor(*here), H.lor(*[H.land(c, x == d[v]) for c, v in zip(here, cs)])), '%s is one of the values' % what)
            for c, v in zip(here, cs):
                H.check(H.implies(c, x <= d[v] if sign > 0 else x >= d[v]), '%s bounds the values' % what)
    H.reach('done')


def h_index(cfg):
    from malstroem.algorithms import label
    d, lab = inputs(cfg)
    arg, n = highest(cfg, lab)
    f = getattr(label, cfg['function'])
    s = f(d, lab, arg) if arg is not None else f(d, lab)
    sign = 1 if cfg['function'] == 'label_min_index' else -1
    cs = lib.cells(lab.shape)
    m = len(s)
    H.check(m == n + 1, 'one entry per label from 0 to the highest')
    for k in range(m):
        here = [lab[v] == k for v in cs]
        x = s[k]['value']
        H.check(H.implies(H.lnot(H.lor(*here)), H.land(x == sign * INF, s[k]['row'] == -1, s[k]['col'] == -1)), 'entry without cells')
        for c, v in zip(here, cs):
            H.check(H.implies(c, x <= d[v] if sign > 0 else x >= d[v]), 'extreme value')
        H.check(H.implies(H.lor(*here), H.lor(*[H.land(c, s[k]['row'] == v[0], s[k]['col'] == v[1], x == d[v]) for c, v in zip(here, cs)])),
                'position holds the extreme value')
    H.reach('done')


def h_count(cfg):
    from malstroem.algorithms import label
    lab = H.integers('l', cfg['shape'], 0, cfg['maxlabel'], np.dtype(cfg['labels']))
    _, n = highest(dict(cfg, nlabels=False), lab)
    s = label.label_count(lab)
    m = len(s)
    H.check(m == n + 1, 'one entry per label from 0 to the highest')
    for k in range(m):
        H.check(s[k] == H.count([lab[v] == k for v in lib.cells(lab.shape)]), 'cell count')
    H.reach('done')


def h_data(cfg):
    """the list structure depends on the labels: they are forked, the values are symbolic"""
    from malstroem.algorithms import label
    shape = cfg['shape']
    dt = np.dtype(cfg['data'])
    d = H.reals('d', shape, dt) if dt.kind == 'f' else H.integers('d', shape, -50, 50, dt)
    lab = np.zeros(shape, dtype=np.dtype(cfg['labels']))
    for v in lib.cells(shape):
        lab[v] = H.choose('l_%d_%d' % v, list(range(cfg['maxlabel'] + 1)))
    bg = cfg['background']
    n = cfg['maxlabel'] if cfg['nlabels'] else int(max([lab[v] for v in lib.cells(shape)]))
    if cfg['nlabels']:
        r = label.label_data(d, lab, n, bg)
    else:
        r = label.label_data(d, lab, background=bg) if bg else label.label_data(d, lab)
    H.check(len(r) == n + 1, 'one list per label from 0 to the highest')
    for k in range(n + 1):
        want = [d[v] for v in lib.cells(shape) if lab[v] == k] if k != bg else []
        H.check(len(r[k]) == len(want), 'number of values of a label')
        for i in range(len(want)):
            H.check(r[k][i] == want[i], 'values of a label in raster order')
    H.reach('done')


def configs(tier):
    out = []
    both = ('py', 'cy')

    def add(h, n, m, data, labels, maxlabel, nlabels, cost=1, impls=both, **kw):
        out.append(dict(name='%s_%dx%d_%s_%s_%d%s%s' % (kw.get('function', h), n, m, data, labels, maxlabel, 'n' if nlabels else '', ''.join('_%s' % kw[k] for k in ('background',) if k in kw)),
                        shape=(n, m), data=data, labels=labels,
                        maxlabel=maxlabel, nlabels=nlabels, harness='h_' + h, impls=impls, reach=['done'], cost=cost, unwind=300, **kw))
    for data, labels in (('float32', 'int32'), ('float64', 'int32'), ('float64', 'int64'), ('int32', 'uint8')):
        add('stats', 2, 3, data, labels, 2, False)
    add('stats', 2, 3, 'float32', 'int32', 3, True)
    if tier != 'quick':
        for data, labels in (('float32', 'int32'), ('float64', 'int64')):
            add('stats', 3, 3, data, labels, 3, True, cost=100)
            add('stats', 3, 3, data, labels, 2, False, cost=100)
    for fn, impls in (('label_min_index', both), ('label_max_index', ('py',))):
        for data, labels in (('float64', 'int32'), ('float32', 'int32'), ('float64', 'int64')):
            add('index', 2, 3, data, labels, 2, False, function=fn, impls=impls)
        add('index', 3, 3, 'float64', 'int32', 3, True, function=fn, impls=impls)
    for labels in ('int32', 'int64'):
        add('count', 3, 3, '', labels, 3, True, impls=('py',))
    for bg in (0, 1, 2):
        for data, labels in (('float32', 'int32'), ('float64', 'int32'), ('float64', 'int64')):
            add('data', 2, 2, data, labels, 2, False, background=bg)
            if tier != 'quick':
                add('data', 2, 3, data, labels, 3, True, background=bg, cost=50)
    add('data', 2, 3, 'float32', 'int32', 2, True, background=0, cost=20)
    add('data', 2, 2, 'int16', 'int16', 2, False, background=1)
    return out
