"""C14: the final state conserves water and cascades spill downstream."""
from engine import h as H
from checks import fakes

PROPERTY = 'C14'
BOUNDS = ('every forest of up to 4 nodes in every order (thorough: 5), chains, stars and binary trees of 6 to 9 nodes, every real non-negative capacity '
          'and initial volume (zero included), node ids including 0, through FinalStateCalculator, Network and the finalvolumes command')
OUTSIDE = 'larger networks; floating-point rounding of the sums (exact reals); links with cycles or to missing nodes'


def topology(cfg):
    """downstream position of every node (None: root)"""
    n = cfg['n']
    if 'down' in cfg:
        return list(cfg['down'])
    down = [H.choose('down_%d' % k, (None,) + tuple([j for j in range(n) if j != k])) for k in range(n)]
    for k in range(n):
        seen, j = 0, k
        while j is not None and seen <= n:
            j = down[j]
            seen += 1
        H.assume(seen <= n)
    return down


def features(cfg, down, attribute):
    n = len(down)
    ids = cfg['ids']
    out = []
    for k in range(n):
        junction = k in cfg.get('junctions', ())
        cap = 0.0 if junction else H.real('cap_%d' % k, 0)
        p = dict(nodeid=ids[k], dstrnodeid=None if down[k] is None else ids[down[k]], nodetype='junction' if junction else 'pourpoint',
                 bspot_id=None if junction else ids[k], bspot_area=3.0, bspot_vol=cap, wshed_area=7.0 + k, note='n%d' % k)
        p[attribute] = 0 if junction else H.real('water_%d' % k, 0)
        out.append(dict(type='Feature', id=ids[k], geometry=dict(type='Point', coordinates=[float(k), 1.0]), properties=p))
    return out


def verify(down, ids, cap, water, get, label=''):
    n = len(down)
    spill, v = [], []
    for k in range(n):
        e = get(ids[k])
        spill.append(e['spillv'])
        v.append(e['v'])
    for k in range(n):
        e = get(ids[k])
        inflow = water[k]
        for j in range(n):
            if down[j] == k:
                inflow = inflow + spill[j]
        H.check(H.same(v[k], H.ite(inflow < cap[k], inflow, cap[k])), 'stored volume is the smaller of capacity and inflow' + label)
        H.check(H.same(spill[k], H.ite(inflow > cap[k], inflow - cap[k], 0.0)), 'spill is the excess' + label)
        if e['pctv'] is None:
            H.check(cap[k] == 0, 'percent filled is absent exactly for zero capacity' + label)
        else:
            H.check(cap[k] != 0, 'percent filled is absent exactly for zero capacity' + label)
            H.check(H.same(e['pctv'] * cap[k], 100 * v[k]), 'percent filled' + label)
    H.check(H.same(H.total(v) + H.total([spill[k] for k in range(n) if down[k] is None]), H.total(water)), 'water is conserved' + label)


def h_calculator(cfg):
    from malstroem import io, network
    from malstroem.scripts import finalstate
    down = topology(cfg)
    attr = cfg.get('attribute', 'inputv')
    fs = features(cfg, down, attr)
    ids = cfg['ids']
    cap = [f['properties']['bspot_vol'] for f in fs]
    water = [f['properties'][attr] for f in fs]
    if cfg.get('how') == 'command':
        fakes.DISK = disk = fakes.Disk()
        io.VectorReader = fakes.VReader
        io.VectorWriter = fakes.VWriter
        disk.vectors['in', 'initvolumes'] = dict(features=fs, crs='CRS')
        finalstate.process_net.callback('in', 'initvolumes', attr, 'out', 'finalvolumes', 'gpkg', [], [])
        got = disk.vectors['out', 'finalvolumes']['features']
    else:
        w = fakes.VMem()
        network.FinalStateCalculator(fakes.VMem(fs), attr, w).process()
        H.check(w.writes == 1, 'written once')
        got = w.features
    H.check(len(got) == len(fs), 'every node is written once')
    by = {}
    for g in got:
        p = g['properties']
        H.check(p['nodeid'] not in by, 'every node is written once')
        by[p['nodeid']] = p
    for f in fs:
        i = f['properties']['nodeid']
        H.check(i in by, 'every node is written once')
        g = by[i]
        for name in f['properties']:
            if name not in ('spillv', 'v', 'pctv'):
                H.check(g[name] == f['properties'][name] if f['properties'][name] is not None else g[name] is None, 'other attributes are kept')
    for g in got:
        for f in fs:
            if f['id'] == g['properties']['nodeid']:
                H.check(g['geometry']['coordinates'][0] == f['geometry']['coordinates'][0], 'geometry is kept')

    def get(i):
        return by[i]
    verify(down, ids, cap, water, get)
    H.reach('done')


def h_twice(cfg):
    from malstroem import network
    down = topology(cfg)
    fs = features(cfg, down, 'rain')
    ids = cfg['ids']
    nodes = [f['properties'] for f in fs]
    cap = [p['bspot_vol'] for p in nodes]
    water = [p['rain'] for p in nodes]
    other = [H.real('other_%d' % k, 0) for k in range(len(nodes))]
    for p, o in zip(nodes, other):
        p['other'] = o
    net = network.Network()
    net.add_nodes(nodes)
    first = {e['nodeid']: dict(e) for e in net.rain_event('rain')}
    # a different event in between does not matter
    mid = {e['nodeid']: dict(e) for e in net.rain_event('other')}
    again = {e['nodeid']: dict(e) for e in net.rain_event('rain')}
    verify(down, ids, cap, water, lambda i: first[i])
    verify(down, ids, cap, other, lambda i: mid[i], ' (second event)')
    # the same attribute with other volumes
    for p, o in zip(nodes, other):
        p['rain'] = o
    late = {e['nodeid']: dict(e) for e in net.rain_event('rain')}
    verify(down, ids, cap, other, lambda i: late[i], ' (after the volumes changed)')
    H.check(len(again) == len(first), 'running again gives the same result')
    for i in ids:
        for name in ('v', 'spillv'):
            H.check(H.same(first[i][name], again[i][name]), 'running again gives the same result')
    H.reach('done')


def configs(tier):
    out = []

    def add(name, h, **kw):
        out.append(dict(dict(name=name, harness='h_' + h, impl='py', reach=['done'], unwind=400, chunk=40, fork=True), **kw))
    add('forests_3', 'calculator', n=3, ids=(2, 0, 5), cost=5)
    add('forests_4', 'calculator', n=4, ids=(1, 0, 3, 2), junctions=(2,), cost=30)
    add('chain_9', 'calculator', n=9, down=(1, 2, 3, 4, 5, 6, 7, 8, None), ids=(8, 7, 6, 5, 4, 3, 2, 1, 0), junctions=(1, 3, 5), cost=10)
    add('twice_3', 'twice', n=3, ids=(0, 1, 2), cost=5)
    add('command_3', 'calculator', n=3, ids=(7, 1, 0), how='command', attribute='vol_m3', cost=5)
    add('chain_6', 'calculator', n=6, down=(3, 0, None, 2, 5, 1), ids=(5, 4, 0, 2, 1, 3), junctions=(1, 3), cost=10)
    add('star_7', 'calculator', n=7, down=(4, 4, 4, 4, None, 4, 4), ids=(0, 1, 2, 3, 4, 5, 6), junctions=(0, 1, 5, 6), cost=10)
    add('tree_7', 'calculator', n=7, down=(None, 0, 0, 1, 1, 2, 2), ids=(0, 3, 6, 1, 2, 5, 4), junctions=(1, 2), cost=10)
    if tier != 'quick':
        add('forests_4_all', 'calculator', n=4, ids=(1, 0, 3, 2), cost=30)
        add('forests_5', 'calculator', n=5, ids=(9, 0, 3, 2, 4), junctions=(1, 3), cost=100, timeout=3000, budget=3000, wall=3500)
        add('twice_4', 'twice', n=4, ids=(3, 1, 0, 2), junctions=(1,), cost=40, timeout=1500)
    return out
