"""C17: the approximate water level is bounded and monotone in the stored volume."""
import numpy as np
from engine import h as H
from checks import fakes

PROPERTY = 'C17'
BOUNDS = ('bluespots of 1 to 5 cells in histograms of 1 to 4 bins (thorough: up to 6 cells and 5 bins), bin width 0.5 and 0.1, every real elevation of every cell within '
          'its bin, every spill level above the highest cell, every pair of stored volumes from zero to capacity; with background, empty (zero capacity) '
          'bluespot and junction nodes, in both orders, through approx_water_level_io and the finallevels command')
OUTSIDE = ('floating-point rounding (exact reals); larger histograms; histograms that do not belong to the bluespot; numpy.interp (encoded by its documented '
           'contract, compared by replay on every traced input)')

COUNTS = {1: ((1,), (3,)), 2: ((1, 1), (2, 1)), 3: ((1, 0, 1), (2, 1, 1), (1, 2, 1)), 4: ((1, 0, 0, 1), (1, 1, 2, 1), (2, 0, 1, 1)),
          5: ((1, 0, 0, 0, 1), (1, 1, 1, 1, 1), (2, 0, 1, 0, 2))}


def bluespot(cfg):
    """cells in order of the histogram bin; hypsometry attributes as the hyps tool writes them (checked by C16)"""
    res, area, low = cfg['res'], cfg.get('area', 0.25), cfg.get('low', -1.0)
    counts = H.choose('counts', COUNTS[cfg['bins']])
    z = []
    for j in range(len(counts)):
        for i in range(counts[j]):
            x = H.real('z_%d_%d' % (j, i), low + j * res, low + (j + 1) * res)
            H.assume(x < low + (j + 1) * res)
            z.append(x)
    zmin, zmax = z[0], z[-1]
    for x in z:
        H.assume(H.land(zmin <= x, x <= zmax))
    sill = H.real('sill', low, low + 20)
    H.assume(sill > zmax)
    vol = H.total([sill - x for x in z]) * area
    p = dict(bspot_id=1, cell_area=area, bspot_dmax=sill - zmin, bspot_vol=vol, hist_counts='|'.join([str(c) for c in counts]),
             hist_num_bins=len(counts), hist_lower_bound=low, hist_upper_bound=low + len(counts) * res, hist_resolution=res, zmin=zmin, zmax=zmax)
    return p, sill


def others():
    """background and a bluespot without volume"""
    b = dict(bspot_id=0, cell_area=0.25, bspot_dmax=0.0, bspot_vol=0.0, hist_counts='', hist_num_bins=0, hist_lower_bound=0, hist_upper_bound=0,
             hist_resolution=-1, zmin=-3.0, zmax=9.0)
    e = dict(bspot_id=2, cell_area=0.25, bspot_dmax=0.0, bspot_vol=0.0, hist_counts='2', hist_num_bins=1, hist_lower_bound=4.0, hist_upper_bound=4.5,
             hist_resolution=0.5, zmin=4.125, zmax=4.125)
    return [b, e]


def node(i, bs, kind, v):
    return dict(type='Feature', id=i, geometry=dict(type='Point', coordinates=[float(i), 2.0]),
                properties=dict(nodeid=i, dstrnodeid=None, nodetype=kind, bspot_id=bs, v=v, spillv=0.0, wshed_area=5.0))


def levels(cfg, hyps, nodes):
    from malstroem import approx, io
    from malstroem.scripts import finalstate
    feats = [dict(type='Feature', id=p['bspot_id'], geometry=None, properties=p) for p in hyps]
    if cfg['how'] == 'io':
        w = fakes.VMem()
        approx.approx_water_level_io(fakes.VMem(nodes), fakes.VMem(feats), w)
        H.check(w.writes == 1, 'written once')
        return w.features
    fakes.DISK = disk = fakes.Disk()
    io.VectorReader, io.VectorWriter = fakes.VReader, fakes.VWriter
    disk.vectors['vols', 'finalvolumes'] = dict(features=nodes, crs='CRS')
    disk.vectors['hyps', 'h'] = dict(features=feats, crs='CRS')
    finalstate.process_finallevels.callback('vols', 'finalvolumes', 'hyps', 'h', 'out', 'levels', 'geojson', [], [])
    return disk.vectors['out', 'levels']['features']


def h_level(cfg):
    p, sill = bluespot(cfg)
    vol, zmin = p['bspot_vol'], p['zmin']
    v = [H.real('v_%d' % k, 0) for k in range(2)]
    H.assume(H.land(v[0] <= v[1], v[1] <= vol))
    hyps = [p] + (others() if cfg.get('more') else [])
    got = []
    for k in range(2):
        nodes = [node(1, 1, 'pourpoint', v[k])]
        if cfg.get('more'):
            nodes = nodes + [node(0, 0, 'pourpoint', 0.0), node(7, None, 'junction', 0.0), node(2, 2, 'pourpoint', 0.0)]
            if H.choose('reverse', (False, True)):
                nodes.reverse()
                hyps = hyps[::-1]
        out = levels(cfg, hyps, nodes)
        want = [n['properties']['nodeid'] for n in nodes if n['properties']['nodetype'] == 'pourpoint']
        H.check(sorted([f['properties']['nodeid'] for f in out]) == sorted(want), 'every pour point gets a level and junctions get none')
        for f in out:
            q = f['properties']
            for n in nodes:
                if n['properties']['nodeid'] == q['nodeid']:
                    for name in n['properties']:
                        if n['properties'][name] is not None:
                            H.check(q[name] == n['properties'][name], 'other attributes are kept')
            if q['nodeid'] == 2:
                H.check(H.land(q['approx_z'] == 4.125, q['approx_dmax'] == 0), 'a bluespot without volume is at its lowest terrain')
            if q['nodeid'] == 1:
                got.append(q)
    for k in range(2):
        z = got[k]['approx_z']
        H.record('z_%d' % k, z)
        H.check(H.leq(zmin, z), 'the level is not below the lowest terrain')
        H.check(H.leq(z, sill), 'the level is not above the spill level')
        H.check(H.same(got[k]['approx_dmax'], z - zmin), 'depth is the level minus the lowest terrain')
        H.check(H.implies(v[k] == vol, H.same(z, sill)), 'a full bluespot is at its spill level')
        H.check(H.implies(v[k] == 0, H.leq(z, zmin)), 'an empty bluespot is at its lowest terrain')
    H.check(H.leq(got[0]['approx_z'], got[1]['approx_z']), 'the level does not fall when the volume rises')
    H.reach('done')


def configs(tier):
    out = []

    def add(name, h, **kw):
        out.append(dict(dict(name=name, harness='h_' + h, impl='py', reach=['done'], unwind=400, chunk=1, fork=True, how='io'), **kw))
    for n in (1, 2, 3, 4):
        add('bins_%d' % n, 'level', bins=n, res=0.5, cost=10 * n)
    add('bins_3_tenth', 'level', bins=3, res=0.1, area=2.56, low=0.0, cost=30)
    add('bins_2_nodes', 'level', bins=2, res=0.5, more=True, cost=10)
    add('bins_2_command', 'level', bins=2, res=0.5, more=True, how='command', cost=10)
    if tier != 'quick':
        for n in (3, 4, 5):
            for r in (0.1, 2.5):
                add('bins_%d_%s' % (n, r), 'level', bins=n, res=r, low=30.0, area=1.0, cost=100, timeout=1500, budget=3000)
    return out
