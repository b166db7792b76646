"""C13: stream lines trace the flow paths from node to node."""
import numpy as np
from engine import h as H
from checks import c06, c12, lib
from checks.c12 import h_lines

PROPERTY = 'C13'
BOUNDS = ('the stream tool with stream lines on label patterns of 3x3, 3x4, 4x3, 3x5, 5x3 and 4x4 cells with 2 to 5 bluespots, pour points in several '
          'orders, every draining assignment of directions from the listed sets to the cells; thorough: 4x4, 5x4, 3x4 and 4x5 patterns (path-wise '
          'symbolic execution); every geotransform (symbolic) for three vertices')
OUTSIDE = c12.OUTSIDE


def h_transform(cfg):
    """vertices are the images of the cell centres, whatever the geotransform"""
    from malstroem import streams
    from checks import fakes
    t = tuple([H.real('t%d' % k) for k in range(6)])
    f = np.array([[2, 2, 2], [2, 1, 4], [2, 2, 2]], dtype=np.uint8)
    lab = np.array([[0, 0, 0], [1, 0, 0], [0, 0, 2]], dtype=np.int32)
    feats = []
    for k, v in ((0, (0, 2)), (1, (1, 0)), (2, (2, 2))):
        p = dict(bspot_id=k, cell_row=v[0], cell_col=v[1], bspot_dmax=1.0, bspot_area=1.0, bspot_vol=1.0, wshed_area=1.0, bspot_fumm=1.0)
        feats.append(dict(id=k, type='Feature', geometry=dict(type='Point', coordinates=[0.0, 0.0]), properties=p))
    nodes, lines = fakes.VMem(), fakes.VMem()
    streams.StreamTool(fakes.VMem(feats), fakes.Mem(lab, t), fakes.Mem(f, t), nodes, lines).process()
    want = {0: [(0, 2)], 1: [(1, 0), (1, 1), (0, 2)], 2: [(2, 2)]}
    for x in nodes.features:
        v = want[x['properties']['nodeid']][0]
        g = x['geometry']['coordinates']
        H.check(len(g) == 2, 'x and y')
        H.check(H.same(g[0], t[0] + (v[1] + 0.5) * t[1] + (v[0] + 0.5) * t[2]), 'x of the cell centre')
        H.check(H.same(g[1], t[3] + (v[1] + 0.5) * t[4] + (v[0] + 0.5) * t[5]), 'y of the cell centre')
    H.check(len(lines.features) == 3, 'a line per node')
    for x in lines.features:
        w = want[x['properties']['nodeid']]
        cs = x['geometry']['coordinates']
        H.check(len(cs) == len(w), 'a vertex per cell')
        for g, v in zip(cs, w):
            H.check(len(g) == 2, 'x and y')
            H.check(H.same(g[0], t[0] + (v[1] + 0.5) * t[1] + (v[0] + 0.5) * t[2]), 'x of the cell centre')
            H.check(H.same(g[1], t[3] + (v[1] + 0.5) * t[4] + (v[0] + 0.5) * t[5]), 'y of the cell centre')
    H.reach('done')


def configs(tier):
    out = c12.scenes(tier, 'h_lines')
    out.append(dict(name='transform', harness='h_transform', impl='py', reach=['done'], unwind=200))
    return out
