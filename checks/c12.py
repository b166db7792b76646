"""C12: the stream network follows the flow paths between bluespots.  The harness of C13 is here too."""
import numpy as np
from engine import h as H
from checks import c04, c06, fakes, lib

PROPERTY = 'C12'
BOUNDS = ('links: every labelling with ids 0..3 (and no / 0 background), every pour point cell, rasters of 1x4 and 2x2 cells with all directions and of '
          '3x3 cells with direction triples; network with junctions (stream tool with and without stream lines): label patterns of 3x3, 3x4, 4x4 and '
          '2x5 cells with up to 5 bluespots, pour points in any of several orders, every draining assignment of directions from the listed sets to '
          'the cells (path-wise symbolic execution)')
OUTSIDE = ('larger rasters and other label patterns; pour point layers that lack bluespots of the raster; a background pour point in the middle of a '
           'stream (node 0 is placed on a cell that flows off the raster, as the bluespot tool does)')


def first_label(f, lab, src, background):
    """id of the first bluespot other than src on the path from every cell (-1: none)"""
    shape = f.shape
    g = H.integers('first', shape, -1, 9, np.int64)
    for v in lib.cells(shape):
        w = -1
        for k in range(8):
            a, b = lib.DIRS[k]
            t = (v[0] + a, v[1] + b)
            if lib.inside(shape, t[0], t[1]):
                w = H.ite(f[v] == k, g[t], w)
        stop = lab[v] != src
        if background is not None:
            stop = H.land(stop, lab[v] != background)
        H.assume(g[v] == H.ite(stop, lab[v], w))
    return g


def h_links(cfg):
    from malstroem.algorithms import net
    shape = cfg['shape']
    f = c06.directions(cfg, nodir=False)
    lab = H.integers('l', shape, 0, 3, np.int32)
    bg = cfg.get('background', 0)
    cell = H.choose('cell', lib.cells(shape))
    g = first_label(f, lab, lab[cell], bg)
    if cfg.get('one'):
        got, geom = net.next_downstream_label(f, lab, cell, bg)
    else:
        nodes = net.pourpoint_network(f, lab, [cell], bg)
        H.check(len(nodes) == 1, 'one node per pour point')
        H.check(nodes[0]['nodetype'] == 'pourpoint', 'nodes are pour points')
        H.check(tuple(nodes[0]['pix']) == cell, 'node at the pour point')
        H.check(nodes[0]['id'] == 0, 'node has the id of the pour point')
        got = nodes[0]['downstream_id']
    if got is None:
        H.check(g[cell] == -1, 'no downstream node exactly when the path meets no other bluespot')
        H.reach('none')
    else:
        H.check(got == g[cell], 'downstream node is the first other bluespot on the flow path')
        H.reach('some')


# ---- the stream tool
T0 = (0.0, 1.0, 0.0, 0.0, 0.0, -1.0)


def scene(cfg):
    """labels and pour points from the pattern: digits are bluespot cells, letters a.. the pour point of bluespot 1.., '@' the background's"""
    pat = cfg['pattern']
    shape = (len(pat), len(pat[0]))
    lab = np.zeros(shape, dtype=np.int32)
    pps = {}
    for r, c in lib.cells(shape):
        ch = pat[r][c]
        if ch.isdigit():
            lab[r, c] = int(ch)
        elif ch.isalpha():
            lab[r, c] = ord(ch) - 96
            pps[ord(ch) - 96] = (r, c)
        elif ch == '@':
            pps[0] = (r, c)
    f = np.zeros(shape, dtype=np.uint8)
    fixed = cfg.get('fixed', {})
    dom = c06.DOMAINS[cfg['domain']] if cfg['domain'] != 'all' else tuple(range(8))
    for v in lib.cells(shape):
        k = '%d,%d' % v
        if pps.get(0) == v:
            f[v] = c04.codes(shape, v[0], v[1])
        elif k in fixed:
            f[v] = fixed[k]
        elif cfg.get('edges') and lib.is_edge(shape, v[0], v[1]) and lab[v] == 0:
            f[v] = c04.codes(shape, v[0], v[1])
        else:
            f[v] = c06.one_of('f_%d_%d' % v, dom)
    if cfg['domain'] == 'all':
        c06.acyclic(f)
    return f, lab, pps


def path(f, v):
    """cells from v to the edge of the raster"""
    out = [v]
    for step in range(f.shape[0] * f.shape[1]):
        w = None
        for k in range(8):
            if f[v] == k:
                w = (v[0] + lib.DIRS[k][0], v[1] + lib.DIRS[k][1])
                break
        if w is None or not lib.inside(f.shape, w[0], w[1]):
            return out
        v = w
        out.append(v)
    return out


def run_tool(cfg):
    from malstroem import streams
    f, lab, pps = scene(cfg)
    ids = sorted(pps)
    n = len(ids)
    order = [ids, ids[::-1], ids[n // 2:] + ids[:n // 2]][cfg.get('order', 0)]
    feats = []
    for k in order:
        p = dict(bspot_id=k, cell_row=pps[k][0], cell_col=pps[k][1], bspot_dmax=0.5 + k, bspot_area=10.0 + k, bspot_vol=20.0 + k, wshed_area=30.0 + k, bspot_fumm=1.0)
        feats.append(dict(id=k, type='Feature', geometry=dict(type='Point', coordinates=[pps[k][1] + 0.5, -pps[k][0] - 0.5]), properties=p))
    nodes, lines = fakes.VMem(), fakes.VMem()
    rf, rl = f.copy(), lab.copy()
    streams.StreamTool(fakes.VMem(feats), fakes.Mem(rl, T0), fakes.Mem(rf, T0), nodes, lines if cfg.get('lines', True) else None).process()
    H.check(nodes.writes == 1, 'nodes are written once')
    ns = {}
    for x in nodes.features:
        p = x['properties']
        i = p['nodeid']
        H.check(i not in ns, 'node ids are unique')
        H.check(x['id'] == i, 'feature id is the node id')
        ns[i] = p
        H.check(x['geometry']['type'] == 'Point', 'nodes are points')
        H.check(tuple(x['geometry']['coordinates']) == (p['cell_col'] + 0.5, -p['cell_row'] - 0.5), 'nodes lie at the centre of their cell')
    ls = None
    if cfg.get('lines', True):
        H.check(lines.writes == 1, 'stream lines are written once')
        ls = {}
        for x in lines.features:
            p = x['properties']
            i = p['nodeid']
            H.check(i not in ls, 'one line per node')
            H.check(x['id'] == i and x['geometry']['type'] == 'LineString', 'a line per node')
            H.check(i in ns and p['dstrnodeid'] == ns[i]['dstrnodeid'], 'a line carries the link of its node')
            cs = []
            for q in x['geometry']['coordinates']:
                c, r = q[0] - 0.5, -q[1] - 0.5
                H.check(c == int(c) and r == int(r), 'line vertices are cell centres')
                cs.append((int(r), int(c)))
            ls[i] = cs
    return f, lab, pps, ns, ls


def expected(f, lab, pps):
    out, paths = {}, {}
    for k in sorted(pps):
        down = None
        p = path(f, pps[k])
        cut = len(p)
        for j in range(len(p)):
            l = int(lab[p[j]])
            if l != 0 and l != k:
                down = l
                cut = j + 1
                break
        out[k] = down
        paths[k] = p[:cut]
    return out, paths


def h_network(cfg):
    f, lab, pps, ns, ls = run_tool(cfg)
    exp, paths = expected(f, lab, pps)
    top = max(pps)
    if cfg.get('probe'):
        H.record('exp', str(exp))
    for k in pps:
        H.check(k in ns and ns[k]['nodetype'] == 'pourpoint', 'every pour point is a node')
        p = ns[k]
        H.check((p['cell_row'], p['cell_col']) == pps[k], 'pour point node lies at the pour point')
        H.check(p['bspot_id'] == k and p['bspot_area'] == 10.0 + k and p['bspot_vol'] == 20.0 + k and p['wshed_area'] == 30.0 + k, 'pour point node has the attributes of its bluespot')
    for i in ns:
        if i not in pps:
            p = ns[i]
            H.check(p['nodetype'] == 'junction', 'every other node is a junction')
            H.check(i > top, 'junction ids are fresh')
            H.check(p['bspot_id'] is None and p['bspot_area'] == 0 and p['bspot_vol'] == 0 and p['wshed_area'] == 0, 'junctions store nothing')
            H.check(ls is not None, 'no junctions without stream lines')
        d = ns[i]['dstrnodeid']
        H.check(d is None or d in ns, 'links lead to nodes')
        seen = 0
        while d is not None and seen <= len(ns):
            seen += 1
            d = ns[d]['dstrnodeid']
        H.check(seen <= len(ns), 'links form a forest')
    for k in pps:
        d = ns[k]['dstrnodeid']
        seen = 0
        while d is not None and d not in pps and seen <= len(ns):
            seen += 1
            d = ns[d]['dstrnodeid']
        H.check(d == exp[k], 'following links, skipping junctions, leads to the first other bluespot on the flow path')
    if len(ns) > len(pps):
        H.reach('junction')
    H.reach('done')


def h_lines(cfg):
    f, lab, pps, ns, ls = run_tool(cfg)
    exp, paths = expected(f, lab, pps)
    steps = {}
    for i in ns:
        H.check(i in ls and len(ls[i]) > 0, 'every node has a line')
        l, p = ls[i], ns[i]
        H.check(l[0] == (p['cell_row'], p['cell_col']), 'a line starts at the cell of its node')
        for a, b in zip(l, l[1:]):
            q = path(f, a)
            H.check(len(q) > 1 and q[1] == b, 'every step follows the flow direction')
            H.check((a, b) not in steps, 'no two lines run along the same step')
            steps[a, b] = i
        d = p['dstrnodeid']
        e = l[-1]
        if d is None:
            H.check(len(path(f, e)) == 1, 'the line ends at the raster edge')
        elif d in pps:
            H.check(lab[e] == d, 'the line ends in the downstream bluespot')
            src = i if i in pps else 0
            for q in l[:-1]:
                H.check(lab[q] == 0 or lab[q] == src, 'the line ends where it first enters another bluespot')
        else:
            H.check(d in ns and e == (ns[d]['cell_row'], ns[d]['cell_col']), 'the line ends at the cell of the junction')
    for k in pps:
        whole = list(ls[k])
        d = ns[k]['dstrnodeid']
        seen = 0
        while d is not None and d not in pps and seen <= len(ns):
            seen += 1
            H.check(whole[-1] == ls[d][0], 'lines join at the junction')
            whole = whole + ls[d][1:]
            d = ns[d]['dstrnodeid']
        H.check(whole == paths[k], 'lines joined along the links are the flow path')
    if len(ns) > len(pps):
        H.reach('junction')
    H.reach('done')


def scenes(tier, harness):
    """configurations of the stream tool"""
    out = []

    def add(name, pattern, domain, **kw):
        out.append(dict(dict(name=name, harness=harness, impl='py', pattern=pattern, domain=domain, reach=['done', 'junction'], unwind=400, chunk=40, cost=20, budget=700, fork=True), **kw))
    def row(r, m, dirs):
        return {'%d,%d' % (r, c): dirs[c % len(dirs)] for c in range(m)}

    def col(c, n, d):
        return {'%d,%d' % (r, c): d for r in range(n)}
    add('fork_3x4_s', ('abc.', '....', '.d@.'), 's', order=1, fixed=row(2, 4, (4,)))
    add('fork_4x3_e', ('a..', 'b.d', 'c..', '..@'), 'e', order=2, fixed=col(2, 4, 2))
    add('free_3x3', ('a.b', '...', '.@.'), 'all', order=0, fixed={'0,1': 0})
    add('wide_3x5_s', ('abcde', '.....', '..@..'), 's', order=1, fixed=dict(row(1, 5, (3, 3, 4, 5, 5)), **row(2, 5, (4,))))
    add('deep_5x3_n', ('.@.', '...', '...', '...', 'acb'), 'n', order=2, fixed=dict(dict(row(0, 3, (0,)), **row(1, 3, (1, 0, 7))), **{'2,1': 0}))
    add('two_5x5_s', ('abcde', '.....', '.....', '.....', '.....'), 's', order=0, fixed=dict(dict(row(1, 5, (4, 5, 4, 4, 5)), **row(2, 5, (3, 4, 5, 3, 4))), **dict(row(3, 5, (4,)), **row(4, 5, (4,)))))
    add('edge_4x4', ('....', '.ab.', '.2..', '...@'), 'all', edges=True, order=2, fixed={'2,1': 1})
    if tier != 'quick':
        long = dict(timeout=3000, budget=3000, wall=3500)
        add('fork_4x4_s', ('abc.', '....', '.4..', '.d@.'), 's', order=1, fixed=row(3, 4, (4,)), **long)
        add('deep_5x4_s', ('abcd', '....', '....', '....', '@...'), 's', order=2, fixed=dict(row(4, 4, (4,)), **row(3, 4, (3, 4))), **long)
        add('free_3x4', ('a..b', '....', '.@c.'), 'all', order=1, fixed={'0,1': 0, '0,2': 0, '2,0': 4}, **long)
        add('fork_4x5_se', ('a....', '.b..d', '.2...', 'c...@'), 'se', order=1, fixed=dict(row(3, 5, (4,)), **{'2,1': 1}), **long)
    return out


def configs(tier):
    out = []

    def add(name, **kw):
        out.append(dict(dict(name=name, harness='h_links', impl='py', reach=['none', 'some'], unwind=400, chunk=30), **kw))
    add('links_1x4', shape=(1, 4), cost=4)
    add('links_2x2', shape=(2, 2), cost=4)
    add('links_2x2_nobackground', shape=(2, 2), background=None, one=True)
    for d in ('se', 'n') if tier == 'quick' else sorted(c06.DOMAINS):
        add('links_3x3_' + d, shape=(3, 3), domain=d, cost=10)
        if tier != 'quick':
            add('links_3x4_' + d, shape=(3, 4), domain=d, cost=30)
            add('links_4x4_' + d, shape=(4, 4), domain=d, cost=30)
    add('links_2x3', shape=(2, 3), cost=10)
    out += scenes(tier, 'h_network')
    out.append(dict(scenes('quick', 'h_network')[-1], name='nolines_4x4', lines=False, reach=['done']))
    return out
