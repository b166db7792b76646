"""C10: filter expressions mean what they say; anything else is rejected."""
import numpy as np
from engine import h as H

PROPERTY = 'C10'
BOUNDS = ('meaning: every real area-cell size choice of (0.25, 1, 0.015129), every real minimum <= maximum, sum and integer cell count of a bluespot, for comparisons '
          'of each field with each of six operators against numbers and fields on either side, chains, and / or combinations of up to four '
          'comparisons with every placement of one pair of parentheses, with and without spaces; rejection: every text of 1-6, 8 and 10 characters '
          '(thorough 1-10, 12 and 14), code points up to 0xd7ff')
OUTSIDE = 'longer texts; the Python parser itself (eval is given the checked text); symbolic numbers inside the expression'

OPS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
       '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
FIELDS = ('area', 'maxdepth', 'volume')
NUMBERS = ('0.5', '20', '.05', '3.', '0')


def stats(n):
    """raw statistics of n bluespots after the background"""
    raw = []
    for k in range(n):
        s = {'min': H.real('min_%d' % k), 'max': H.real('max_%d' % k), 'sum': H.real('sum_%d' % k), 'count': H.integer('count_%d' % k, 0, 100000)}
        H.assume(s['min'] <= s['max'])
        raw.append(s)
    return raw


def value(s, cell, what):
    if what == 'area':
        return s['count'] * cell
    if what == 'maxdepth':
        return s['max']
    if what == 'volume':
        return s['sum'] * cell
    return float(what)


def operand(name):
    return H.choose(name, FIELDS + NUMBERS[:2])


def comparison(name):
    """(left, operator, right)"""
    side = H.choose(name + '_form', ('fn', 'nf', 'ff'))
    a = H.choose(name + '_field', FIELDS)
    if side == 'ff':
        b = H.choose(name + '_other', FIELDS)
    else:
        b = H.choose(name + '_number', NUMBERS)
    if side == 'nf':
        a, b = b, a
    return a, H.choose(name + '_op', sorted(OPS)), b


def holds(s, cell, c):
    return OPS[c[1]](value(s, cell, c[0]), value(s, cell, c[2]))


def run(text, raw, cell):
    from malstroem import bluespots
    from malstroem.scripts import _utils
    fn = _utils.parse_filter(text)
    return bluespots.filterbluespots(fn, cell, raw)


def h_single(cfg):
    cell = H.choose('cell', (0.25, 1.0, 0.015129))
    raw = stats(2)
    c = comparison('c')
    sp = H.choose('space', (' ', ''))
    text = c[0] + sp + c[1] + sp + c[2]
    keep = run(text, raw, cell)
    H.check(len(keep) == 2, 'one verdict per bluespot')
    H.record('text', text)
    H.check(H.iff(keep[1], holds(raw[1], cell, c)), 'comparison')
    H.reach('done')


# templates over the comparisons 0..3; the truth of the template
TEMPLATES = {
    '{0} and {1}': lambda a: H.land(a[0], a[1]),
    '{0} or {1}': lambda a: H.lor(a[0], a[1]),
    '({0})': lambda a: a[0],
    '(({0}))and({1})': lambda a: H.land(a[0], a[1]),
    '({0})or({1})': lambda a: H.lor(a[0], a[1]),
    '{0} and {1} or {2}': lambda a: H.lor(H.land(a[0], a[1]), a[2]),
    '{0} or {1} and {2}': lambda a: H.lor(a[0], H.land(a[1], a[2])),
    '({0} or {1}) and {2}': lambda a: H.land(H.lor(a[0], a[1]), a[2]),
    '{0} and ({1} or {2})': lambda a: H.land(a[0], H.lor(a[1], a[2])),
    '{0} or ({1} and {2})': lambda a: H.lor(a[0], H.land(a[1], a[2])),
    '{0} or {1} or {2}': lambda a: H.lor(a[0], a[1], a[2]),
    '{0} and {1} and {2}': lambda a: H.land(a[0], a[1], a[2]),
    '{0} or {1} and {2} or {3}': lambda a: H.lor(a[0], H.land(a[1], a[2]), a[3]),
    '{0} and {1} or {2} and {3}': lambda a: H.lor(H.land(a[0], a[1]), H.land(a[2], a[3])),
    '({0} or {1}) and ({2} or {3})': lambda a: H.land(H.lor(a[0], a[1]), H.lor(a[2], a[3])),
    '({0} and ({1} or {2})) or {3}': lambda a: H.lor(H.land(a[0], H.lor(a[1], a[2])), a[3]),
}
# comparisons used in the templates
PARTS = (('area', '>', '20.5'), ('maxdepth', '>', '0.5'), ('volume', '>', '2.5'), ('area', '<=', 'volume'), ('maxdepth', '!=', '1'),
         ('.3', '<', 'maxdepth'), ('volume', '==', '4'), ('area', '>=', '7'))


def h_boolean(cfg):
    cell = 0.015129
    raw = stats(2)
    t = H.choose('template', sorted(TEMPLATES))
    k = H.choose('parts', (0, 1, 2, 3, 4))
    parts = [PARTS[(k + j) % len(PARTS)] for j in range(4)]
    text = t.format(*[' '.join(p) for p in parts])
    keep = run(text, raw, cell)
    H.record('text', text)
    H.check(H.iff(keep[1], TEMPLATES[t]([holds(raw[1], cell, p) for p in parts])), 'and / or / parentheses')
    H.reach('done')


def h_chain(cfg):
    raw = stats(2)
    a, b, c = operand('a'), H.choose('f', FIELDS), operand('c')
    o, p = H.choose('o', sorted(OPS)), H.choose('p', sorted(OPS))
    keep = run('%s %s %s %s %s' % (a, o, b, p, c), raw, 1.0)
    s = raw[1]
    H.check(H.iff(keep[1], H.land(holds(s, 1.0, (a, o, b)), holds(s, 1.0, (b, p, c)))), 'chained comparison')
    H.reach('done')


def h_empty(cfg):
    raw = stats(4)
    keep = run(H.choose('text', (None, '')), raw, 1.0)
    H.check(len(keep) == 4, 'one verdict per bluespot')
    for k in range(1, 4):
        H.check(keep[k], 'a missing filter accepts everything')
    H.reach('done')


WORDS = ('area', 'maxdepth', 'volume', 'and', 'or')
# white space, operators, digits, point, parentheses
PLAIN = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760] + list(range(8192, 8203)) + [8232, 8233, 8239, 8287, 12288] + \
    [ord(c) for c in '<>=!().0123456789']


def word_at(code, k, w):
    return H.land(*[code[k + j] == ord(w[j]) for j in range(len(w))])


def legal(code):
    """the text is a sequence of allowed words, allowed characters and white space"""
    n = len(code)
    ok = [True]
    for k in range(1, n + 1):
        c = code[k - 1]
        one = H.land(ok[k - 1], H.lor(*[c == x for x in PLAIN]))
        ok.append(H.lor(one, *[H.land(ok[k - len(w)], word_at(code, k - len(w), w)) for w in WORDS if len(w) <= k]))
    return ok[n]


class Spy(object):
    def __init__(self):
        self.calls = 0

    def __call__(self, *a):
        self.calls += 1
        return None


def h_reject(cfg):
    from malstroem.scripts import _utils
    n = cfg['n']
    code = [H.integer('char_%d' % k, 1, 0xd7ff) for k in range(n)]
    good = legal(code)
    text = H.text(code)
    spy = Spy()
    _utils.eval = spy
    raised = False
    try:
        _utils.parse_filter(text)
    except Exception:
        raised = True
    if raised:
        H.reach('rejected')
        H.check(spy.calls == 0, 'rejected before it is evaluated')
    else:
        H.reach('accepted')
        H.check(good, 'text containing anything else is rejected')


def configs(tier):
    out = []

    def add(name, h, **kw):
        out.append(dict(dict(name=name, harness='h_' + h, impl='py', reach=['done'], unwind=400, chunk=30), **kw))
    add('single', 'single', cost=60)
    add('boolean', 'boolean', cost=20)
    add('chain', 'chain', cost=60)
    add('empty', 'empty')
    for n in ((1, 2, 3, 4, 5, 6, 8, 10) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14)):
        add('reject_%d' % n, 'reject', n=n, cost=4 * n, reach=['rejected', 'accepted'])
    return out
