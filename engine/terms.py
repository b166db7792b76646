"""Hash-consed symbolic terms (Bool / Int / Real) with light simplification.

Constants are plain Python values (bool, int, Fraction, +-inf floats); only non-constant terms are
`Term` objects.  Booleans are kept in and/not form so that complements are recognised syntactically.
"""
from fractions import Fraction
import math

INF = float('inf')
NINF = float('-inf')


class Term(object):
    __slots__ = ('op', 'args', 'sort', 'id', 'lo', 'hi', '__weakref__')

    def __repr__(self):
        return show(self, 4)

    def __bool__(self):
        raise TypeError('truth value of a raw term')


_table = {}
_next = [0]
_vars = {}
INTEGRAL = [False]        # keep real terms built from integers as integer terms
SIMPLIFY_REAL = [True]   # off: keep the exact operation order of reals (floating-point export)


def reset():
    _table.clear(); _vars.clear(); _pushmemo.clear()


def _mk(op, args, sort, lo=None, hi=None):
    key = (op, sort) + tuple(
        (a.id if type(a) is Term else (type(a).__name__, a)) for a in args)
    t = _table.get(key)
    if t is None:
        t = Term.__new__(Term)
        t.op = op; t.args = args; t.sort = sort; t.lo = lo; t.hi = hi
        t.id = _next[0]; _next[0] += 1
        _table[key] = t
    return t


def is_term(x):
    return type(x) is Term


def show(t, depth=3):
    if type(t) is not Term:
        return str(t)
    if t.op == 'var':
        return t.args[0]
    if depth == 0:
        return '#%d' % t.id
    return '(%s %s)' % (t.op, ' '.join(show(a, depth - 1) for a in t.args))


# ---------------------------------------------------------------- variables
def Var(name, sort, lo=None, hi=None):
    v = _vars.get(name)
    if v is not None:
        assert v.sort == sort
        return v
    if sort == 'I' and lo is not None and lo == hi:
        return lo
    v = _mk('var', (name,), sort, lo, hi)
    _vars[name] = v
    return v


_fresh = [0]


def fresh(prefix, sort, lo=None, hi=None):
    _fresh[0] += 1
    return Var('%s!%d' % (prefix, _fresh[0]), sort, lo, hi)


def UF(name, args, sort, lo=None, hi=None):
    """Uninterpreted function application."""
    return _mk('uf', (name,) + tuple(args), sort, lo, hi)


# ---------------------------------------------------------------- booleans
def Not(a):
    if type(a) is not Term:
        return not a
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,), 'B')


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out = {}
    for x in xs:
        if type(x) is not Term:
            if not x:
                return False
            continue
        if x.op == 'and':
            for y in x.args:
                out[y.id] = y
        else:
            out[x.id] = x
    for x in out.values():
        if x.op == 'not':
            y = x.args[0]
            if y.id in out:
                return False
    # absorption: x and not(and(x, ys)) -> x and not(and(ys)); x and not(and(not x..)) -> x
    changed = True
    while changed:
        changed = False
        for k, x in list(out.items()):
            if x.op == 'not' and x.args[0].op == 'and':
                inner = x.args[0].args
                rest = []
                drop = False
                for y in inner:
                    if y.id in out:
                        continue
                    n = y.args[0].id if y.op == 'not' else None
                    if n is not None and n in out:
                        drop = True
                        break
                    if n is None:
                        ny = _table.get(('not', 'B', y.id))
                        if ny is not None and ny.id in out:
                            drop = True
                            break
                    rest.append(y)
                if drop:
                    del out[k]
                    changed = True
                elif len(rest) < len(inner):
                    del out[k]
                    r = Not(And(*rest))
                    if r is False:
                        return False
                    if r is not True:
                        if r.op == 'and':
                            for y in r.args:
                                out[y.id] = y
                        else:
                            out[r.id] = r
                    changed = True
                if changed:
                    break
        if changed:
            for x in out.values():
                if x.op == 'not' and x.args[0].id in out:
                    return False
    if not out:
        return True
    if len(out) == 1:
        return next(iter(out.values()))
    return _mk('and', tuple(out[k] for k in sorted(out)), 'B')


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    return Not(And(*[Not(x) for x in xs]))


def Implies(a, b):
    return Or(Not(a), b)


def Xor(a, b):
    return Not(Iff(a, b))


def Iff(a, b):
    return Ite(a, b, Not(b))


# ---------------------------------------------------------------- sorts
def sort_of(x):
    if type(x) is Term:
        return x.sort
    if isinstance(x, bool):
        return 'B'
    if isinstance(x, int):
        return 'I'
    return 'R'


def num(x):
    """Normalise a Python number into a term constant."""
    if type(x) is Term or isinstance(x, (bool, int, Fraction)):
        return x
    if isinstance(x, float):
        if x != x:
            raise ValueError('NaN is outside the modelled domain')
        if math.isinf(x):
            return INF if x > 0 else NINF
        return Fraction(x)
    raise TypeError(type(x))


def _isinf(x):
    return type(x) is float


def lo_of(x):
    if type(x) is Term:
        return x.lo
    return int(x)


def hi_of(x):
    if type(x) is Term:
        return x.hi
    return int(x)


def B2I(x):
    if type(x) is not Term:
        return int(x)
    if x.sort == 'B':
        return Ite(x, 1, 0)
    return x


def _asint(x):
    """integer term behind an integral real, or None"""
    if type(x) is Term:
        return x.args[0] if x.op == 'toreal' else None
    if type(x) is Fraction:
        return x.numerator if x.denominator == 1 else None
    return x if type(x) is int else None


def ToReal(x):
    if type(x) is not Term:
        if _isinf(x):
            return x
        return Fraction(x)
    if x.sort == 'R':
        return x.args[0] if x.op == 'const' else x
    if x.sort == 'B':
        return Ite(x, Fraction(1), Fraction(0))
    if INTEGRAL[0]:
        return _mk('toreal', (x,), 'R')
    if x.op == 'ite' and _const_leaves(x) is not None:
        return Ite(x.args[0], ToReal(x.args[1]), ToReal(x.args[2]))
    return _mk('toreal', (x,), 'R')


def _unify(a, b):
    if type(a) is Term and a.op == 'const':
        a = a.args[0]
    if type(b) is Term and b.op == 'const':
        b = b.args[0]
    sa, sb = sort_of(a), sort_of(b)
    if sa == sb:
        return a, b, sa
    if 'R' in (sa, sb):
        return ToReal(a), ToReal(b), 'R'
    return B2I(a), B2I(b), 'I'


# ---------------------------------------------------------------- ite
FORK = [None]        # decides (by forking) the conditions of conditional terms during path-by-path exploration


def Ite(c, a, b):
    if type(c) is not Term:
        return a if c else b
    if a is b:
        return a
    a, b, s = _unify(a, b)
    if type(a) is not Term and type(b) is not Term and a == b:
        return a
    if a is b:
        return a
    if FORK[0] is not None and s != 'B':
        return a if FORK[0](c) else b
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if s == 'R' and INTEGRAL[0]:
        ia = _asint(a)
        if ia is not None:
            ib = _asint(b)
            if ib is not None:
                return ToReal(Ite(c, ia, ib))
    if s == 'B':
        if a is True:
            return Or(c, b)
        if a is False:
            return And(Not(c), b)
        if b is True:
            return Or(Not(c), a)
        if b is False:
            return And(c, a)
        if a is c:
            return Or(c, b)
        if b is c:
            return And(c, a)
        if type(a) is Term and type(b) is Term and Not(a) is b:
            if b.op != 'not':
                return Not(_mk('ite', (c, b, a), 'B'))
            return _mk('ite', (c, a, b), 'B')
    if type(a) is Term and a.op == 'ite':
        if a.args[0] is c:
            return Ite(c, a.args[1], b)
        if _same(a.args[1], b):     # ite(c, ite(d,b,x), b) -> ite(c & ~d, x, b)
            return Ite(And(c, Not(a.args[0])), a.args[2], b)
        if _same(a.args[2], b):     # ite(c, ite(d,x,b), b) -> ite(c & d, x, b)
            return Ite(And(c, a.args[0]), a.args[1], b)
    if type(b) is Term and b.op == 'ite':
        if b.args[0] is c:
            return Ite(c, a, b.args[2])
        if _same(b.args[1], a):     # ite(c, a, ite(d,a,x)) -> ite(c|d, a, x)
            return Ite(Or(c, b.args[0]), a, b.args[2])
        if _same(b.args[2], a):     # ite(c, a, ite(d,x,a)) -> ite(~c&d, x, a)
            return Ite(And(Not(c), b.args[0]), b.args[1], a)
    lo = hi = None
    if s == 'I':
        la, lb, ha, hb = lo_of(a), lo_of(b), hi_of(a), hi_of(b)
        lo = None if la is None or lb is None else min(la, lb)
        hi = None if ha is None or hb is None else max(ha, hb)
    return _mk('ite', (c, a, b), s, lo, hi)


def _same(a, b):
    if a is b:
        return True
    if type(a) is Term or type(b) is Term:
        return False
    return type(a) is type(b) and a == b


_leafmemo = {}


def _const_leaves(t, limit=40):
    """Set of constant leaves of an ite tree, or None when a leaf is not constant."""
    if type(t) is not Term:
        return frozenset((t,))
    r = _leafmemo.get(t.id, 0)
    if r != 0:
        return r
    r = None
    if t.op == 'ite':
        x = _const_leaves(t.args[1])
        if x is not None:
            y = _const_leaves(t.args[2])
            if y is not None:
                r = x | y
                if len(r) > limit:
                    r = None
    _leafmemo[t.id] = r
    return r


_pushmemo = {}


def _push(opname, f, t, *key):
    """Apply f to every leaf of an ite tree (memoised)."""
    if type(t) is not Term or t.op != 'ite':
        return f(t)
    k = (opname, t.id) + key
    r = _pushmemo.get(k)
    if r is None:
        r = Ite(t.args[0], _push(opname, f, t.args[1], *key), _push(opname, f, t.args[2], *key))
        _pushmemo[k] = r
    return r


# ---------------------------------------------------------------- comparisons
def Eq(a, b):
    if a is b:
        return True
    a, b, s = _unify(a, b)
    if a is b:
        return True
    ta, tb = type(a) is Term, type(b) is Term
    if not ta and not tb:
        return a == b
    if s == 'B':
        return Iff(a, b)
    if s == 'R' and INTEGRAL[0]:
        ia, ib = _asint(a), _asint(b)
        if ia is not None and ib is not None:
            return Eq(ia, ib)
        if (ia is not None and type(b) is Fraction) or (ib is not None and type(a) is Fraction):
            return False
    if not ta:
        a, b, ta, tb = b, a, tb, ta
    if s == 'I':
        la, ha, lb, hb = lo_of(a), hi_of(a), lo_of(b), hi_of(b)
        if (la is not None and hb is not None and la > hb) or (ha is not None and lb is not None and ha < lb):
            return False
    if not tb:
        if a.op == 'ite' and (s == 'I' or _const_leaves(a) is not None):
            return _push('eq', lambda x: Eq(x, b), a, b)
        if a.op == 'add' and type(a.args[-1]) is not Term and not _isinf(b) and s == 'I':
            return Eq(_sum(a.args[:-1], s), b - a.args[-1])
        if _isinf(b) and not may_inf(a):
            return False
    else:
        if a.id > b.id:
            a, b = b, a
    return _mk('eq', (a, b), 'B')


def Ne(a, b):
    return Not(Eq(a, b))


def Lt(a, b):
    return Not(Le(b, a))


def Gt(a, b):
    return Not(Le(a, b))


def Ge(a, b):
    return Le(b, a)


def Le(a, b):
    if a is b:
        return True
    a, b, s = _unify(a, b)
    if s == 'B':
        a, b, s = B2I(a), B2I(b), 'I'
    if a is b:
        return True
    ta, tb = type(a) is Term, type(b) is Term
    if not ta and not tb:
        return a <= b
    if s == 'R' and INTEGRAL[0]:
        ia, ib = _asint(a), _asint(b)
        if ia is not None and ib is not None:
            return Le(ia, ib)
        if ia is not None and type(b) is Fraction:
            return Le(ia, math.floor(b))
        if ib is not None and type(a) is Fraction:
            return Le(math.ceil(a), ib)
    if s == 'I':
        la, ha, lb, hb = lo_of(a), hi_of(a), lo_of(b), hi_of(b)
        if ha is not None and lb is not None and ha <= lb:
            return True
        if la is not None and hb is not None and la > hb:
            return False
    if not tb:
        if _isinf(b):
            if b > 0:
                return True
            if not may_inf(a):
                return False
        if a.op == 'ite' and (s == 'I' or _const_leaves(a) is not None or b is INF):
            return _push('le', lambda x: Le(x, b), a, b)
    elif not ta:
        if _isinf(a):
            if a < 0:
                return True
            if not may_inf(b):
                return False
        if b.op == 'ite' and (s == 'I' or _const_leaves(b) is not None):
            return _push('ge', lambda x: Le(a, x), b, a)
    return _mk('le', (a, b), 'B')


_infmemo = {}


def may_inf(t):
    """Can this real term be infinite?"""
    if type(t) is not Term:
        return _isinf(t)
    if t.sort != 'R':
        return False
    r = _infmemo.get(t.id)
    if r is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in _infmemo:
                stack.pop()
                continue
            pend = [a for a in x.args if type(a) is Term and a.sort == 'R' and a.id not in _infmemo]
            if pend:
                stack.extend(pend)
                continue
            _infmemo[x.id] = x.op != 'uf' and any(
                (_infmemo[a.id] if a.sort == 'R' else False) if type(a) is Term else (type(a) is float) for a in x.args)
            stack.pop()
        r = _infmemo[t.id]
    return r


# ---------------------------------------------------------------- arithmetic
def _sum(args, s):
    if len(args) == 1:
        return args[0]
    return _mk('add', tuple(args), s, *_sumrange(args, s))


def _sumrange(args, s):
    if s != 'I':
        return None, None
    lo = hi = 0
    for a in args:
        l, h = lo_of(a), hi_of(a)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    return lo, hi


def Add(a, b):
    a, b, s = _unify(a, b)
    if s == 'B':
        a, b, s = B2I(a), B2I(b), 'I'
    ta, tb = type(a) is Term, type(b) is Term
    if not ta and not tb:
        return a + b
    if s == 'R' and INTEGRAL[0]:
        ia, ib = _asint(a), _asint(b)
        if ia is not None and ib is not None:
            return ToReal(Add(ia, ib))
    if not ta:
        a, b, ta, tb = b, a, tb, ta
    if not tb:
        if _isinf(b):
            return b if not may_inf(a) else _mk('add', (a, b), s)
        if b == 0 and (s == 'I' or SIMPLIFY_REAL[0]):
            return a
        if a.op == 'ite' and _const_leaves(a) is not None:
            return _push('add', lambda x: Add(x, b), a, b)
        if a.op == 'add' and (s == 'I' or SIMPLIFY_REAL[0]) and type(a.args[-1]) is not Term:
            k = a.args[-1] + b
            rest = a.args[:-1]
            if not _isinf(k) and k == 0:
                return _sum(rest, s)
            return _sum(rest + (k,), s)
        return _sum((a, b), s)
    if s == 'I' or SIMPLIFY_REAL[0]:
        xs = list(a.args) if a.op == 'add' else [a]
        ys = list(b.args) if b.op == 'add' else [b]
        k = 0 if s == 'I' else Fraction(0)
        ts = []
        coef = {}
        for x in xs + ys:
            if type(x) is not Term:
                k = k + x
                continue
            c, y = 1, x
            if x.op == 'mulc':
                c, y = x.args
            if y.id in coef:
                coef[y.id][0] += c
            else:
                coef[y.id] = [c, y]
        for c, y in coef.values():
            if c == 0:
                if may_inf(y):
                    return _sum((a, b), s)
                continue
            ts.append(MulC(c, y))
        # keep deterministic order, flatten any constants produced
        out = []
        for t in ts:
            if type(t) is not Term:
                k = k + t
            else:
                out.append(t)
        if not out:
            return k
        out.sort(key=lambda t: t.id)
        if _isinf(k) or k != 0:
            out.append(k)
        return _sum(tuple(out), s)
    return _mk('add', (a, b), s)


def Neg(a):
    if type(a) is not Term:
        return -a
    return MulC(-1, a)


def Sub(a, b):
    if a is b and not may_inf(a):
        return 0 if sort_of(a) != 'R' else Fraction(0)
    if not SIMPLIFY_REAL[0]:
        a2, b2, s = _unify(a, b)
        if s == 'R' and (type(a2) is Term or type(b2) is Term):
            return _mk('sub', (a2, b2), 'R')
    return Add(a, Neg(b))


def MulC(c, a):
    """constant * term"""
    s = sort_of(a)
    if s == 'B':
        a, s = B2I(a), 'I'
    if type(a) is Term and a.op == 'const':
        a = a.args[0]
    if type(a) is not Term:
        return c * a
    if s == 'I' and isinstance(c, Fraction):
        if c.denominator == 1:
            c = c.numerator
        else:
            a, s = ToReal(a), 'R'
            if type(a) is not Term:
                return c * a
    if s == 'R' and not isinstance(c, Fraction):
        c = Fraction(c)
    if c == 1:
        return a
    if s == 'R' and INTEGRAL[0] and c.denominator == 1 and a.op == 'toreal':
        return ToReal(MulC(c.numerator, a.args[0]))
    if c == 0 and not may_inf(a):
        return c
    if SIMPLIFY_REAL[0] or s == 'I':
        if a.op == 'mulc':
            return MulC(c * a.args[0], a.args[1])
        if a.op == 'add':
            r = MulC(c, a.args[0])
            for x in a.args[1:]:
                r = Add(r, MulC(c, x))
            return r
    if a.op == 'ite' and _const_leaves(a) is not None:
        return _push('mulc', lambda x: MulC(c, x), a, c)
    lo = hi = None
    if s == 'I':
        if a.lo is not None and a.hi is not None:
            lo, hi = sorted((c * a.lo, c * a.hi))
    return _mk('mulc', (c, a), s, lo, hi)


def Mul(a, b):
    a, b, s = _unify(a, b)
    if s == 'B':
        a, b, s = B2I(a), B2I(b), 'I'
    ta, tb = type(a) is Term, type(b) is Term
    if not ta and not tb:
        return a * b
    if ta and tb:
        if a.id > b.id:
            a, b = b, a
        lo = hi = None
        if s == 'I' and None not in (a.lo, a.hi, b.lo, b.hi):
            c = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            lo, hi = min(c), max(c)
        # distribute over constant ites: keeps things linear
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite' and _const_leaves(x) is not None:
                return _push('mul', lambda v: Mul(v, y), x, y.id)
            if SIMPLIFY_REAL[0] and x.op == 'mulc':
                return MulC(x.args[0], Mul(x.args[1], y))
        return _mk('mul', (a, b), s, lo, hi)
    if not ta:
        a, b = b, a
    if _isinf(b):
        raise ValueError('infinity times term')
    return MulC(b, a)


def Div(a, b):
    """real division; the caller handles division by zero"""
    a, b = ToReal(a), ToReal(b)
    if type(b) is not Term:
        if not SIMPLIFY_REAL[0] and type(a) is Term:
            return _mk('div', (a, b), 'R')
        if type(a) is not Term:
            return a / b
        return MulC(1 / Fraction(b), a)
    if type(a) is not Term and a == 0:
        return a
    if _const_leaves(b) is not None and b.op == 'ite':
        return _push('div', lambda v: Div(a, v), b, a.id if type(a) is Term else a)
    return _mk('div', (a, b), 'R')


def FloorDiv(a, b):
    if type(a) is not Term and type(b) is not Term:
        return a // b
    if type(b) is Term or b == 0:
        raise NotImplementedError('symbolic divisor')
    a = B2I(a)
    if a.op == 'ite' and _const_leaves(a) is not None:
        return _push('fdiv', lambda x: x // b, a, b)
    lo = hi = None
    if a.lo is not None and a.hi is not None:
        lo, hi = sorted((a.lo // b, a.hi // b))
        if lo == hi:
            return lo
    return _mk('fdiv', (a, b), 'I', lo, hi)


def Mod(a, b):
    if type(a) is not Term and type(b) is not Term:
        return a % b
    if type(b) is Term or b <= 0:
        raise NotImplementedError('symbolic modulus')
    a = B2I(a)
    if a.op == 'ite' and _const_leaves(a) is not None:
        return _push('mod', lambda x: x % b, a, b)
    if a.lo is not None and a.hi is not None and a.lo // b == a.hi // b:
        return Add(a, -(a.lo // b) * b)
    return _mk('mod', (a, b), 'I', 0, b - 1)


def Min(a, b):
    return Ite(Le(a, b), a, b)


def Max(a, b):
    return Ite(Le(b, a), a, b)


def Abs(a):
    if type(a) is not Term:
        return abs(a)
    z = 0 if a.sort != 'R' else Fraction(0)
    return Ite(Le(z, a), a, Neg(a))


def wrap(a, bits, signed):
    """two's complement wrap of an int term"""
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    a = B2I(a)
    if type(a) is not Term:
        m = a & ((1 << bits) - 1)
        return m - (1 << bits) if signed and m >> (bits - 1) else m
    if a.lo is not None and a.hi is not None and a.lo >= lo and a.hi <= hi:
        return a
    if signed:
        return Add(Mod(Add(a, 1 << (bits - 1)), 1 << bits), -(1 << (bits - 1)))
    return Mod(a, 1 << bits)


def in_range(a, lo, hi):
    return And(Le(lo, a), Le(a, hi))


# ---------------------------------------------------------------- traversal
def iter_dag(roots):
    seen = set()
    stack = [r for r in roots if type(r) is Term]
    out = []
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        for a in t.args:
            if type(a) is Term and a.id not in seen:
                stack.append(a)
    return out


def variables(roots):
    return [t for t in iter_dag(roots) if t.op == 'var']


def evaluate(t, model, memo=None):
    """Concrete value of a term under model: {var name: value}."""
    if type(t) is not Term:
        return t
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop(); continue
        if x.op == 'var':
            memo[x.id] = model[x.args[0]]
            stack.pop(); continue
        if x.op == 'ite':
            c = x.args[0]
            if type(c) is Term and c.id not in memo:
                stack.append(c); continue
            cv = memo[c.id] if type(c) is Term else c
            b = x.args[1] if cv else x.args[2]
            if type(b) is Term and b.id not in memo:
                stack.append(b); continue
            memo[x.id] = memo[b.id] if type(b) is Term else b
            stack.pop(); continue
        pend = [a for a in x.args if type(a) is Term and a.id not in memo]
        if pend:
            stack.extend(pend); continue
        v = [memo[a.id] if type(a) is Term else a for a in x.args]
        o = x.op
        if o == 'and': r = all(v)
        elif o == 'not': r = not v[0]
        elif o == 'eq': r = v[0] == v[1]
        elif o == 'le': r = v[0] <= v[1]
        elif o == 'add':
            r = v[0]
            for y in v[1:]:
                r = r + y
        elif o == 'sub': r = v[0] - v[1]
        elif o == 'mulc' or o == 'mul': r = v[0] * v[1]
        elif o == 'div': r = Fraction(v[0]) / Fraction(v[1]) if v[1] != 0 else Fraction(0)
        elif o == 'fdiv' and len(v) == 2: r = v[0] // v[1]
        elif o == 'mod': r = v[0] % v[1]
        elif o == 'toreal': r = Fraction(v[0])
        elif o == 'const': r = v[0]
        elif o in ('fadd', 'fsub', 'fmul', 'fdiv', 'fnext', 'cast'):
            r = _fpeval(o, v)
        elif o == 'uf':
            r = model[('uf',) + tuple(v)]
        else: raise NotImplementedError(o)
        memo[x.id] = r
        stack.pop()
    return memo[t.id]


def _fpeval(o, v):
    import numpy as np
    d = np.dtype(v[-1]).type
    with np.errstate(all='ignore'):
        if o == 'cast' and np.dtype(v[-1]).itemsize > 8:
            return v[0]
        if o == 'cast':
            return num(float(d(float(v[0]))))
        if o == 'fnext':
            return num(float(np.nextafter(d(float(v[0])), d(INF if v[1] else NINF))))
        a, b = d(float(v[0])), d(float(v[1]))
        return num(float({'fadd': a + b, 'fsub': a - b, 'fmul': a * b}[o] if o != 'fdiv' else a / b))
