"""Symbolic run-time values: scalars (SV), arrays (SymArray / SymRecArray), guarded lists (GList)."""
from fractions import Fraction
import operator
import math
import numpy as np
from . import terms as T
from .terms import Term


class EngineUnsupported(BaseException):
    """The engine cannot encode what the code does (never a verdict)."""


class EngineBudget(BaseException):
    pass


class ForkInNative(BaseException):
    """A native operation needs the truth value of a symbolic condition."""
    def __init__(self, cond):
        self.cond = cond


class NeedConcrete(BaseException):
    """A native operation needs the concrete value of a symbolic integer."""
    def __init__(self, term):
        self.term = term


class InfeasiblePath(BaseException):
    pass


class Ctx(object):
    """Hooks of the running VM state used by native operations."""
    known = staticmethod(lambda t: None)
    oblige = staticmethod(lambda cond, what: None)
    solver_implied = staticmethod(lambda t: None)
    known_floor = staticmethod(lambda t: None)
    known_int = staticmethod(lambda t: None)
    define = None


CTX = Ctx()


def decide(c):
    """Truth value of a symbolic condition in the current state, forking if it is open."""
    if type(c) is SV:
        c = truth(c)
    if type(c) is not Term:
        return bool(c)
    if T.FORK[0] is not None:
        return T.FORK[0](c)
    k = CTX.known(c)
    if k is not None:
        return k
    raise ForkInNative(c)


def decide_ok(c):
    """As decide, for conditions which guard an error: asks the solver whether c always holds."""
    if type(c) is not Term:
        return bool(c)
    k = CTX.known(c)
    if k is not None:
        return k
    k = CTX.solver_implied(c)
    if k is not None:
        return k
    raise ForkInNative(c)


# ------------------------------------------------------------------ scalars
def term(v):
    """Raw term / constant of a scalar value."""
    tv = type(v)
    if tv is SV:
        return v.t
    if tv is Term or tv is int or tv is bool or tv is Fraction:
        return v
    if tv is float:
        return T.num(v)
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.floating):
        f = float(v)
        return T.num(f)
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, float):
        return T.num(float(v))
    raise EngineUnsupported('not a scalar: %r' % (tv,))


_NUM = (bool, int, float, np.generic, Fraction)


def is_scalar(v):
    return type(v) is SV or isinstance(v, _NUM)


def const_value(t, dt):
    """Concrete Python / numpy scalar of a constant raw term."""
    if dt is None:
        if type(t) is Fraction:
            f = float(t)
            if Fraction(f) != t:
                return SV(ExactConst(t), None)
            return f
        return t
    if dt.kind == 'f':
        return dt.type(float(t))
    if dt.kind == 'b':
        return np.bool_(bool(t))
    return dt.type(int(t))


def mk(t, dt=None):
    if type(t) is Term:
        return SV(t, dt)
    if type(t) is Fraction and dt is not None and dt.kind == 'f':
        f = float(t)
        if Fraction(f) != t:
            return SV(ExactConst(t), dt)
        return dt.type(f)
    if type(t) is Fraction and dt is None:
        f = float(t)
        if Fraction(f) != t:
            return SV(ExactConst(t), None)
        return f
    return const_value(t, dt)


def ExactConst(fr):
    """A rational constant which is no float is kept exact as a term."""
    return T._mk('const', (Fraction(fr),), 'R')


def dt_of(v):
    if type(v) is SV:
        return v.dt
    if isinstance(v, np.generic):
        return v.dtype
    return None


_pykind = {'B': True, 'I': 1, 'R': 1.0}
_rescache = {}


def _sample(v):
    if type(v) is SV:
        if v.dt is None:
            return _pykind[v.t.sort]
        return v.dt.type(1)
    if isinstance(v, np.generic):
        return v.dtype.type(1)
    if isinstance(v, bool):
        return True
    if isinstance(v, int):
        return 1
    return 1.0


def res_dt(op, a, b):
    sa, sb = _sample(a), _sample(b)
    key = (op, type(sa), type(sb))
    r = _rescache.get(key, 0)
    if r == 0:
        with np.errstate(all='ignore'):
            x = op(sa, sb)
        r = x.dtype if isinstance(x, np.generic) else None
        _rescache[key] = r
    return r


def _fin(t, dt):
    """Wrap an arithmetic result into the numpy dtype."""
    if dt is not None:
        if dt.kind in 'iu':
            t = T.wrap(t, dt.itemsize * 8, dt.kind == 'i')
        elif dt.kind == 'f':
            t = T.ToReal(t)
    elif T.sort_of(t) == 'B':
        t = T.B2I(t)
    return mk(t, dt)


FPMODE = [False]


def scalar_op(op, a, b):
    ta, tb = term(a), term(b)
    dt = res_dt(op, a, b)
    if FPMODE[0] and 'R' in (T.sort_of(ta), T.sort_of(tb)) and op in _FPOPS:
        return fpop(op, ta, tb, dt)
    if op is operator.add:
        return _fin(T.Add(ta, tb), dt)
    if op is operator.sub:
        return _fin(T.Sub(_r(ta, dt), _r(tb, dt)), dt)
    if op is operator.mul:
        if (type(ta) is float or type(tb) is float):
            raise EngineUnsupported('multiplication by infinity')
        return _fin(T.Mul(ta, tb), dt)
    if op is operator.truediv:
        z = T.Eq(tb, 0 if T.sort_of(tb) != 'R' else Fraction(0))
        if decide(z):
            if dt is None:
                raise ZeroDivisionError('division by zero')
            zn = T.Eq(ta, 0 if T.sort_of(ta) != 'R' else Fraction(0))
            if decide(zn):
                raise NaNValue()
            return mk(T.INF, dt) if decide(T.Lt(Fraction(0), T.ToReal(ta))) else mk(T.NINF, dt)
        if type(tb) is float:
            return mk(Fraction(0), dt)
        return mk(T.Div(ta, tb), dt)
    if op in (operator.floordiv, operator.mod):
        if 'R' in (T.sort_of(ta), T.sort_of(tb)):
            if op is operator.floordiv and type(tb) is not Term:
                return _fin(floor_term(T.Div(ta, tb)), dt)
            if op is operator.mod and type(tb) is not Term:
                q = floor_term(T.Div(ta, tb))
                return _fin(T.Sub(T.ToReal(ta), T.Mul(T.ToReal(q), T.ToReal(tb))), dt)
            raise EngineUnsupported('real floor division')
        if type(tb) is Term:
            tb = mk(tb, None)._conc()
        if tb == 0:
            if dt is None:
                raise ZeroDivisionError('integer division or modulo by zero')
            return _fin(0, dt)
        if op is operator.mod:
            if tb < 0:
                raise EngineUnsupported('negative modulus')
            return _fin(T.Mod(ta, tb), dt)
        return _fin(T.FloorDiv(ta, tb), dt)
    if op is operator.pow:
        if type(tb) is not Term and tb in (1, 2, 3):
            r = ta
            for _ in range(int(tb) - 1):
                r = T.Mul(r, ta)
            return _fin(r, dt)
        raise EngineUnsupported('power')
    if op in (operator.and_, operator.or_, operator.xor):
        if T.sort_of(ta) == 'B' and T.sort_of(tb) == 'B':
            f = {operator.and_: T.And, operator.or_: T.Or, operator.xor: T.Xor}[op]
            return mk(f(ta, tb), dt)
        if type(tb) is not Term and op is operator.and_ and tb >= 0 and (tb & (tb + 1)) == 0:
            return _fin(T.Mod(T.B2I(ta), int(tb) + 1), dt)
        if type(ta) is not Term and op is operator.and_ and ta >= 0 and (ta & (ta + 1)) == 0:
            return _fin(T.Mod(T.B2I(tb), int(ta) + 1), dt)
        raise EngineUnsupported('bitwise operation on symbolic integers')
    if op in (operator.lshift, operator.rshift):
        if type(tb) is Term:
            tb = mk(tb, None)._conc()
        return _fin(T.Mul(T.B2I(ta), 1 << tb) if op is operator.lshift else T.FloorDiv(T.B2I(ta), 1 << tb), dt)
    raise EngineUnsupported('operator %r' % op)


_FPOPS = {operator.add: 'fadd', operator.sub: 'fsub', operator.mul: 'fmul', operator.truediv: 'fdiv'}


def fpop(op, ta, tb, dt):
    """bit-precise IEEE arithmetic (round to nearest even), kept as an opaque operation"""
    ta, tb = T.ToReal(ta), T.ToReal(tb)
    d = dt if dt is not None and dt.kind == 'f' else np.dtype(np.float64)
    if type(ta) is not Term and type(tb) is not Term:
        with np.errstate(all='ignore'):
            return mk(T.num(float(op(d.type(float(ta)), d.type(float(tb))))), dt)
    return mk(T._mk(_FPOPS[op], (ta, tb, d.name), 'R'), dt)


def _r(t, dt):
    if dt is not None and dt.kind == 'f':
        return T.ToReal(t)
    return t


class NaNValue(BaseException):
    """The path produces a NaN, which is outside the modelled domain."""


def floor_term(t):
    """floor of a real term as an int: forks over the feasible values."""
    t = T.ToReal(t)
    if type(t) is not Term:
        return math.floor(t)
    if t.op == 'toreal':
        return t.args[0]
    cl = T._const_leaves(t)
    if cl is not None and t.op == 'ite':
        return T._push('floor', lambda x: math.floor(x), t)
    # floor(k*s + r): unknown range -> the VM enumerates feasible values
    k = CTX.known_floor(t)
    if k is not None:
        return k
    raise NeedFloor(t)


def round_term(t, digits=0):
    """round half to even: a fresh integer defined by a constraint added to the running state."""
    t = T.ToReal(t)
    k = Fraction(10) ** int(digits)
    if type(t) is not Term:
        if isinstance(t, float):
            return t
        return Fraction(round(t * k)) / k
    if T.may_inf(t) or FPMODE[0] or CTX.define is None:
        raise EngineUnsupported('rounding of this value')
    r = T.fresh('round', 'I')
    two = T.MulC(2 * k, t)
    lo, hi = T.Sub(T.ToReal(T.MulC(2, r)), Fraction(1)), T.Add(T.ToReal(T.MulC(2, r)), Fraction(1))
    even = T.Eq(T.Mod(r, 2), 0)
    CTX.define(T.And(T.Le(lo, two), T.Le(two, hi), T.Or(even, T.And(T.Lt(lo, two), T.Lt(two, hi)))))
    return T.MulC(1 / k, T.ToReal(r))


class NeedFloor(BaseException):
    def __init__(self, term):
        self.term = term


_NANVAR = [None]


def nan_var():
    if _NANVAR[0] is None or T._vars.get('NaN') is not _NANVAR[0]:
        _NANVAR[0] = T.Var('NaN', 'R')
        _nanmemo.clear()
    return _NANVAR[0]


_nanmemo = {}


def nan_cond(t):
    """condition under which a real term is the distinguished NaN value"""
    if type(t) is not Term or t.sort != 'R' or _NANVAR[0] is None:
        return False
    r = _nanmemo.get(t.id)
    if r is None:
        if t is _NANVAR[0]:
            r = True
        elif t.op == 'ite':
            r = T.Ite(t.args[0], nan_cond(t.args[1]), nan_cond(t.args[2]))
        else:
            r = T.Or(*[nan_cond(a) for a in t.args if type(a) is Term])
        _nanmemo[t.id] = r
    return r


def truth(v):
    """Truth value (bool or bool term) of a scalar."""
    t = term(v)
    if type(t) is not Term:
        return bool(t)
    if t.sort == 'B':
        return t
    return T.Ne(t, 0 if t.sort == 'I' else Fraction(0))


def compare(op, a, b):
    ta, tb = term(a), term(b)
    f = _CMP[op]
    dt = None if dt_of(a) is None and dt_of(b) is None else np.dtype(bool)
    r = f(ta, tb)
    if _NANVAR[0] is not None:
        n = T.Or(nan_cond(ta), nan_cond(tb))
        if n is not False:
            r = T.Or(r, n) if op is operator.ne else T.And(r, T.Not(n))
    return mk(r, dt)


_CMP = {operator.eq: T.Eq, operator.ne: T.Ne, operator.lt: T.Lt, operator.le: T.Le, operator.gt: T.Gt, operator.ge: T.Ge}


def _bin(op):
    def f(self, other):
        if is_scalar(other):
            return scalar_op(op, self, other)
        if isinstance(other, (SymArray, np.ndarray)):
            return array_op(op, self, other)
        return NotImplemented

    def r(self, other):
        if is_scalar(other):
            return scalar_op(op, other, self)
        if isinstance(other, (SymArray, np.ndarray)):
            return array_op(op, other, self)
        return NotImplemented
    return f, r


def _cmpm(op):
    def f(self, other):
        if is_scalar(other):
            return compare(op, self, other)
        if isinstance(other, (SymArray, np.ndarray)):
            return array_op(op, self, other)
        if op is operator.eq:
            return False
        if op is operator.ne:
            return True
        return NotImplemented
    return f


class SV(object):
    """Symbolic scalar: term + numpy dtype (None: plain Python bool/int/float)."""
    __slots__ = ('t', 'dt')
    __array_ufunc__ = None

    def __init__(self, t, dt=None):
        self.t = t
        self.dt = dt

    def __repr__(self):
        return 'SV<%s:%s>' % (T.show(self.t, 2), self.dt or self.t.sort)

    __add__, __radd__ = _bin(operator.add)
    __sub__, __rsub__ = _bin(operator.sub)
    __mul__, __rmul__ = _bin(operator.mul)
    __truediv__, __rtruediv__ = _bin(operator.truediv)
    __floordiv__, __rfloordiv__ = _bin(operator.floordiv)
    __mod__, __rmod__ = _bin(operator.mod)
    __pow__, __rpow__ = _bin(operator.pow)
    __and__, __rand__ = _bin(operator.and_)
    __or__, __ror__ = _bin(operator.or_)
    __xor__, __rxor__ = _bin(operator.xor)
    __lshift__, __rlshift__ = _bin(operator.lshift)
    __rshift__, __rrshift__ = _bin(operator.rshift)
    __eq__ = _cmpm(operator.eq)
    __ne__ = _cmpm(operator.ne)
    __lt__ = _cmpm(operator.lt)
    __le__ = _cmpm(operator.le)
    __gt__ = _cmpm(operator.gt)
    __ge__ = _cmpm(operator.ge)

    def __neg__(self):
        return _fin(T.Neg(T.B2I(self.t)), self.dt)

    def __pos__(self):
        return _fin(self.t, self.dt)

    def __abs__(self):
        return _fin(T.Abs(T.B2I(self.t)), self.dt)

    def __invert__(self):
        if self.t.sort == 'B' and self.dt is not None:
            return mk(T.Not(self.t), self.dt)
        if self.t.sort in 'BI':
            return _fin(T.Sub(-1, T.B2I(self.t)), self.dt)
        raise TypeError('bad operand for ~')

    def __bool__(self):
        return decide(truth(self))

    def __hash__(self):
        if self.t.sort == 'R':
            raise EngineUnsupported('hash of a symbolic real')
        return hash(self._conc())

    def _conc(self):
        k = CTX.known_int(self.t)
        if k is None:
            if self.t.sort == 'B':
                return int(decide(self.t))
            raise NeedConcrete(self.t)
        return k

    def __index__(self):
        if self.t.sort == 'R':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self._conc()

    def __int__(self):
        if self.t.sort == 'R':
            raise EngineUnsupported('native int() of a symbolic real')
        return self._conc()

    def __float__(self):
        raise EngineUnsupported('native float() of a symbolic value')

    def __format__(self, spec):
        return '<sym>'

    def __str__(self):
        return '<sym>'

    def __round__(self, n=None):
        raise EngineUnsupported('round of a symbolic value')

    def __floor__(self):
        return mk(floor_term(self.t), None)

    def __ceil__(self):
        return mk(T.Neg(floor_term(T.Neg(T.ToReal(self.t)))), None)

    def __trunc__(self):
        return to_int(self)

    # numpy scalar API
    @property
    def dtype(self):
        if self.dt is None:
            raise AttributeError('dtype')
        return self.dt

    def astype(self, dt, **k):
        return cast_scalar(self, np.dtype(dt))

    def item(self):
        return SV(self.t, None)

    @property
    def shape(self):
        if self.dt is None:
            raise AttributeError('shape')
        return ()

    def is_integer(self):
        raise EngineUnsupported('is_integer')


def cast_scalar(v, dt):
    """numpy cast of a scalar to dtype."""
    t = term(v)
    if type(t) is not Term and type(v) is not SV:
        return dt.type(v)
    return mk(cast_term(t, dt, dt_of(v)), dt)


def cast_term(t, dt, src=None):
    k = dt.kind
    s = T.sort_of(t)
    if k == 'b':
        if s == 'B':
            return t
        return T.Ne(t, 0 if s == 'I' else Fraction(0)) if type(t) is Term else bool(t)
    if k in 'iu':
        if s == 'R':
            t = trunc_term(t)
        return T.wrap(t, dt.itemsize * 8, k == 'i')
    if k == 'f':
        if FPMODE[0]:
            return fpcast(t, dt, src)
        return T.ToReal(t)
    if k == 'O':
        return t
    raise EngineUnsupported('cast to %s' % dt)


def fpcast(t, dt, src):
    t = T.ToReal(t)
    if type(t) is not Term:
        return T.num(float(dt.type(float(t))))
    if src is not None and np.can_cast(src, dt, 'safe'):
        return t
    return T._mk('cast', (t, dt.name), 'R')


def trunc_term(t):
    t = T.ToReal(t)
    if type(t) is not Term:
        if type(t) is float:
            raise EngineUnsupported('int of infinity')
        return math.trunc(t)
    if t.op == 'toreal':
        return t.args[0]
    neg = T.Lt(t, Fraction(0))
    if decide(neg):
        return T.Neg(floor_term(T.Neg(t)))
    return floor_term(t)


def to_int(v):
    """int(v)"""
    t = term(v)
    if T.sort_of(t) == 'R':
        if type(t) is not Term and type(v) is not SV:
            return int(v)
        if T.may_inf(t):
            isinf = T.Or(T.Eq(t, T.INF), T.Eq(t, T.NINF))
            if decide_ok(T.Not(isinf)) is False:
                raise OverflowError('cannot convert float infinity to integer')
        return mk(trunc_term(t), None)
    return mk(T.B2I(t), None)


def to_float(v):
    return mk(T.ToReal(term(v)), None)


# ------------------------------------------------------------------ guarded lists
class GList(object):
    """A list some of whose elements are present only under a guard: items = [(guard, value)].
    A plain Python list is used as long as all guards are True."""
    __slots__ = ('items', 'kind')

    def __init__(self, items, kind=list):
        self.items = items
        self.kind = kind

    def __repr__(self):
        return 'GList(%r)' % (self.items,)

    def append(self, v):
        self.items.append((True, v))

    def appendleft(self, v):
        self.items.insert(0, (True, v))

    def extend(self, it):
        if isinstance(it, GList):
            self.items.extend(it.items)
        elif isinstance(it, (list, tuple, range)) or type(it).__name__ == 'deque':
            self.items.extend((True, v) for v in it)
        else:
            raise EngineUnsupported('extend of a guarded list with %r' % type(it))

    def copy(self):
        return GList(list(self.items), self.kind)

    def clear(self):
        del self.items[:]

    def nonempty(self):
        return T.Or(*[g for g, _ in self.items])

    def __len__(self):
        raise EngineUnsupported('native len of guarded list')

    def length(self):
        n = 0
        for g, _ in self.items:
            n = T.Add(n, T.B2I(g))
        return mk(n, None)

    def pop(self, ix=-1):
        if type(ix) is SV:
            ix = ix._conc()
        n = len(self.items)
        order = range(n - 1, -1, -1) if ix == -1 else range(n) if ix == 0 else None
        if order is None:
            raise EngineUnsupported('pop in the middle of a guarded list')
        for k in order:
            if decide(self.items[k][0]):
                v = self.items[k][1]
                if ix == -1:
                    del self.items[k:]
                else:
                    del self.items[:k + 1]
                return v
        raise IndexError('pop from empty list')

    def popleft(self):
        return self.pop(0)

    def getitem(self, ix):
        if type(ix) is SV:
            ix = ix._conc()
        if isinstance(ix, slice):
            raise EngineUnsupported('slice of guarded list')
        items = self.items if ix >= 0 else self.items[::-1]
        want = ix if ix >= 0 else -ix - 1
        cnt = 0
        for g, v in items:
            here = T.And(g, T.Eq(cnt, want))
            if type(here) is not Term:
                if here:
                    return v
            elif decide(here):
                return v
            cnt = T.Add(cnt, T.B2I(g))
        raise IndexError('list index out of range')

    def __setitem__(self, ix, v):
        if type(ix) is SV:
            ix = ix._conc()
        if isinstance(ix, slice):
            raise EngineUnsupported('slice store of guarded list')
        n = len(self.items)
        if 0 <= ix < n and all(self.items[j][0] is True for j in range(ix + 1)):
            self.items[ix] = (True, v)
            return
        order = range(n) if ix >= 0 else range(n - 1, -1, -1)
        want = ix if ix >= 0 else -ix - 1
        for j in order:
            g, x = self.items[j]
            if type(g) is Term:
                if not decide(g):
                    continue
            elif not g:
                continue
            if want == 0:
                self.items[j] = (g, v)
                return
            want -= 1
        raise IndexError('list assignment index out of range')

    def normalise(self):
        if all(g is True for g, _ in self.items):
            return self.kind(v for _, v in self.items)
        return self

    def resolve(self):
        """Decide all guards (forking)."""
        out = []
        for g, v in self.items:
            if decide(g):
                out.append(v)
        return self.kind(out)

    def remove(self, x):
        raise EngineUnsupported('remove from guarded list')


# ------------------------------------------------------------------ arrays
class Buffer(object):
    __slots__ = ('data',)

    def __init__(self, data):
        self.data = data


def _norm_const(v, dt):
    """Python constant stored for a concrete element of dtype dt."""
    k = dt.kind
    if k == 'f':
        return float(dt.type(v))
    if k in 'iu':
        return int(dt.type(v)) if not isinstance(v, float) else int(np.array(v).astype(dt))
    if k == 'b':
        return bool(v)
    return v


def elem_term(x):
    return T.num(x) if type(x) is float else x


class SymArray(object):
    __slots__ = ('buf', 'idx', 'dtype')
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, buf, idx, dtype):
        self.buf = buf
        self.idx = idx
        self.dtype = dtype

    # ---- construction
    @staticmethod
    def from_list(data, shape, dtype):
        dtype = np.dtype(dtype)
        n = len(data)
        return SymArray(Buffer(list(data)), np.arange(n).reshape(shape), dtype)

    @staticmethod
    def full(shape, value, dtype):
        shape = _shape(shape)
        n = int(np.prod(shape)) if shape else 1
        dtype = np.dtype(dtype)
        v = conv_store(value, dtype)
        return SymArray.from_list([v] * n, shape, dtype)

    @staticmethod
    def from_np(a):
        if a.dtype.names:
            return SymRecArray({n: SymArray.from_np(a[n]) for n in a.dtype.names}, a.dtype)
        return SymArray.from_list([_norm_const(v, a.dtype) for v in a.ravel().tolist()] if a.dtype.kind != 'O'
                                  else [raw(v) for v in a.ravel().tolist()], a.shape, a.dtype)

    # ---- basic attributes
    @property
    def shape(self):
        return self.idx.shape

    @property
    def ndim(self):
        return self.idx.ndim

    @property
    def size(self):
        return int(self.idx.size)

    @property
    def T(self):
        return SymArray(self.buf, self.idx.T, self.dtype)

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def flat(self):
        return self.ravel()

    @property
    def strides(self):
        raise EngineUnsupported('strides')

    def __len__(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        return self.idx.shape[0]

    def raw(self):
        """flat list of raw element values"""
        d = self.buf.data
        return [d[i] for i in self.idx.ravel().tolist()]

    def terms(self):
        return [elem_term(x) for x in self.raw()]

    def is_concrete(self):
        return not any(type(x) is Term for x in self.raw())

    def to_np(self):
        return np.array(self.raw(), dtype=self.dtype).reshape(self.shape)

    def __repr__(self):
        return 'SymArray(%s, %s)' % (self.shape, self.dtype)

    # ---- indexing
    def _key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        out = []
        sym = False
        for k in key:
            if type(k) is SV:
                if k.t.sort == 'R':
                    raise IndexError('only integers, slices ... are valid indices')
                if k.t.sort == 'B':
                    raise EngineUnsupported('symbolic boolean index')
                sym = True
                out.append(k)
            elif isinstance(k, slice):
                for p in (k.start, k.stop, k.step):
                    if type(p) is SV:
                        p._conc()
                out.append(k)
            elif isinstance(k, (SymArray, np.ndarray, list)):
                out.append(as_sym(k))
                sym = 'fancy' if sym is False or sym == 'fancy' else sym
            elif isinstance(k, np.bool_):
                out.append(bool(k))
            else:
                out.append(k)
        return tuple(out), sym

    def _candidates(self, key):
        """[(condition, position in buffer)] for an all-integer key with symbolic parts."""
        key = list(key)
        if len(key) != self.ndim or any(isinstance(k, (slice, type(None), type(Ellipsis))) for k in key):
            raise EngineUnsupported('mixed symbolic index')
        per = []
        for ax, k in enumerate(key):
            n = self.shape[ax]
            if type(k) is SV:
                t = k.t
                inb = T.And(T.Le(-n, t), T.Le(t, n - 1))
                if not decide_ok(inb):
                    raise IndexError('index out of bounds for axis %d with size %d' % (ax, n))
                lo = -n if t.lo is None else max(t.lo, -n)
                hi = n - 1 if t.hi is None else min(t.hi, n - 1)
                lst = []
                for v in range(n):
                    c = False
                    if v >= lo and v <= hi:
                        c = T.Eq(t, v)
                    if lo <= v - n <= hi:
                        c = T.Or(c, T.Eq(t, v - n))
                    if c is not False:
                        lst.append((c, v))
                per.append(lst)
            else:
                k = operator.index(k)
                if not -n <= k < n:
                    raise IndexError('index %d is out of bounds for axis %d with size %d' % (k, ax, n))
                per.append([(True, k % n)])
        out = [(True, ())]
        for lst in per:
            out = [(T.And(c, c2), ix + (v,)) for c, ix in out for c2, v in lst]
        idx = self.idx
        return [(c, int(idx[ix])) for c, ix in out if c is not False]

    def __getitem__(self, key):
        key, sym = self._key(key)
        if sym == 'fancy':
            return self._fancy_get(key)
        if sym:
            cand = self._candidates(key)
            d = self.buf.data
            r = elem_term(d[cand[-1][1]])
            for c, p in cand[-2::-1]:
                r = T.Ite(c, elem_term(d[p]), r)
            return mk(r, self.dtype)
        sub = self.idx[key]
        if isinstance(sub, np.ndarray):
            return SymArray(self.buf, sub, self.dtype)
        x = self.buf.data[int(sub)]
        if type(x) is Term:
            return SV(x, self.dtype)
        return const_value(x, self.dtype) if self.dtype.kind != 'O' else x

    def _fancy_get(self, key):
        if len(key) == 1:
            k = key[0]
            if k.dtype.kind == 'b':
                if not k.is_concrete():
                    return MaskedSel(self, k)
                return SymArray(self.buf, self.idx[k.to_np()], self.dtype).copy()
            n = self.shape[0]
            if self.ndim == 1:
                out = []
                for t in k.terms():
                    v = self[mk(t, None)]
                    out.append(raw(v))
                return SymArray.from_list(out, k.shape, self.dtype)
            if k.is_concrete():
                return SymArray(self.buf, self.idx[k.to_np()], self.dtype).copy()
        if all(isinstance(k, SymArray) and k.dtype.kind in 'iu' for k in key) and len(key) == self.ndim:
            ks = broadcast([k for k in key])
            out = [raw(self[tuple(mk(t, None) for t in tt)]) for tt in zip(*[k.terms() for k in ks])]
            return SymArray.from_list(out, ks[0].shape, self.dtype)
        if all(not isinstance(k, SymArray) or k.is_concrete() for k in key):
            nk = tuple(k.to_np() if isinstance(k, SymArray) else k for k in key)
            return SymArray(self.buf, self.idx[nk], self.dtype).copy()
        raise EngineUnsupported('fancy index')

    def __setitem__(self, key, value):
        key, sym = self._key(key)
        if sym == 'fancy':
            return self._fancy_set(key, value)
        if sym:
            cand = self._candidates(key)
            v = elem_term(conv_store(value, self.dtype))
            d = self.buf.data
            for c, p in cand:
                d[p] = unnum(T.Ite(c, v, elem_term(d[p])), self.dtype)
            return
        sub = self.idx[key]
        d = self.buf.data
        if not isinstance(sub, np.ndarray):
            d[int(sub)] = conv_store(value, self.dtype)
            return
        if is_scalar(value):
            v = conv_store(value, self.dtype)
            for p in sub.ravel().tolist():
                d[p] = v
            return
        v = as_sym(value)
        if isinstance(v, SymRecArray):
            raise EngineUnsupported('record assignment')
        b = np.broadcast_to(v.idx, sub.shape)
        src = [conv_store_raw(v.buf.data[i], self.dtype, v.dtype) for i in b.ravel().tolist()]
        for p, x in zip(sub.ravel().tolist(), src):
            d[p] = x

    def _fancy_set(self, key, value):
        d = self.buf.data
        if len(key) == 1:
            k = key[0]
            if k.dtype.kind == 'b':
                if k.shape != self.shape:
                    k = SymArray(k.buf, np.broadcast_to(k.idx, self.shape), k.dtype) if False else k
                    if k.shape != self.shape[:k.ndim]:
                        raise IndexError('boolean index did not match indexed array')
                    raise EngineUnsupported('partial mask')
                if k.is_concrete():
                    sub = self.idx[k.to_np()]
                    tmp = SymArray(self.buf, sub, self.dtype)
                    tmp[...] = value
                    return
                if is_scalar(value):
                    v = elem_term(conv_store(value, self.dtype))
                    for p, c in zip(self.idx.ravel().tolist(), k.terms()):
                        d[p] = unnum(T.Ite(c, v, elem_term(d[p])), self.dtype)
                    return
                if isinstance(value, MaskedSel) and value.mask_is(k):
                    src = value.arr.terms()
                    for p, c, v in zip(self.idx.ravel().tolist(), k.terms(), src):
                        v = elem_term(conv_store_raw(v, self.dtype, value.arr.dtype))
                        d[p] = unnum(T.Ite(c, v, elem_term(d[p])), self.dtype)
                    return
                raise EngineUnsupported('masked assignment of array')
            if self.ndim == 1 and k.ndim == 1:
                vals = [value] * k.size if is_scalar(value) else [mk(t, None) for t in as_sym(value).terms()]
                for t, v in zip(k.terms(), vals):
                    self[mk(t, None)] = v
                return
        if all(not isinstance(k, SymArray) or k.is_concrete() for k in key):
            nk = tuple(k.to_np() if isinstance(k, SymArray) else k for k in key)
            tmp = SymArray(self.buf, self.idx[nk], self.dtype)
            tmp[...] = value
            return
        if all(isinstance(k, SymArray) and k.dtype.kind in 'iu' for k in key) and len(key) == self.ndim and is_scalar(value):
            ks = broadcast(list(key))
            for tt in zip(*[k.terms() for k in ks]):
                self[tuple(mk(t, None) for t in tt)] = value
            return
        raise EngineUnsupported('fancy assignment')

    # ---- methods
    def copy(self, order='C'):
        return SymArray.from_list(self.raw(), self.shape, self.dtype)

    __copy__ = copy

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        dtype = np.dtype(dtype)
        if not np.can_cast(self.dtype, dtype, casting):
            raise TypeError("Cannot cast array data from %r to %r according to the rule '%s'" % (self.dtype, dtype, casting))
        if not copy and dtype == self.dtype:
            return self
        return SymArray.from_list([conv_store_raw(x, dtype, self.dtype) for x in self.raw()], self.shape, dtype)

    def fill(self, v):
        self[...] = v

    def _contig(self):
        f = self.idx.ravel()
        return f.size == 0 or bool(np.all(np.diff(f) == 1))

    def ravel(self, order='C'):
        if self._contig():
            return SymArray(self.buf, self.idx.ravel(), self.dtype)
        return SymArray.from_list(self.raw(), (self.size,), self.dtype)

    def flatten(self, order='C'):
        return SymArray.from_list(self.raw(), (self.size,), self.dtype)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(operator.index(s) for s in shape)
        if self._contig():
            return SymArray(self.buf, self.idx.reshape(shape), self.dtype)
        n = SymArray.from_list(self.raw(), self.shape, self.dtype)
        return SymArray(n.buf, n.idx.reshape(shape), self.dtype)

    def transpose(self, *axes):
        return SymArray(self.buf, self.idx.transpose(*axes), self.dtype)

    def squeeze(self, axis=None):
        return SymArray(self.buf, self.idx.squeeze(axis), self.dtype)

    def view(self, *a, **k):
        if not a and not k:
            return SymArray(self.buf, self.idx, self.dtype)
        raise EngineUnsupported('view')

    def tolist(self):
        def rec(a):
            if a.ndim == 0:
                return plain(a.buf.data[int(a.idx)])
            return [rec(SymArray(a.buf, a.idx[i], a.dtype)) if a.ndim > 1 else plain(a.buf.data[int(a.idx[i])])
                    for i in range(a.shape[0])]
        return rec(self)

    def item(self, *ix):
        if not ix:
            if self.size != 1:
                raise ValueError('can only convert an array of size 1 to a Python scalar')
            return plain(self.raw()[0])
        v = self[ix if len(ix) > 1 else ix[0]]
        return plain(raw(v))

    def min(self, axis=None, **kw):
        return reduce_minmax(self, axis, True)

    def max(self, axis=None, **kw):
        return reduce_minmax(self, axis, False)

    def sum(self, axis=None, dtype=None, **kw):
        return reduce_sum(self, axis, dtype)

    def mean(self, axis=None, **kw):
        return reduce_sum(self, axis, np.float64) / (self.size if axis is None else self.shape[axis])

    def any(self, axis=None, **kw):
        return reduce_bool(self, axis, True)

    def all(self, axis=None, **kw):
        return reduce_bool(self, axis, False)

    def cumsum(self, axis=None, dtype=None, **kw):
        return cumsum(self, axis, dtype)

    def argmin(self, axis=None):
        return argminmax(self, axis, True)

    def argmax(self, axis=None):
        return argminmax(self, axis, False)

    def nonzero(self):
        raise EngineUnsupported('nonzero')

    def tobytes(self):
        raise EngineUnsupported('tobytes')

    def __bool__(self):
        if self.size == 1:
            return decide(truth(mk(elem_term(self.raw()[0]), self.dtype)))
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __index__(self):
        raise EngineUnsupported('array index')

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def __contains__(self, x):
        return decide(reduce_bool(array_op(operator.eq, self, x), None, True))

    def __neg__(self):
        return map_unary(self, lambda v: -v if type(v) is SV else -v)

    def __abs__(self):
        return map_unary(self, abs)

    def __invert__(self):
        return map_unary(self, operator.invert)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise EngineUnsupported('ndarray.%s' % name)


def _arr_bin(op):
    def f(self, other):
        return array_op(op, self, other)

    def r(self, other):
        return array_op(op, other, self)

    def i(self, other):
        res = array_op(op, self, other)
        if not np.can_cast(res.dtype, self.dtype, 'same_kind'):
            raise TypeError('Cannot cast ufunc output to %s' % self.dtype)
        self[...] = res
        return self
    return f, r, i


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lshift', 'rshift'):
    _f, _r_, _i = _arr_bin(getattr(operator, _n))
    setattr(SymArray, '__%s__' % _n, _f)
    setattr(SymArray, '__r%s__' % _n, _r_)
    setattr(SymArray, '__i%s__' % _n, _i)
for _n in ('and', 'or', 'xor'):
    _f, _r_, _i = _arr_bin(getattr(operator, _n + '_' if _n != 'xor' else 'xor'))
    setattr(SymArray, '__%s__' % _n, _f)
    setattr(SymArray, '__r%s__' % _n, _r_)
    setattr(SymArray, '__i%s__' % _n, _i)
for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    def _mkcmp(op):
        return lambda self, other: array_op(op, self, other)
    setattr(SymArray, '__%s__' % _n, _mkcmp(getattr(operator, _n)))
SymArray.__hash__ = None


def _shape(s):
    if isinstance(s, (tuple, list)):
        out = []
        for x in s:
            if type(x) is SV:
                x = x._conc()
            out.append(operator.index(x))
        return tuple(out)
    if type(s) is SV:
        s = s._conc()
    return (operator.index(s),)


def raw(v):
    """raw element (Term or Python constant) of a scalar value"""
    if type(v) is SV:
        return v.t
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.floating):
        return float(v)
    if isinstance(v, Fraction):
        return unnum(v, np.dtype(float))
    return v


def plain(x):
    """plain Python scalar of a raw element"""
    if type(x) is Term:
        return SV(x, None)
    return x


def unnum(t, dt):
    """raw storage form of a term/constant"""
    if type(t) is Fraction:
        f = float(t)
        if Fraction(f) == t:
            return f
        return ExactConst(t)
    return t


def conv_store(v, dt):
    if dt.kind == 'O':
        return v
    if isinstance(v, SymArray):
        if v.size != 1:
            raise ValueError('setting an array element with a sequence.')
        return conv_store_raw(v.raw()[0], dt, v.dtype)
    if type(v) is SV:
        return unnum(cast_term(v.t, dt, v.dt), dt)
    if isinstance(v, GList) or isinstance(v, (list, tuple)):
        raise ValueError('setting an array element with a sequence.')
    if v is None:
        if dt.kind == 'f':
            raise EngineUnsupported('None stored as NaN')
        raise TypeError("int() argument must be ... not 'NoneType'")
    return _norm_const(v, dt)


def conv_store_raw(x, dt, src):
    if type(x) is Term:
        return unnum(cast_term(x, dt, src), dt)
    if type(x) is Fraction:
        x = float(x)
    return _norm_const(x, dt)


def as_sym(v, dtype=None):
    if isinstance(v, (SymArray, SymRecArray)):
        if dtype is not None and v.dtype != np.dtype(dtype):
            return v.astype(dtype)
        return v
    if isinstance(v, np.ndarray):
        r = SymArray.from_np(v)
        return r if dtype is None else as_sym(r, dtype)
    if is_scalar(v):
        dt = dt_of(v)
        if dt is None:
            dt = {'B': np.dtype(bool), 'I': np.dtype(np.int64), 'R': np.dtype(np.float64)}[T.sort_of(term(v))]
        if dtype is not None:
            dt = np.dtype(dtype)
        return SymArray.from_list([conv_store(v, dt)], (), dt)
    if isinstance(v, GList):
        v = v.resolve()
    if isinstance(v, range):
        v = list(v)
    if isinstance(v, (list, tuple)):
        flat = []

        def rec(x):
            if isinstance(x, (list, tuple)):
                shp = None
                for y in x:
                    s = rec(y)
                    if shp is not None and s != shp:
                        raise EngineUnsupported('ragged array')
                    shp = s
                return (len(x),) + (shp or ())
            if isinstance(x, np.ndarray):
                x = SymArray.from_np(x)
            if isinstance(x, SymArray):
                flat.extend(mk(elem_term(e), x.dtype) for e in x.raw())
                return x.shape
            flat.append(x)
            return ()
        shape = rec(v)
        if dtype is None:
            if not flat:
                dt = np.dtype(np.float64)
            elif not all(is_scalar(x) for x in flat):
                dt = np.dtype(object)
            else:
                dts = [np.dtype(bool) if T.sort_of(term(x)) == 'B' and dt_of(x) is None else
                       (dt_of(x) or {'I': np.dtype(np.int64), 'R': np.dtype(np.float64)}[T.sort_of(term(x))]) for x in flat]
                dt = np.result_type(*set(dts))
        else:
            dt = np.dtype(dtype)
        return SymArray.from_list([conv_store(x, dt) for x in flat], shape, dt)
    if v is None or isinstance(v, (dict, str)):
        return SymArray.from_list([v], (), np.dtype(object))
    raise EngineUnsupported('array of %r' % type(v))


def broadcast(arrs):
    shp = np.broadcast_shapes(*[a.shape for a in arrs])
    return [SymArray(a.buf, np.broadcast_to(a.idx, shp), a.dtype) for a in arrs]


def _arr_sample(v):
    if isinstance(v, SymArray):
        if v.ndim == 0:
            return v.dtype.type(1)
        return np.ones((1,), dtype=v.dtype)
    return _sample(v)


_arrcache = {}


def arr_res_dt(op, a, b):
    sa, sb = _arr_sample(a), _arr_sample(b)
    key = (op, type(sa), getattr(sa, 'dtype', None), type(sb), getattr(sb, 'dtype', None))
    r = _arrcache.get(key)
    if r is None:
        # value-based casting of Python scalars: use the actual concrete value when there is one
        with np.errstate(all='ignore'):
            r = np.asarray(op(sa, sb)).dtype
        _arrcache[key] = r
    return r


def array_op(op, a, b):
    if isinstance(a, np.ndarray):
        a = SymArray.from_np(a)
    if isinstance(b, np.ndarray):
        b = SymArray.from_np(b)
    if isinstance(a, (list, tuple, GList)):
        a = as_sym(a)
    if isinstance(b, (list, tuple, GList)):
        b = as_sym(b)
    if isinstance(a, MaskedSel) or isinstance(b, MaskedSel):
        return MaskedSel.op(op, a, b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if op in (operator.eq, operator.ne):
            arr = a if isinstance(a, SymArray) else b
            return SymArray.full(arr.shape, op is operator.ne, bool)
        raise TypeError('unsupported operand type(s)')
    dt = arr_res_dt(op, a, b)
    if op in (operator.and_, operator.or_, operator.xor) and dt.kind == 'f':
        raise TypeError('ufunc not supported for the input types')
    A = a if isinstance(a, SymArray) else None
    B = b if isinstance(b, SymArray) else None
    if A is not None and B is not None:
        A, B = broadcast([A, B])
        shape = A.shape
        xs = [mkp(x, A.dtype) for x in A.raw()]
        ys = [mkp(x, B.dtype) for x in B.raw()]
    elif A is not None:
        shape = A.shape
        xs = [mkp(x, A.dtype) for x in A.raw()]
        ys = [b] * len(xs)
    else:
        shape = B.shape
        ys = [mkp(x, B.dtype) for x in B.raw()]
        xs = [a] * len(ys)
    out = []
    iscmp = op in _CMP
    fast = _fastop(op)
    for x, y in zip(xs, ys):
        if type(x) is SV or type(y) is SV:
            if iscmp:
                out.append(raw(compare(op, x, y)))
            else:
                if op is operator.truediv:
                    r = scalar_op(op, _np64(x), _np64(y))
                else:
                    r = scalar_op(op, x, y)
                out.append(conv_store(r, dt))
        else:
            with np.errstate(all='ignore'):
                r = op(_asnp(x, dt, iscmp), _asnp(y, dt, iscmp))
            if not iscmp and dt.kind == 'f' and r != r:
                raise NaNValue()
            out.append(_norm_const(r, dt))
    if shape == () and len(out) == 1:
        return mk(elem_term(out[0]), dt)
    return SymArray.from_list(out, shape, dt)


def _np64(x):
    if dt_of(x) is None:
        return SV(T.ToReal(x.t), np.dtype(np.float64)) if type(x) is SV else np.float64(x)
    return x


def _asnp(x, dt, iscmp):
    if iscmp or dt.kind == 'O':
        return x
    return dt.type(x) if dt.kind == 'f' else x


def _fastop(op):
    return None


def mkp(x, dt):
    return SV(x, dt) if type(x) is Term else const_value(x, dt)


def map_unary(a, f, dtype=None):
    a = as_sym(a)
    out = []
    rdt = dtype
    for x in a.raw():
        r = f(mkp(x, a.dtype))
        if rdt is None:
            rdt = dt_of(r) or a.dtype
        out.append(conv_store(r, np.dtype(rdt)))
    return SymArray.from_list(out, a.shape, np.dtype(rdt) if rdt is not None else a.dtype)


def map_binary(a, b, f, dt):
    A, B = broadcast([as_sym(a), as_sym(b)])
    out = [conv_store(f(mkp(x, A.dtype), mkp(y, B.dtype)), dt) for x, y in zip(A.raw(), B.raw())]
    if A.shape == ():
        return mk(elem_term(out[0]), dt)
    return SymArray.from_list(out, A.shape, dt)


def _lanes(a, axis):
    """(result shape, list of lists of raw values)"""
    if axis is None:
        return (), [a.raw()]
    if isinstance(axis, (tuple, list)):
        if len(axis) == a.ndim:
            return (), [a.raw()]
        raise EngineUnsupported('axis tuple')
    m = np.moveaxis(a.idx, axis, -1)
    shp = m.shape[:-1]
    return shp, [[a.buf.data[i] for i in row] for row in m.reshape(-1, m.shape[-1]).tolist()]


def _pack(vals, shape, dt):
    if shape == ():
        return mk(elem_term(vals[0]), dt)
    return SymArray.from_list(vals, shape, dt)


def reduce_minmax(a, axis, ismin):
    shp, lanes = _lanes(a, axis)
    out = []
    for lane in lanes:
        if not lane:
            raise ValueError('zero-size array to reduction operation which has no identity')
        r = elem_term(lane[0])
        for x in lane[1:]:
            r = (T.Min if ismin else T.Max)(r, elem_term(x))
        out.append(unnum(r, a.dtype))
    return _pack(out, shp, a.dtype)


def reduce_sum(a, axis, dtype=None):
    if dtype is None:
        dtype = np.dtype(np.int64) if a.dtype.kind in 'bi' and a.dtype.itemsize <= 8 else np.dtype(np.uint64) if a.dtype.kind == 'u' else a.dtype
    dtype = np.dtype(dtype)
    shp, lanes = _lanes(a, axis)
    out = []
    for lane in lanes:
        r = 0 if dtype.kind in 'iu' else Fraction(0)
        for x in lane:
            r = T.Add(r, T.ToReal(elem_term(x)) if dtype.kind == 'f' else T.B2I(elem_term(x)))
        if dtype.kind in 'iu':
            r = T.wrap(r, dtype.itemsize * 8, dtype.kind == 'i')
        out.append(unnum(r, dtype))
    return _pack(out, shp, dtype)


def reduce_bool(a, axis, isany):
    if not isinstance(a, SymArray):
        return mk(truth(a), np.dtype(bool))
    shp, lanes = _lanes(a, axis)
    out = []
    for lane in lanes:
        ts = [truth(mkp(x, a.dtype)) for x in lane]
        out.append(T.Or(*ts) if isany else T.And(*ts))
    return _pack(out, shp, np.dtype(bool))


def cumsum(a, axis=None, dtype=None):
    a = as_sym(a)
    if dtype is None:
        dtype = np.dtype(np.int64) if a.dtype.kind in 'bi' else a.dtype
    dtype = np.dtype(dtype)
    if a.ndim > 1 and axis is not None:
        raise EngineUnsupported('cumsum axis')
    out = []
    r = 0 if dtype.kind in 'iu' else Fraction(0)
    for x in a.raw():
        r = T.Add(r, T.ToReal(elem_term(x)) if dtype.kind == 'f' else T.B2I(elem_term(x)))
        out.append(unnum(r, dtype))
    return SymArray.from_list(out, (len(out),), dtype)


def argminmax(a, axis, ismin):
    if axis is not None:
        raise EngineUnsupported('argmin axis')
    xs = a.terms()
    if not xs:
        raise ValueError('attempt to get argmin of an empty sequence')
    best, bi = xs[0], 0
    for i, x in enumerate(xs[1:], 1):
        c = T.Lt(x, best) if ismin else T.Lt(best, x)
        best = T.Ite(c, x, best)
        bi = T.Ite(c, i, bi)
    return mk(bi, np.dtype(np.int64))


class MaskedSel(object):
    """arr[mask] with a symbolic mask: a selection of unknown size."""
    __slots__ = ('arr', 'mask')

    def __init__(self, arr, mask):
        self.arr = arr.copy()
        self.mask = mask.copy()

    def mask_is(self, k):
        return [x.id if type(x) is Term else x for x in self.mask.raw()] == [x.id if type(x) is Term else x for x in k.raw()]

    @property
    def dtype(self):
        return self.arr.dtype

    @property
    def size(self):
        return reduce_sum(self.mask, None)

    @staticmethod
    def op(op, a, b):
        if isinstance(a, MaskedSel) and isinstance(b, MaskedSel):
            if not a.mask_is(b.mask):
                raise EngineUnsupported('masked operands with different masks')
            return MaskedSel(array_op(op, a.arr, b.arr), a.mask)
        if isinstance(a, MaskedSel) and is_scalar(b):
            return MaskedSel(array_op(op, a.arr, b), a.mask)
        if isinstance(b, MaskedSel) and is_scalar(a):
            return MaskedSel(array_op(op, a, b.arr), b.mask)
        raise EngineUnsupported('masked operation')

    def sum(self, **kw):
        z = as_sym(0).astype(self.arr.dtype)
        vals = [unnum(T.Ite(c, v, 0 if T.sort_of(v) != 'R' else Fraction(0)), self.arr.dtype)
                for c, v in zip(self.mask.terms(), self.arr.terms())]
        return reduce_sum(SymArray.from_list(vals, (len(vals),), self.arr.dtype), None)

    def _mm(self, ismin):
        r, have = None, False
        for c, v in zip(self.mask.terms(), self.arr.terms()):
            if r is None:
                r, have = v, c
                continue
            better = T.And(c, T.Or(T.Not(have), T.Lt(v, r) if ismin else T.Lt(r, v)))
            r = T.Ite(better, v, r)
            have = T.Or(have, c)
        if not decide(have):
            raise ValueError('zero-size array to reduction operation which has no identity')
        return mk(r, self.arr.dtype)

    def min(self, **kw):
        return self._mm(True)

    def max(self, **kw):
        return self._mm(False)

    def any(self, **kw):
        return mk(T.Or(*[T.And(c, truth(mkp(x, self.arr.dtype))) for c, x in zip(self.mask.terms(), self.arr.raw())]), np.dtype(bool))

    def all(self, **kw):
        return mk(T.And(*[T.Implies(c, truth(mkp(x, self.arr.dtype))) for c, x in zip(self.mask.terms(), self.arr.raw())]), np.dtype(bool))

    def as_glist(self):
        return GList([(c, mkp(x, self.arr.dtype)) for c, x in zip(self.mask.terms(), self.arr.raw())])

    def tolist(self):
        return GList([(c, plain(x)) for c, x in zip(self.mask.terms(), self.arr.raw())])

    def __len__(self):
        raise EngineUnsupported('native len of a masked selection')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise EngineUnsupported('masked selection .%s' % name)


for _n in ('add', 'sub', 'mul', 'truediv', 'eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    def _mkm(op):
        return (lambda self, o: MaskedSel.op(op, self, o)), (lambda self, o: MaskedSel.op(op, o, self))
    _a, _b = _mkm(getattr(operator, _n))
    setattr(MaskedSel, '__%s__' % _n, _a)
    if _n in ('add', 'sub', 'mul', 'truediv'):
        setattr(MaskedSel, '__r%s__' % _n, _b)
MaskedSel.__hash__ = None


# ------------------------------------------------------------------ structured arrays
class SymRecArray(object):
    __slots__ = ('fields', 'dtype')
    __array_ufunc__ = None

    def __init__(self, fields, dtype):
        self.fields = fields
        self.dtype = dtype

    @property
    def shape(self):
        return next(iter(self.fields.values())).shape

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return next(iter(self.fields.values())).size

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, key):
        if isinstance(key, str):
            if key not in self.fields:
                raise ValueError('no field of name %s' % key)
            return self.fields[key]
        if isinstance(key, list) and all(isinstance(k, str) for k in key):
            return SymRecArray({k: self.fields[k] for k in key}, np.dtype([(k, self.dtype[k]) for k in key]))
        f = next(iter(self.fields.values()))
        k2 = key if isinstance(key, tuple) else (key,)
        if all(type(k) is SV or isinstance(k, (int, np.integer)) for k in k2) and len(k2) == f.ndim:
            for ax, k in enumerate(k2):
                n = f.shape[ax]
                t = term(k)
                if not decide_ok(T.And(T.Le(-n, t), T.Le(t, n - 1))):
                    raise IndexError('index %s is out of bounds for axis %d with size %d' % (k, ax, n))
            return SymRecord(self, k2)
        return SymRecArray({n: a[key] for n, a in self.fields.items()}, self.dtype)

    def __setitem__(self, key, value):
        if isinstance(key, str):
            self.fields[key][...] = value
            return
        if isinstance(value, (SymRecord,)):
            vals = [value[n] for n in self.fields]
        elif isinstance(value, SymRecArray):
            vals = [value.fields[n] for n in self.fields]
        elif isinstance(value, tuple):
            vals = list(value)
        elif hasattr(value, 'cstruct_fields'):
            vals = [value.cstruct_fields()[n] for n in self.fields]
        elif is_scalar(value):
            vals = [value] * len(self.fields)
        else:
            raise EngineUnsupported('record assignment')
        for a, v in zip(self.fields.values(), vals):
            a[key] = v

    def fill(self, v):
        self[slice(None)] = v

    def copy(self):
        return SymRecArray({n: a.copy() for n, a in self.fields.items()}, self.dtype)

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise EngineUnsupported('recarray.%s' % name)


class SymRecord(object):
    __slots__ = ('arr', 'ix')

    def __init__(self, arr, ix):
        self.arr = arr
        self.ix = ix

    @property
    def dtype(self):
        return self.arr.dtype

    def _name(self, k):
        if isinstance(k, (int, np.integer)):
            return list(self.arr.fields)[k]
        if k not in self.arr.fields:
            raise ValueError('no field of name %s' % (k,))
        return k

    def __getitem__(self, k):
        return self.arr.fields[self._name(k)][self.ix]

    def __setitem__(self, k, v):
        self.arr.fields[self._name(k)][self.ix] = v

    def __len__(self):
        return len(self.arr.fields)

    def __iter__(self):
        return iter([self[n] for n in self.arr.fields])

    def item(self):
        return tuple(plain(raw(self[n])) for n in self.arr.fields)

    tolist = item


class SymStr(object):
    """A string with symbolic numbers formatted into it: parts are str or SV."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr):
                out.extend(p.parts)
            elif isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '' or not isinstance(p, str):
                out.append(p)
        self.parts = out

    def __repr__(self):
        return 'SymStr(%r)' % (self.parts,)

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != -1 or any(c in sep for c in '0123456789.-+einf'):
            raise EngineUnsupported('split of a symbolic string')
        cur, out = [], []
        for p in self.parts:
            if isinstance(p, str):
                bits = p.split(sep)
                cur.append(bits[0])
                for b in bits[1:]:
                    out.append(_simpstr(cur))
                    cur = [b]
            else:
                cur.append(p)
        out.append(_simpstr(cur))
        return out

    def strip(self, *a):
        if not a:
            ps = list(self.parts)
            if ps and isinstance(ps[0], str):
                ps[0] = ps[0].lstrip()
            if ps and isinstance(ps[-1], str):
                ps[-1] = ps[-1].rstrip()
            return _simpstr(ps)
        raise EngineUnsupported('strip')

    def __add__(self, o):
        return SymStr([self, o])

    def __radd__(self, o):
        return SymStr([o, self])

    def __bool__(self):
        return bool(self.parts)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise EngineUnsupported('str.%s on symbolic string' % name)


def _simpstr(parts):
    s = SymStr(parts)
    if not s.parts:
        return ''
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


# characters removed by str.strip() / str.split()
SPACES = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760] + list(range(8192, 8203)) + [8232, 8233, 8239, 8287, 12288]


def _one_of(c, codes):
    """c is one of the character codes"""
    if type(c) is not Term:
        return c in codes
    out = []
    codes = sorted(set(codes))
    k = 0
    while k < len(codes):
        j = k
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        out.append(T.Eq(c, codes[k]) if j == k else T.And(T.Ge(c, codes[k]), T.Le(c, codes[j])))
        k = j + 1
    return T.Or(*out)


class SymText(object):
    """A string of symbolic characters: slots (condition of presence, code point)."""
    __slots__ = ('slots',)

    def __init__(self, codes=(), slots=None):
        self.slots = [(True, c) for c in codes] if slots is None else [x for x in slots if x[0] is not False]

    def __repr__(self):
        return 'SymText(%r)' % (self.slots,)

    @staticmethod
    def of(x):
        if isinstance(x, SymText):
            return x
        if isinstance(x, str):
            return SymText([ord(c) for c in x])
        raise EngineUnsupported('text of %r' % type(x))

    def matches(self, word, full=False):
        """[the characters from slot k on start with (full: are) word] for every k; whether slot k is present is not asked"""
        w = [ord(c) for c in word]
        n, m = len(self.slots), len(w)
        # cur[j]: the slots from k on spell w[j:]
        cur = [False] * m + [True]
        out = [cur]
        for k in range(n - 1, -1, -1):
            g, c = self.slots[k]
            new = []
            for j in range(m):
                new.append(T.Or(T.And(g, T.Eq(c, w[j]), cur[j + 1]), T.And(T.Not(g), cur[j])))
            new.append(T.And(T.Not(g), cur[m]) if full else True)
            cur = new
            out.append(cur)
        out.reverse()
        return [x[0] for x in out]

    def replace(self, old, new, count=-1):
        if not isinstance(old, str) or not isinstance(new, str) or count != -1 or not old:
            raise EngineUnsupported('replace with symbolic arguments')
        m = len(old)
        match = self.matches(old)
        left = [True] + [False] * (m - 1)          # left[j]: j characters of a match still to come
        out = []
        for k, (g, c) in enumerate(self.slots):
            start = T.And(g, left[0], match[k])
            stay = T.And(g, left[0], T.Not(match[k]))
            for j, x in enumerate(new):
                if j == 0:
                    out.append((T.Or(start, stay), T.Ite(start, ord(x), c)))
                else:
                    out.append((start, ord(x)))
            if not new:
                out.append((stay, c))
            elif len(new) > 1:
                out[-len(new)] = (start, ord(new[0]))
                out.append((stay, c))
            nxt = []
            for j in range(m):
                come = left[j + 1] if j + 1 < m else False
                if j == m - 1:
                    come = T.Or(come, T.And(left[0], match[k])) if m > 1 else T.And(left[0], True)
                if j == 0 and m > 1:
                    come = T.Or(come, T.And(left[0], T.Not(match[k])))
                nxt.append(T.Or(T.And(g, come), T.And(T.Not(g), left[j])))
            left = nxt
        return SymText(slots=out)

    def _set(self, chars):
        if chars is None:
            return SPACES
        if isinstance(chars, str):
            return [ord(c) for c in chars]
        raise EngineUnsupported('strip')

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def _strip(self, slots, chars):
        cs = self._set(chars)
        seen, out = False, []
        for g, c in slots:
            seen = T.Or(seen, T.And(g, T.Not(_one_of(c, cs))))
            out.append((T.And(seen, g), c))
        return out

    def lstrip(self, chars=None):
        return SymText(slots=self._strip(self.slots, chars))

    def rstrip(self, chars=None):
        return SymText(slots=self._strip(self.slots[::-1], chars)[::-1])

    def split(self, sep=None, maxsplit=-1):
        if maxsplit != -1 or sep is not None and (not isinstance(sep, str) or len(sep) != 1):
            raise EngineUnsupported('split')
        cs = SPACES if sep is None else [ord(sep)]
        issep = [_one_of(c, cs) for _, c in self.slots]
        out = []
        if sep is not None:
            out.append((True, self._run(0, issep)))
        before = True
        for k, (g, c) in enumerate(self.slots):
            if sep is None:
                out.append((T.And(g, T.Not(issep[k]), before), self._run(k, issep)))
                before = T.Ite(g, issep[k], before)
            else:
                out.append((T.And(g, issep[k]), self._run(k + 1, issep)))
        return GList([x for x in out if x[0] is not False])

    def _run(self, k, issep):
        out, on = [], True
        for j in range(k, len(self.slots)):
            g, c = self.slots[j]
            on = T.And(on, T.Or(T.Not(g), T.Not(issep[j])))
            if on is False:
                break
            out.append((T.And(g, on), c))
        return SymText(slots=out)

    def eq(self, o):
        if isinstance(o, str):
            return self.matches(o, True)[0]
        if not isinstance(o, SymText):
            return False
        if len(self.slots) == len(o.slots) and all(g is True and h is True for (g, _), (h, _) in zip(self.slots, o.slots)):
            return T.And(*[T.Eq(a, b) for (_, a), (_, b) in zip(self.slots, o.slots)])
        if self.slots is o.slots:
            return True
        raise EngineUnsupported('comparison of symbolic texts')

    def __eq__(self, o):
        return mk(self.eq(o), None)

    def __ne__(self, o):
        return mk(T.Not(self.eq(o)), None)

    __hash__ = None

    def has(self, word):
        if isinstance(word, SymText):
            raise EngineUnsupported('symbolic text in symbolic text')
        if word == '':
            return True
        ms = self.matches(word)
        return T.Or(*[T.And(g, ms[k]) for k, (g, _) in enumerate(self.slots)])

    def within(self, s):
        """self in the concrete string s"""
        if len(self.slots) == 1 and self.slots[0][0] is True:
            return _one_of(self.slots[0][1], [ord(c) for c in s])
        return T.Or(*[self.eq(s[i:j]) for i in range(len(s) + 1) for j in range(i, min(len(s), i + len(self.slots)) + 1)])

    def length(self):
        n = 0
        for g, _ in self.slots:
            n = T.Add(n, T.B2I(g))
        return mk(n, None)

    def nonempty(self):
        return T.Or(*[g for g, _ in self.slots])

    def __bool__(self):
        return decide(self.nonempty())

    def chars(self):
        return GList([(g, SymText([c])) for g, c in self.slots])

    def getitem(self, k):
        if isinstance(k, slice):
            if all(g is True for g, _ in self.slots):
                return SymText(slots=self.slots[k])
            raise EngineUnsupported('slice of symbolic text')
        return self.chars().getitem(k) if any(g is not True for g, _ in self.slots) else SymText([self.slots[k][1]])

    def _every(self, codes):
        return mk(T.And(self.nonempty(), *[T.Or(T.Not(g), _one_of(c, codes)) for g, c in self.slots]), None)

    def isspace(self):
        return self._every(SPACES)

    def startswith(self, w):
        return mk(T.Or(*[self.matches(x)[0] for x in (w if isinstance(w, tuple) else (w,))]), None)

    def count(self, w):
        if not isinstance(w, str) or len(w) != 1:
            raise EngineUnsupported('count')
        n = 0
        for g, c in self.slots:
            n = T.Add(n, T.B2I(T.And(g, T.Eq(c, ord(w)))))
        return mk(n, None)

    def __add__(self, o):
        return SymText(slots=self.slots + SymText.of(o).slots)

    def __radd__(self, o):
        return SymText(slots=SymText.of(o).slots + self.slots)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise EngineUnsupported('str.%s on symbolic text' % name)
