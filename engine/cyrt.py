"""C semantics for translated Cython code.  Works on concrete Python values and on symbolic SV values."""
import math
import operator
import random
import numpy as np
from . import terms as T
from . import values as V
from .terms import Term
from .values import SV, SymArray, SymRecArray, EngineUnsupported

BITS = {'i8': (8, True), 'u8': (8, False), 'i16': (16, True), 'u16': (16, False), 'i32': (32, True), 'u32': (32, False),
        'i64': (64, True), 'u64': (64, False), 'bint': (32, True)}
NPDT = {'i8': np.int8, 'u8': np.uint8, 'i16': np.int16, 'u16': np.uint16, 'i32': np.int32, 'u32': np.uint32, 'i64': np.int64,
        'u64': np.uint64, 'f32': np.float32, 'f64': np.float64}
EXTTYPES = {'FloatArray', 'DoubleArray', 'IntArray', 'LongArray', 'UIntArray'}
FN = 'C code'


class CyUB(BaseException):
    """undefined behaviour of the compiled code on this path"""


class Uninit(object):
    def __repr__(self):
        return 'UNINIT'

    def _ub(self, *a, **k):
        raise CyUB('read of an uninitialised C variable')
    for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'neg', 'truediv', 'rtruediv', 'index',
               'int', 'float', 'bool', 'getitem', 'setitem', 'abs', 'mod', 'pow', 'iter', 'len', 'hash', 'format', 'str'):
        locals()['__%s__' % _n] = _ub

    def __getattr__(self, n):
        raise CyUB('use of an uninitialised C variable')


UNINIT = Uninit()


def _rng(code):
    b, s = BITS[code]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def _chk(*xs):
    for x in xs:
        if x is UNINIT:
            raise CyUB('read of an uninitialised C variable')


def _t(x):
    """int term of a C integer"""
    if type(x) is SV:
        return T.B2I(x.t) if x.t.sort == 'B' else x.t
    return int(x)


def _mk(t):
    return SV(t, None) if type(t) is Term else t


def oblige(c, what):
    """condition which must hold on every execution; assumed afterwards"""
    if c is True:
        return
    if c is False:
        raise CyUB(what)
    V.CTX.oblige(c, what)


def _fin(t, code):
    b, s = BITS[code]
    if type(t) is not Term:
        if s:
            lo, hi = _rng(code)
            if not lo <= t <= hi:
                raise CyUB('signed integer overflow')
            return t
        return t & ((1 << b) - 1)
    if s:
        lo, hi = _rng(code)
        c = T.in_range(t, lo, hi)
        if c is not True:
            oblige(c, 'signed integer overflow')
            t = T.wrap(t, b, True)
        return SV(t, None)
    return _mk(T.wrap(t, b, False))


def iadd(a, b, code):
    if type(a) is not SV and type(b) is not SV:
        _chk(a, b)
    return _fin(T.Add(_t(a), _t(b)), code)


def isub(a, b, code):
    if type(a) is not SV and type(b) is not SV:
        _chk(a, b)
    return _fin(T.Sub(_t(a), _t(b)), code)


def imul(a, b, code):
    _chk(a, b)
    return _fin(T.Mul(_t(a), _t(b)), code)


def _dm(a, b, code, mod, c):
    _chk(a, b)
    a, b = _t(a), _t(b)
    if type(b) is Term:
        raise EngineUnsupported('C division by a symbolic integer')
    if b == 0:
        if c:
            raise CyUB('integer division by zero')
        raise ZeroDivisionError('integer division or modulo by zero')
    if not c or (type(a) is not Term and a >= 0 and b > 0) or (type(a) is Term and a.lo is not None and a.lo >= 0 and b > 0):
        return _fin(T.Mod(a, b) if mod else T.FloorDiv(a, b), code)
    if type(a) is Term:
        raise EngineUnsupported('C truncating division')
    q = abs(a) // abs(b)
    q = q if (a >= 0) == (b >= 0) else -q
    return _fin(a - q * b if mod else q, code)


def idiv(a, b, code):
    return _dm(a, b, code, False, False)


def imod(a, b, code):
    return _dm(a, b, code, True, False)


def cidiv(a, b, code):
    return _dm(a, b, code, False, True)


def cimod(a, b, code):
    return _dm(a, b, code, True, True)


def cfdiv(a, b):
    if type(a) is SV or type(b) is SV:
        return a / b
    if b == 0:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a)
    return a / b


def _bit(op):
    def f(a, b, code):
        _chk(a, b)
        a, b = _t(a), _t(b)
        if type(a) is Term or type(b) is Term:
            if op is operator.and_ and type(b) is int and b >= 0 and (b & (b + 1)) == 0:
                return _fin(T.Mod(a, b + 1), code)
            for x in (a, b):
                if type(x) is Term and not (x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi <= 1):
                    raise EngineUnsupported('bit operation on symbolic integers')
            x, y = T.Eq(a, 1), T.Eq(b, 1)
            r = T.And(x, y) if op is operator.and_ else T.Or(x, y) if op is operator.or_ else T.Xor(x, y)
            return _mk(T.B2I(r))
        return _fin(op(a, b), code)
    return f


iand, ior, ixor = _bit(operator.and_), _bit(operator.or_), _bit(operator.xor)


def ishl(a, b, code):
    _chk(a, b)
    if type(b) is SV:
        raise EngineUnsupported('symbolic shift')
    if b < 0 or b >= BITS[code][0]:
        raise CyUB('shift out of range')
    return _fin(T.Mul(_t(a), 1 << b), code)


def ishr(a, b, code):
    _chk(a, b)
    if type(b) is SV:
        raise EngineUnsupported('symbolic shift')
    if b < 0 or b >= BITS[code][0]:
        raise CyUB('shift out of range')
    return _fin(T.FloorDiv(_t(a), 1 << b), code)


def ipow(a, b, code):
    _chk(a, b)
    if type(a) is SV or type(b) is SV:
        raise EngineUnsupported('symbolic power')
    return _fin(a ** b, code)


def f32(x):
    _chk(x)
    if type(x) is SV:
        return SV(V.fpcast(x.t, np.dtype(np.float32), np.dtype(np.float64)), None) if x.t.sort == 'R' else x
    return float(np.float32(x))


def cv(x, a, b):
    """C conversion from code a to code b"""
    _chk(x)
    if b[0] == 'f':
        if type(x) is SV:
            t = x.t
            if t.sort != 'R':
                t = T.ToReal(T.B2I(t) if t.sort == 'B' else t)
            if type(t) is not Term:
                return float(t)
            return f32(SV(t, None)) if b == 'f32' and a != 'f32' else SV(t, None)
        x = float(x)
        return float(np.float32(x)) if b == 'f32' else x
    if b == 'bint':
        if type(x) is SV:
            return x if x.t.sort == 'B' else (x != 0)
        return int(x) if a[0] != 'f' else int(x != 0)
    bits, s = BITS[b]
    if a[0] == 'f':
        if type(x) is SV:
            t = V.trunc_term(x.t)
        else:
            if x != x or x in (math.inf, -math.inf):
                raise CyUB('conversion of a non-finite float to an integer')
            t = int(x)
        lo, hi = _rng(b)
        c = T.in_range(t, lo, hi)
        oblige(c, 'float to integer conversion out of range')
        return _mk(T.wrap(t, bits, s)) if type(t) is Term else t
    t = _t(x)
    if type(t) is not Term:
        t &= (1 << bits) - 1
        if s and t >> (bits - 1):
            t -= 1 << bits
        return t
    return _mk(T.wrap(t, bits, s))


def from_py(x, code):
    """Python object -> C scalar (as Cython's conversion helpers do)"""
    if code[0] == 'f':
        if type(x) is SV:
            return cv(x, 'f64' if x.t.sort == 'R' else 'i64', code)
        if x is None or isinstance(x, (str, bytes, list, tuple, dict)):
            raise TypeError('must be real number, not %s' % type(x).__name__)
        if isinstance(x, SymArray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return from_py(x.item(), code)
        x = float(x)
        return float(np.float32(x)) if code == 'f32' else x
    if code == 'bint':
        return truth(x)
    if type(x) is SV:
        if x.t.sort == 'R':
            if x.dt is not None or True:
                raise TypeError('an integer is required')
        t = T.B2I(x.t) if x.t.sort == 'B' else x.t
        lo, hi = _rng(code)
        c = T.in_range(t, lo, hi)
        if c is not True and not V.decide_ok(c):
            raise OverflowError('value out of range for C integer')
        return _mk(t)
    if isinstance(x, SymArray) and x.size == 1 and x.dtype.kind in 'iub':
        return from_py(x.item(), code)
    if isinstance(x, (float, np.floating)) or x is None or isinstance(x, (str, bytes, list, tuple, dict)):
        raise TypeError('an integer is required')
    v = operator.index(x) if not isinstance(x, np.bool_) else int(x)
    lo, hi = _rng(code)
    if not lo <= v <= hi:
        raise OverflowError('value too large to convert' if v > hi else "can't convert negative value to unsigned type" if lo == 0 else 'value too small')
    return v


def to_py(x, code):
    _chk(x)
    if type(x) is SV:
        return SV(T.B2I(x.t), None) if x.t.sort == 'B' and code != 'bint' and type(T.B2I(x.t)) is Term else x
    return float(x) if code[0] == 'f' else int(x)


def bool_to_py(x):
    _chk(x)
    if type(x) is SV:
        return x if x.t.sort == 'B' else (x != 0)
    return bool(x)


def truth(x):
    if type(x) is SV:
        return x if x.t.sort == 'B' else SV(V.truth(x), None) if type(V.truth(x)) is Term else V.truth(x)
    if type(x) is V.GList:
        return V.mk(x.nonempty(), None)
    return bool(x)


def select(c, a, b):
    if type(c) is SV:
        t = V.truth(c)
        if type(t) is Term:
            k = V.CTX.known(t)
            if k is None:
                if a is UNINIT or b is UNINIT:
                    raise V.ForkInNative(t)
                x, y = _raw(a), _raw(b)
                return _mk2(T.Ite(t, x, y))
            t = k
        c = t
    _chk(c)
    return a if c else b


def _raw(x):
    return V.term(x)


def _mk2(t):
    if type(t) is Term:
        return SV(t, None)
    return V.mk(t, None)


def not_none(x, name):
    if x is None:
        raise TypeError("Argument '%s' must not be None" % name)
    return x


def _dtdesc(a):
    return a.dtype


def _check_dtype(a, desc, nd, what):
    if type(a) is SV or not isinstance(a, (np.ndarray, SymArray, SymRecArray)):
        raise TypeError("Cannot convert %s to numpy.ndarray" % type(a).__name__ if what == 'buf' else
                        "a bytes-like object is required, not '%s'" % type(a).__name__)
    if a.ndim != nd:
        raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (nd, a.ndim))
    dt = np.dtype(a.dtype)
    if desc == 'O':
        if dt.kind != 'O':
            raise ValueError('Buffer dtype mismatch')
        return
    if isinstance(desc, tuple):
        fields, packed = desc
        if not dt.names or len(dt.names) != len(fields):
            raise ValueError('Buffer dtype mismatch, expected a struct')
        off = 0
        for n, (fname, code) in zip(dt.names, fields):
            want = np.dtype(NPDT[code])
            fdt, foff = dt.fields[n][:2]
            if not _same_c(fdt, want) or foff != off:
                raise ValueError('Buffer dtype mismatch in field %s' % n)
            off += want.itemsize
        return
    want = np.dtype(NPDT[desc])
    if not _same_c(dt, want):
        raise ValueError("Buffer dtype mismatch, expected '%s' but got '%s'" % (desc, dt))


def _same_c(a, b):
    # Cython compares kind (float / signed / unsigned) and size
    ka = 'u' if a.kind == 'b' else a.kind
    return ka == b.kind and a.itemsize == b.itemsize and a.byteorder in '=|<'


def buffer(x, desc, nd, notnone):
    if x is None:
        if notnone:
            raise TypeError('Argument must not be None')
        return None
    _chk(x)
    _check_dtype(x, desc, nd, 'buf')
    return x


def memview(x, desc, nd, notnone):
    if x is None:
        if notnone:
            raise TypeError('Argument must not be None')
        return None
    _chk(x)
    _check_dtype(x, desc, nd, 'mv')
    return x


def typetest(x, name):
    if x is None:
        return x
    if name in EXTTYPES:
        if type(x).__name__ != name:
            raise TypeError('Cannot convert %s to %s' % (type(x).__name__, name))
        return x
    if name == 'ndarray':
        if not isinstance(x, (np.ndarray, SymArray, SymRecArray)):
            raise TypeError('Cannot convert %s to numpy.ndarray' % type(x).__name__)
        return x
    t = {'list': (list, V.GList), 'dict': dict, 'tuple': tuple, 'str': (str, V.SymStr), 'bytes': bytes, 'set': set}.get(name)
    if t is not None and not isinstance(x, t):
        raise TypeError('Expected %s, got %s' % (name, type(x).__name__))
    return x


def struct_to_py(v, fields):
    _chk(*v)
    return {f: (float(x) if c[0] == 'f' and type(x) is not SV else x) for (f, c), x in zip(fields, v)}


def struct_from_py(d, fields):
    if not isinstance(d, dict):
        raise TypeError('expected a mapping, got %s' % type(d).__name__)
    out = []
    for f, c in fields:
        if f not in d:
            raise ValueError("No value specified for struct attribute '%s'" % f)
        out.append(from_py(d[f], c))
    return tuple(out)


def _index(arr, ix, bc, wa):
    if arr is None:
        raise CyUB('indexing None')
    _chk(arr)
    shape = arr.shape
    if len(ix) != len(shape):
        raise EngineUnsupported('partial buffer index')
    out = []
    for i, n in zip(ix, shape):
        _chk(i)
        if type(i) is SV:
            t = T.B2I(i.t) if i.t.sort == 'B' else i.t
            k = V.CTX.known_int(t) if type(t) is Term else t
            if k is not None:
                i = k
            else:
                lo = -n if wa else 0
                c = T.in_range(t, lo, n - 1)
                if bc:
                    if c is not True and not V.decide_ok(c):
                        raise IndexError('Out of bounds on buffer access')
                else:
                    oblige(c, 'index out of bounds (boundscheck is off)')
                out.append((t, n, wa))
                continue
        i = int(i)
        j = i + n if (i < 0 and wa) else i
        if not 0 <= j < n:
            if bc:
                raise IndexError('Out of bounds on buffer access')
            raise CyUB('index %d out of bounds for size %d (boundscheck is off)' % (i, n))
        out.append(j)
    return out


def _cands(arr_idx, ix):
    per = []
    for p in ix:
        if type(p) is tuple:
            t, n, wa = p
            lst = []
            for v in range(n):
                c = False
                if (t.lo is None or t.lo <= v) and (t.hi is None or t.hi >= v):
                    c = T.Eq(t, v)
                if wa and (t.lo is None or t.lo <= v - n):
                    c = T.Or(c, T.Eq(t, v - n))
                if c is not False:
                    lst.append((c, v))
            per.append(lst)
        else:
            per.append([(True, p)])
    out = [(True, ())]
    for lst in per:
        out = [(T.And(c, c2), k + (v,)) for c, k in out for c2, v in lst]
    return [(c, k) for c, k in out if c is not False]


def _norm(x, dt):
    """element as a C value"""
    if type(x) is SV:
        return SV(x.t, None)
    if dt.kind == 'f':
        return float(x)
    return int(x)


def bget(arr, ix, bc, wa):
    ix = _index(arr, ix, bc, wa)
    if any(type(p) is tuple for p in ix):
        cand = _cands(None, ix)
        if not cand:
            raise V.InfeasiblePath()
        if isinstance(arr, SymRecArray) or np.dtype(arr.dtype).names:
            names = arr.dtype.names
            rec = []
            for f in names:
                fa = arr[f]
                rec.append(_sel(fa, cand))
            return tuple(rec)
        return _sel(arr, cand)
    key = tuple(ix)
    v = arr[key if len(key) > 1 else key[0]]
    if type(v) is V.SymRecord or isinstance(v, np.void):
        dt = arr.dtype
        return tuple(_norm(v[f], dt.fields[f][0]) for f in dt.names)
    return _norm(v, np.dtype(arr.dtype))


def _sel(arr, cand):
    r = None
    for c, k in reversed(cand):
        e = arr[k if len(k) > 1 else k[0]]
        e = V.term(e)
        r = e if r is None else T.Ite(c, e, r)
    if type(r) is Term:
        return SV(r, None)
    v = V.mk(r, None)
    return _norm(v, np.dtype(arr.dtype))


def bset(arr, ix, bc, wa, val):
    ix = _index(arr, ix, bc, wa)
    if type(val) is tuple:
        _chk(*val)
        names = arr.dtype.names
        if any(type(p) is tuple for p in ix):
            for c, k in _cands(None, ix):
                for f, x in zip(names, val):
                    fa = arr[f]
                    kk = k if len(k) > 1 else k[0]
                    fa[kk] = _mk2(T.Ite(c, V.term(x), V.term(fa[kk])))
            return
        key = tuple(ix) if len(ix) > 1 else ix[0]
        for f, x in zip(names, val):
            arr[f][key] = x
        return
    _chk(val)
    if any(type(p) is tuple for p in ix):
        for c, k in _cands(None, ix):
            kk = k if len(k) > 1 else k[0]
            arr[kk] = _mk2(T.Ite(c, V.term(val), V.term(arr[kk])))
        return
    arr[tuple(ix) if len(ix) > 1 else ix[0]] = val


def libcall(name, args):
    _chk(*args)
    a = args
    if name in ('fabs', 'abs', 'fabsf', 'labs'):
        return abs(a[0])
    if name in ('fmin', 'fminf'):
        return select(a[0] <= a[1], a[0], a[1])
    if name in ('fmax', 'fmaxf'):
        return select(a[0] >= a[1], a[0], a[1])
    if not any(type(x) is SV for x in a) and hasattr(math, name):
        return getattr(math, name)(*a)
    if name in ('floor', 'floorf'):
        return V.mk(T.ToReal(V.floor_term(a[0].t)), None)
    raise EngineUnsupported('C function %s' % name)


from .cyprelude import FloatArray, DoubleArray, IntArray, LongArray, UIntArray  # noqa: E402

EXPORTS = [iadd, isub, imul, idiv, imod, cidiv, cimod, cfdiv, iand, ior, ixor, ishl, ishr, ipow, f32, cv, from_py, to_py, bool_to_py,
           truth, select, not_none, buffer, memview, typetest, struct_to_py, struct_from_py, bget, bset, libcall]
