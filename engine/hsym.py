"""The harness API under the VM."""
from fractions import Fraction
import itertools
import numpy as np
from . import h as H
from . import solver as S
from . import terms as T
from . import values as V
from .terms import Term
from .values import SV, SymArray
from .vm import add_pc


def _num(x):
    return T.num(x) if not isinstance(x, bool) else x


def _rvar(s, name, lo, hi, dtype=None):
    v = T.Var(name, 'R')
    if dtype is not None:
        S.FPVARS[name] = np.dtype(dtype).name
    for c in ((T.Le(_num(lo), v) if lo is not None else True), (T.Le(v, _num(hi)) if hi is not None else True)):
        if c is not True and not add_pc(s.pc, c):
            raise V.InfeasiblePath()
    return v


def real(vm, s, f, args, kw):
    def g(name, lo=None, hi=None):
        vm.inputs[name] = ('R', None, lo, hi)
        return SV(_rvar(s, name, lo, hi), None)
    return g(*args, **kw)


def reals(vm, s, f, args, kw):
    def g(name, shape, dtype=np.float64, lo=None, hi=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        ts = []
        for ix in itertools.product(*[range(n) for n in shape]):
            n = name + ''.join('_%d' % i for i in ix)
            vm.inputs[n] = ('R', np.dtype(dtype).name, lo, hi)
            ts.append(_rvar(s, n, lo, hi, dtype))
        return SymArray.from_list(ts, shape, np.dtype(dtype))
    return g(*args, **kw)


def integer(vm, s, f, args, kw):
    def g(name, lo, hi):
        vm.inputs[name] = ('I', None, lo, hi)
        return SV(T.Var(name, 'I', lo, hi), None) if lo != hi else lo
    return g(*args, **kw)


def integers(vm, s, f, args, kw):
    def g(name, shape, lo, hi, dtype=np.int64):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        ts = []
        for ix in itertools.product(*[range(n) for n in shape]):
            n = name + ''.join('_%d' % i for i in ix)
            vm.inputs[n] = ('I', None, lo, hi)
            ts.append(T.Var(n, 'I', lo, hi) if lo != hi else lo)
        return SymArray.from_list(ts, shape, np.dtype(dtype))
    return g(*args, **kw)


def boolean(vm, s, f, args, kw):
    vm.inputs[args[0]] = ('B', None, None, None)
    return SV(T.Var(args[0], 'B'), None)


def choose(vm, s, f, args, kw):
    def g(name, options):
        n = len(options)
        vm.inputs[name] = ('I', None, 0, n - 1)
        if n == 1:
            return options[0]
        v = T.Var(name, 'I', 0, n - 1)
        for k in range(n):
            if V.decide(T.Eq(v, k)):
                if not any(t[0] == name for t in s.tag):
                    s.tag = s.tag + ((name, k),)
                return options[k]
        raise V.InfeasiblePath()
    return g(*args, **kw)


def assume(vm, s, f, args, kw):
    c = V.truth(args[0])
    if not add_pc(s.pc, c):
        raise V.InfeasiblePath()
    return None


def check(vm, s, f, args, kw):
    c = V.truth(args[0])
    vm.checks.append((list(s.pc.values()), c, args[1]))


def reach(vm, s, f, args, kw):
    vm.reached.setdefault(args[0], []).append(list(s.pc.values()))


def record(vm, s, f, args, kw):
    vm.records.append((list(s.pc.values()), args[0], args[1] if not isinstance(args[1], SymArray) else args[1].copy()))


def _t(x):
    return V.truth(x)


def _b(t):
    return SV(t, None) if type(t) is Term else bool(t)


def land(vm, s, f, args, kw):
    return _b(T.And(*[_t(a) for a in args]))


def lor(vm, s, f, args, kw):
    return _b(T.Or(*[_t(a) for a in args]))


def lnot(vm, s, f, args, kw):
    return _b(T.Not(_t(args[0])))


def implies(vm, s, f, args, kw):
    return _b(T.Implies(_t(args[0]), _t(args[1])))


def iff(vm, s, f, args, kw):
    return _b(T.Iff(_t(args[0]), _t(args[1])))


def ite(vm, s, f, args, kw):
    c = _t(args[0])
    if type(c) is not Term:
        return args[1] if c else args[2]
    a, b = V.term(args[1]), V.term(args[2])
    return _wrap(T.Ite(c, a, b))


def _wrap(t):
    return SV(t, None) if type(t) is Term else V.mk(t, None)


def total(vm, s, f, args, kw):
    xs = args[0]
    if isinstance(xs, SymArray):
        xs = [xs.flat_get(i) for i in range(xs.size)] if hasattr(xs, 'flat_get') else list(xs.ravel())
    r = 0
    for x in xs:
        r = T.Add(r, T.B2I(V.term(x)) if T.sort_of(V.term(x)) == 'B' else V.term(x))
    return _wrap(r)


def count(vm, s, f, args, kw):
    r = 0
    for x in args[0]:
        t = _t(x)
        r = T.Add(r, T.B2I(t) if type(t) is Term else int(t))
    return _wrap(r)


def same(vm, s, f, args, kw):
    a, b = V.term(args[0]), V.term(args[1])
    r = T.Eq(T.ToReal(a), T.ToReal(b))
    if V._NANVAR[0] is not None:
        na, nb = V.nan_cond(a), V.nan_cond(b)
        r = T.Or(T.And(na, nb), T.And(T.Not(na), T.Not(nb), r))
    return _b(r)


def leq(vm, s, f, args, kw):
    return _b(T.Le(T.ToReal(V.term(args[0])), T.ToReal(V.term(args[1]))))


def near(vm, s, f, args, kw):
    a, b, m = [T.ToReal(V.term(x)) for x in args]
    t = T.Mul(Fraction(1, 10 ** 9), m)
    d = T.Sub(a, b)
    return _b(T.And(T.Le(d, t), T.Le(T.Neg(t), d)))


def symbolic(vm, s, f, args, kw):
    return True


def text(vm, s, f, args, kw):
    return V.SymText([V.term(c) for c in args[0]])


def isnan(vm, s, f, args, kw):
    return _b(V.nan_cond(V.term(args[0])))


def nan(vm, s, f, args, kw):
    return SV(V.nan_var(), None)


def setcells(vm, s, f, args, kw):
    a, cells, values = args
    for c, v in zip(cells, values):
        a[c] = v


def install(vm):
    vm.inputs = {}
    vm.checks = []
    vm.reached = {}
    vm.records = []
    g = globals()
    for fn in H.API:
        vm.intercepts[fn] = g[fn.__name__]
