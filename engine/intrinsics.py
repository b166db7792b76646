"""Builtins, numpy and library functions as seen by the VM."""
import builtins
import copy
import functools
import itertools
import logging
import math
import operator
import os
import shutil
import subprocess
import tempfile
import types
import warnings
from collections import deque, defaultdict, OrderedDict
from fractions import Fraction
import numpy as np
from . import terms as T
from . import values as V
from .terms import Term
from .values import (SV, SymArray, SymRecArray, SymRecord, GList, MaskedSel, SymStr, SymText, Buffer,
                     EngineUnsupported, ForkInNative, NeedConcrete, NeedFloor, NaNValue)
from . import vm as VMM
from .vm import (PUSHED, VMFunction, VMMethod, NMethod, VMIter, VMGenerator, Cell, Super, CallLater, NULL)
from . import prelude as P


class PopFork(BaseException):
    """the last element of a work list is present under a condition"""
    def __init__(self, obj, cond):
        self.obj = obj
        self.cond = cond


class NeedUpgrade(BaseException):
    """a list object has to become a guarded list"""
    def __init__(self, obj):
        self.obj = obj


def prelude(name):
    return getattr(P, name)


F64 = np.dtype(np.float64)
I64 = np.dtype(np.int64)
BOOL = np.dtype(bool)
SYMTYPES = (SV, GList, MaskedSel, SymStr, SymText, VMFunction, VMMethod, VMIter, VMGenerator, SymRecArray, SymRecord, Term)


def is_sym(x, depth=0):
    tx = type(x)
    if tx in SYMTYPES:
        return True
    if tx is SymArray:
        return True
    if tx in (list, tuple, set, deque):
        return any(is_sym(y, depth + 1) for y in x)
    if tx in (dict, defaultdict, OrderedDict):
        return any(is_sym(y, depth + 1) for y in x.values())
    if tx is NMethod:
        return True
    if tx is types.MethodType:
        return is_sym(x.__self__)
    return False


def to_native(x, changed):
    """concrete native counterpart, or raise"""
    tx = type(x)
    if tx is SymArray:
        if not x.is_concrete():
            raise EngineUnsupported('symbolic array passed to a native function')
        a = x.to_np()
        changed.append((x, a, a.copy()))
        return a
    if tx is SymRecArray:
        a = np.zeros(x.shape, dtype=x.dtype)
        for n, fa in x.fields.items():
            if not fa.is_concrete():
                raise EngineUnsupported('symbolic records passed to a native function')
            a[n] = fa.to_np()
        return a
    if tx is GList:
        l = x.normalise()
        if type(l) is GList:
            raise EngineUnsupported('guarded list passed to a native function')
        return to_native(l, changed)
    if tx is SV:
        k = V.CTX.known_int(x.t)
        if k is not None:
            return k
        raise EngineUnsupported('symbolic value passed to a native function')
    if tx is VMIter:
        return [to_native(y, changed) for y in iter_list(x)]
    if tx in SYMTYPES:
        raise EngineUnsupported('%s passed to a native function' % tx.__name__)
    if tx in (list, tuple):
        return tx(to_native(y, changed) for y in x)
    if tx is dict:
        return {k: to_native(y, changed) for k, y in x.items()}
    return x


def from_native(r, depth=0):
    tr = type(r)
    if tr is np.ndarray or (isinstance(r, np.ndarray)):
        return SymArray.from_np(np.asarray(r))
    if tr in (tuple, list) and depth < 4:
        return tr(from_native(x, depth + 1) for x in r)
    return r


DENY = {open, os.remove, os.unlink, os.rmdir, os.rename, os.replace, os.mkdir, os.makedirs, os.removedirs, os.truncate,
        os.symlink, os.link, os.chmod, os.chown, os.kill, os.system, os.popen, os.chdir, os._exit, shutil.rmtree, shutil.move,
        shutil.copy, shutil.copyfile, shutil.copytree, subprocess.run, subprocess.call, subprocess.check_call,
        subprocess.check_output, subprocess.Popen, exec, compile, input, tempfile.mkdtemp, tempfile.mkstemp,
        tempfile.TemporaryDirectory, tempfile.NamedTemporaryFile}


def native_call(vm, s, f, fn, args, kwargs):
    try:
        if fn in DENY:
            raise EngineUnsupported('call of %s' % getattr(fn, '__name__', fn))
    except TypeError:
        pass
    if isinstance(fn, functools.partial):
        kw = dict(fn.keywords)
        kw.update(kwargs)
        vm.call(s, f, fn.func, list(fn.args) + args, kw)
        return PUSHED
    tp = type(fn)
    if tp is NMethod:
        return method_call(vm, s, f, fn, args, kwargs)
    mself = getattr(fn, '__self__', None)
    if isinstance(mself, logging.Logger) or isinstance(mself, logging.LoggerAdapter):
        return False if getattr(fn, '__name__', '') == 'isEnabledFor' else None
    if mself is not None and not isinstance(mself, types.ModuleType):
        tm = type(mself)
        if tm is str:
            return str_method(vm, s, f, fn, args, kwargs)
        if tm in (SV, SymArray, SymRecArray, MaskedSel, GList, SymStr, SymText, SymRecord):
            return fn(*args, **kwargs)
        if tm in (list, dict, deque, set, defaultdict):
            return method_call(vm, s, f, NMethod(mself, fn.__name__), args, kwargs)
        if tm is np.ndarray:
            a = SymArray.from_np(mself)
            return getattr(a, fn.__name__)(*args, **kwargs)
    if tp is VMFunction:
        raise EngineUnsupported('function')
    if tp is type(str.format) and args and type(args[0]) is str:      # unbound method descriptors
        return native_call(vm, s, f, getattr(args[0], fn.__name__), args[1:], kwargs)
    if isinstance(fn, type) and issubclass(fn, np.generic):
        return np_scalar_type(fn, args)
    if isinstance(fn, type) and issubclass(fn, BaseException):
        return fn(*[a if not is_sym(a) else to_str(a) for a in args], **kwargs)
    gens = [k for k, a in enumerate(args) if type(a) is VMGenerator]
    if gens:
        vm.enter(s, P._call1 if not kwargs else P._callkw, [fn, args[gens[0]], gens[0], tuple(args)] + ([kwargs] if kwargs else []), {})
        return PUSHED
    if any(type(a) is SymText for a in args):
        raise EngineUnsupported('symbolic text passed to %s' % getattr(fn, '__qualname__', fn))
    sym = any(is_sym(a) for a in args) or any(is_sym(a) for a in kwargs.values())
    if not sym:
        mod = getattr(fn, '__module__', '') or ''
        return from_native(fn(*args, **kwargs))
    if isinstance(fn, np.ufunc):
        return ufunc_call(vm, fn, args, kwargs)
    changed = []
    try:
        na = [to_native(a, changed) for a in args]
        nk = {k: to_native(a, changed) for k, a in kwargs.items()}
    except EngineUnsupported as e:
        raise EngineUnsupported('%s: %s' % (getattr(fn, '__qualname__', fn), e))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = fn(*na, **nk)
    for sa, a, before in changed:
        if not np.array_equal(a, before, equal_nan=a.dtype.kind == 'f'):
            sa[...] = SymArray.from_np(a)
    return from_native(r)


def np_scalar_type(tp, args):
    if not args:
        return tp()
    x = args[0]
    dt = np.dtype(tp)
    if V.is_scalar(x):
        if type(x) is SV:
            return V.cast_scalar(x, dt)
        return tp(x)
    if isinstance(x, (SymArray, list, tuple, GList)):
        a = V.as_sym(x).astype(dt)
        return a if a.ndim else a[()]
    return tp(*args)


# ------------------------------------------------------------------ methods
def method_call(vm, s, f, m, args, kwargs):
    o, name = m.self, m.name
    to = type(o)
    if to is GList:
        if name in ('pop', 'popleft'):
            return glist_pop(vm, o, 0 if name == 'popleft' else (vm.conc(args[0]) if args else -1))
        if name in ('append', 'appendleft', 'copy', 'clear'):
            return getattr(o, name)(*args)
        if name in ('extend',):
            a = args[0]
            if type(a) is VMGenerator:
                vm.enter(s, P._call1, [m, a, 0, tuple(args)], {})
                return PUSHED
            if type(a) is VMIter:
                a = iter_list(a)
            o.extend(a)
            return None
        if name == 'insert' and args[0] == 0:
            o.items.insert(0, (True, args[1]))
            return None
        if name == 'reverse':
            o.items.reverse()
            return None
        if name in ('remove', 'index', 'count', 'sort'):
            raise NeedResolve(o)
        raise EngineUnsupported('guarded list .%s' % name)
    if to in (SymArray, SymRecArray, MaskedSel):
        if name == 'sort' and not kwargs and not args and o.ndim == 1:
            o[...] = sort_net(o)
            return None
        return getattr(o, name)(*args, **kwargs)
    if to is list or to is deque:
        if name in ('extend', '__iadd__', 'extendleft'):
            a = args[0]
            if type(a) is GList and name == 'extend':
                raise NeedUpgrade(o)
            if type(a) is VMGenerator:
                vm.enter(s, P._call1, [m, a, 0, tuple(args)], {})
                return PUSHED
            if type(a) is VMIter:
                if type(a.seq) is GList:
                    raise NeedUpgrade(o) if name == 'extend' else EngineUnsupported('extend')
                a = iter_list(a)
            if isinstance(a, (SymArray, SymRecord)):
                a = list(a)
            getattr(o, name)(a)
            return None
        if name == 'sort':
            key = kwargs.get('key')
            if key is None and not any(is_sym(x) for x in o):
                o.sort(**kwargs)
                return None
            vm.enter(s, _sort_inplace, [o, key, kwargs.get('reverse', False)], {})
            return PUSHED
        if name in ('remove', 'index') and (is_sym(args[0]) or any(is_sym(x) for x in o)) and len(args) == 1:
            vm.enter(s, P._remove if name == 'remove' else P._index, [o, args[0]], {})
            return PUSHED
        if name == 'count' and (is_sym(args[0]) or any(is_sym(x) for x in o)):
            n = 0
            for x in o:
                n = T.Add(n, T.B2I(V.truth(VMM.sym_eq(x, args[0]))))
            return V.mk(n, None)
        if name in ('pop', 'insert') and args:
            args = [vm.conc(args[0])] + list(args[1:])
        return getattr(o, name)(*args, **kwargs)
    if to in (dict, defaultdict, OrderedDict):
        if name in ('get', 'setdefault', 'pop', '__getitem__', '__contains__') and args:
            args = [vm.conc(args[0])] + list(args[1:])
            if isinstance(args[0], tuple) and any(type(x) is SV for x in args[0]):
                args[0] = tuple(vm.conc(x) for x in args[0])
        if name == 'update' and args and type(args[0]) in (VMGenerator,):
            vm.enter(s, P._call1, [m, args[0], 0, tuple(args)], {})
            return PUSHED
        r = getattr(o, name)(*args, **kwargs)
        if name in ('items', 'keys', 'values'):
            return list(r)
        return r
    if to is set:
        args = [vm.conc(a) if type(a) is SV else a for a in args]
        return getattr(o, name)(*args, **kwargs)
    return getattr(o, name)(*args, **kwargs)


def _sort_inplace(o, key, reverse):
    o[:] = sorted(o, key=key, reverse=reverse)


class NeedResolve(BaseException):
    def __init__(self, obj):
        self.obj = obj


def ite_value(vm, c, a, b):
    """merged value of two alternatives"""
    if type(c) is not Term:
        return a if c else b
    if a is b:
        return a
    M = VMM.Merger(vm, c, {}, {}, {})
    return M.v(a, b)


def glist_pop(vm, o, ix):
    n = len(o.items)
    if ix not in (-1, 0):
        raise EngineUnsupported('pop in the middle of a guarded list')
    order = list(range(n - 1, -1, -1)) if ix == -1 else list(range(n))
    if ix == -1 and vm.splitcells:
        while o.items:
            g, v = o.items[-1]
            if type(g) is Term:
                kg = V.CTX.known(g)
                if kg is None:
                    raise PopFork(o, g)
                g = kg
            del o.items[-1]
            if g:
                return v
        raise IndexError('pop from an empty list')
    ne = o.nonempty()
    if not V.decide(ne):
        raise IndexError('pop from an empty list')
    # entries whose guard is known false are dropped; a known true one ends the search
    cand = []
    for k in order:
        g, v = o.items[k]
        if type(g) is Term:
            kg = V.CTX.known(g)
            if kg is False:
                continue
            if kg is True:
                g = True
        elif not g:
            continue
        cand.append((k, g, v))
        if g is True:
            break
    if not cand:
        raise IndexError('pop from an empty list')
    try:
        val = cand[-1][2]
        for k, g, v in reversed(cand[:-1]):
            val = ite_value(vm, g, v, val)
    except VMM.Unmergeable:
        # decide which one
        for k, g, v in cand[:-1]:
            if V.decide(g):
                keep = [(j, it) for j, it in enumerate(o.items) if (j < k if ix == -1 else j > k)]
                o.items[:] = [it for j, it in keep]
                return v
        k, g, v = cand[-1]
        o.items[:] = o.items[:k] if ix == -1 else o.items[k + 1:]
        return v
    taken = False
    new = {}
    for k, g, v in cand:
        new[k] = T.And(g, taken)
        taken = T.Or(taken, g)
    seen = set(new)
    out = []
    last = cand[-1][0]
    for j, (g, v) in enumerate(o.items):
        if j in seen:
            if new[j] is False:
                continue
            out.append((new[j], v))
        else:
            beyond = j < last if ix == -1 else j > last
            if beyond:
                out.append((g, v))
    o.items[:] = out
    return val


def str_method(vm, s, f, fn, args, kwargs):
    o, name = fn.__self__, fn.__name__
    if name == 'format':
        if not any(is_sym(a) for a in args) and not any(is_sym(a) for a in kwargs.values()):
            return fn(*args, **kwargs)
        import string
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            if lit:
                parts.append(lit)
            if field is None:
                continue
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field.isidentifier():
                v = kwargs[field]
            else:
                return SymStr([o])
            parts.append(fmt(v, spec or ''))
        return V._simpstr(parts)
    if name == 'join':
        a = args[0]
        if type(a) is VMGenerator:
            vm.enter(s, P._call1, [fn, a, 0, tuple(args)], {})
            return PUSHED
        if type(a) is VMIter:
            a = iter_list(a)
        if type(a) is GList:
            a = a.resolve()
        a = list(a)
        if any(type(x) is SymText for x in a):
            out = V.SymText()
            for k, x in enumerate(a):
                out = out + o + x if k else out + x
            return out
        if any(type(x) is SymStr for x in a):
            out = []
            for k, x in enumerate(a):
                if k:
                    out.append(o)
                out.append(x)
            return V._simpstr(out)
        return fn(a)
    if name == 'translate' or any(type(a) is SymText for a in args):
        raise EngineUnsupported('str.%s with symbolic text' % name)
    return fn(*args, **kwargs)


def fmt(v, spec=''):
    tv = type(v)
    if tv is SymStr:
        return v
    if tv is SV:
        if spec:
            # a rounded rendering is not the number any more
            return SymStr([('fmt', spec, v)])
        return SymStr([v])
    if is_sym(v):
        return SymStr([to_str(v)])
    if type(spec) is SymStr:
        raise EngineUnsupported('symbolic format spec')
    return format(v, spec)


def to_str(v):
    tv = type(v)
    if tv is SymStr or tv is str:
        return v
    if tv is SV:
        return SymStr([v])
    if is_sym(v):
        return SymStr(['<symbolic>'])
    return str(v)


def to_repr(v):
    if is_sym(v):
        return to_str(v)
    return repr(v)


def str_percent(a, b):
    if not is_sym(b):
        return a % b
    return SymStr([a, to_str(b) if type(b) is SV else '<symbolic>'])


def iter_list(it):
    """remaining elements of a VMIter (consumes it)"""
    seq = it.seq
    if type(seq) is GList:
        rest = GList(seq.items[it.i:])
        it.i = len(seq.items)
        return rest.resolve()
    out = [seq[k] for k in range(it.i, len(seq))]
    it.i = len(seq)
    return out


def listify(vm, v):
    """list / GList of the elements of a non-generator iterable"""
    tv = type(v)
    if tv is GList or tv is list:
        return v
    it = vm.make_iter(None, None, v)
    if type(it) is VMIter:
        if type(it.seq) is GList:
            g = GList(it.seq.items[it.i:])
            it.i = len(it.seq.items)
            return g
        return iter_list(it)
    return None


# ------------------------------------------------------------------ builtins
def genarg(h):
    """decorator: materialise generator arguments through the prelude first"""
    @functools.wraps(h)
    def w(vm, s, f, args, kwargs):
        for k, a in enumerate(args):
            if type(a) is VMGenerator:
                fn = w.target
                vm.enter(s, P._call1 if not kwargs else P._callkw, [fn, a, k, tuple(args)] + ([kwargs] if kwargs else []), {})
                return PUSHED
            if type(a) is CallLater:
                raise EngineUnsupported('iterable object')
        return h(vm, s, f, args, kwargs)
    return w


def b_len(vm, s, f, args, kwargs):
    x, = args
    if type(x) is GList or type(x) is SymText:
        return x.length()
    if type(x) is MaskedSel:
        return V.mk(V.term(x.size), None)
    tp = type(x)
    if vm.interp_class(tp) and not isinstance(x, type):
        m = getattr(tp, '__len__', None)
        if m is not None and vm.interpretable(m):
            vm.enter(s, m, [x], {})
            return PUSHED
    if tp is SymStr:
        raise EngineUnsupported('len of symbolic string')
    return len(x)


def _minmax(vm, s, f, args, kwargs, ismin):
    key = kwargs.get('key')
    if key is not None:
        xs = args[0] if len(args) == 1 else list(args)
        vm.enter(s, P._minkey if ismin else P._maxkey, [xs, key], {})
        return PUSHED
    if len(args) == 1:
        xs = listify(vm, args[0])
        if type(xs) is GList:
            items = xs.items
            ne = xs.nonempty()
            if not V.decide(ne):
                if 'default' in kwargs:
                    return kwargs['default']
                raise ValueError('%s() arg is an empty sequence' % ('min' if ismin else 'max'))
            best, have = None, False
            for g, v in items:
                if g is False:
                    continue
                if best is None:
                    best, have = v, g
                    continue
                c = V.truth(v < best if ismin else v > best)
                better = T.And(g, T.Or(T.Not(have), c))
                best = _pick(vm, better, v, best)
                have = T.Or(have, g)
            return best
        xs = list(xs)
        if not xs:
            if 'default' in kwargs:
                return kwargs['default']
            raise ValueError('%s() arg is an empty sequence' % ('min' if ismin else 'max'))
    else:
        xs = list(args)
    best = xs[0]
    for v in xs[1:]:
        if isinstance(v, (tuple, list)):
            best = v if ((v < best) if ismin else (v > best)) else best
            continue
        c = (v < best) if ismin else (v > best)
        c = V.truth(c) if type(c) is SV else c
        if isinstance(c, (SymArray,)):
            c = bool(c)
        best = _pick(vm, c, v, best)
    return best


def _pick(vm, c, a, b):
    if type(c) is not Term:
        return a if c else b
    try:
        return VMM.merge_scalar(c, a, b)
    except (VMM.Unmergeable, EngineUnsupported):
        return a if V.decide(c) else b


def b_min(vm, s, f, args, kwargs):
    return _minmax(vm, s, f, args, kwargs, True)


def b_max(vm, s, f, args, kwargs):
    return _minmax(vm, s, f, args, kwargs, False)


def b_sum(vm, s, f, args, kwargs):
    xs = listify(vm, args[0])
    r = args[1] if len(args) > 1 else kwargs.get('start', 0)
    if type(xs) is GList:
        for g, v in xs.items:
            if g is True:
                r = r + v
            else:
                if type(v) is SV or V.is_scalar(v):
                    t = V.term(v)
                    z = Fraction(0) if T.sort_of(t) == 'R' else 0
                    r = r + V.mk(T.Ite(g, t, z), V.dt_of(v))
                else:
                    raise EngineUnsupported('sum of guarded objects')
        return r
    for v in xs:
        r = r + v
    return r


def b_any(vm, s, f, args, kwargs):
    x = args[0]
    if type(x) is VMGenerator:
        vm.enter(s, P._any, [x], {})
        return PUSHED
    xs = listify(vm, x)
    items = xs.items if type(xs) is GList else [(True, v) for v in xs]
    return V.mk(T.Or(*[T.And(g, _tt(vm, v)) for g, v in items]), None)


def _tt(vm, v):
    return vm.truth_term(v)


def b_all(vm, s, f, args, kwargs):
    x = args[0]
    if type(x) is VMGenerator:
        vm.enter(s, P._all, [x], {})
        return PUSHED
    xs = listify(vm, x)
    items = xs.items if type(xs) is GList else [(True, v) for v in xs]
    return V.mk(T.And(*[T.Implies(g, _tt(vm, v)) for g, v in items]), None)


def b_sorted(vm, s, f, args, kwargs):
    xs = args[0]
    key, rev = kwargs.get('key'), kwargs.get('reverse', False)
    if type(xs) is not VMGenerator:
        xs = listify(vm, xs)
        if type(xs) is GList:
            xs = xs.resolve()
        if key is None and not any(is_sym(x) for x in xs):
            return sorted(xs, reverse=rev)
    vm.enter(s, P._sorted, [xs, key, rev], {})
    return PUSHED


def b_enumerate(vm, s, f, args, kwargs):
    start = args[1] if len(args) > 1 else kwargs.get('start', 0)
    xs = args[0]
    if type(xs) is VMGenerator:
        vm.enter(s, P._call1, [enumerate, xs, 0, tuple(args)], {})
        return PUSHED
    xs = listify(vm, xs)
    if type(xs) is GList:
        out, n = [], V.term(start)
        for g, v in xs.items:
            out.append((g, (V.mk(n, None), v)))
            n = T.Add(n, T.B2I(g))
        return VMIter(GList(out))
    return VMIter([(start + k, v) for k, v in enumerate(xs)])


def b_zip(vm, s, f, args, kwargs):
    for k, a in enumerate(args):
        if type(a) is VMGenerator:
            vm.enter(s, P._call1, [zip, a, k, tuple(args)], {})
            return PUSHED
    ls = [listify(vm, a) for a in args]
    gs = [l for l in ls if type(l) is GList]
    if gs:
        g0 = [g for g, _ in gs[0].items]
        if len(gs) == len(ls) and all(len(l.items) == len(g0) and all((a is b) for a, (b, _) in zip(g0, l.items)) for l in gs):
            return VMIter(GList([(g, tuple(l.items[k][1] for l in ls)) for k, g in enumerate(g0)]))
        ls = [l.resolve() if type(l) is GList else l for l in ls]
    return VMIter(list(zip(*ls)))


def b_map(vm, s, f, args, kwargs):
    fn = args[0]
    if len(args) == 2:
        vm.enter(s, P._map1, [fn, args[1]], {})
    elif len(args) == 3:
        vm.enter(s, P._map2, [fn, args[1], args[2]], {})
    else:
        raise EngineUnsupported('map with many iterables')
    return PUSHED


def b_filter(vm, s, f, args, kwargs):
    vm.enter(s, P._filter, list(args), {})
    return PUSHED


def b_reduce(vm, s, f, args, kwargs):
    vm.enter(s, P._reduce if len(args) == 2 else P._reduce3, list(args), {})
    return PUSHED


def b_chain(vm, s, f, args, kwargs):
    vm.enter(s, P._chain, list(args), {})
    return PUSHED


def b_chain_from(vm, s, f, args, kwargs):
    vm.enter(s, P._chain, list(args[0]), {})
    return PUSHED


def b_list(vm, s, f, args, kwargs, kind=list):
    if not args:
        return kind()
    x = args[0]
    if type(x) is VMGenerator:
        vm.enter(s, P._list if kind is list else P._tuple if kind is tuple else P._call1,
                 [x] if kind in (list, tuple) else [kind, x, 0, tuple(args)], {})
        return PUSHED
    if type(x) is SV:
        raise TypeError('object is not iterable')
    if vm.interp_class(type(x)) and not isinstance(x, (type, tuple)):
        it = vm.make_iter(s, f, x)
        if type(it) is CallLater:
            raise EngineUnsupported('list of an interpreted iterable')
    xs = listify(vm, x)
    if type(xs) is GList:
        return GList(list(xs.items), kind)
    if kind is deque and (len(args) > 1 or kwargs):
        raise EngineUnsupported('bounded deque')
    return kind(xs)


def b_tuple(vm, s, f, args, kwargs):
    return b_list(vm, s, f, args, kwargs, tuple)


def b_deque(vm, s, f, args, kwargs):
    return b_list(vm, s, f, args, kwargs, deque)


def b_set(vm, s, f, args, kwargs):
    if not args:
        return set()
    x = args[0]
    if type(x) is VMGenerator:
        vm.enter(s, P._set, [x], {})
        return PUSHED
    xs = listify(vm, x)
    if type(xs) is GList:
        xs = xs.resolve()
    out = set()
    for v in xs:
        if isinstance(v, tuple):
            v = tuple(vm.conc(y) for y in v)
        out.add(vm.conc(v))
    return out


def b_dict(vm, s, f, args, kwargs):
    d = {}
    if args:
        x = args[0]
        if type(x) is VMGenerator:
            vm.enter(s, P._call1, [dict, x, 0, tuple(args)], {})
            return PUSHED
        if isinstance(x, dict):
            d.update(x)
        else:
            xs = listify(vm, x)
            if type(xs) is GList:
                xs = xs.resolve()
            for k, v in xs:
                d[vm.conc(k)] = v
    d.update(kwargs)
    return d


def b_range(vm, s, f, args, kwargs):
    return range(*[vm.conc(a) if type(a) is SV else a for a in args])


def b_int(vm, s, f, args, kwargs):
    if not args:
        return 0
    x = args[0]
    if type(x) is SV:
        return V.to_int(x)
    if type(x) is SymArray:
        if x.size != 1:
            raise TypeError('only length-1 arrays can be converted')
        return V.to_int(x.item())
    if type(x) is SymStr:
        if len(x.parts) == 1 and type(x.parts[0]) is SV and x.parts[0].t.sort == 'I':
            return V.mk(x.parts[0].t, None)
        raise EngineUnsupported('int of a symbolic string')
    return int(*args, **kwargs)


def b_float(vm, s, f, args, kwargs):
    if not args:
        return 0.0
    x = args[0]
    if type(x) is SV:
        return V.to_float(x)
    if type(x) is SymArray:
        if x.size != 1:
            raise TypeError('only length-1 arrays can be converted')
        return V.to_float(x.item())
    if type(x) is SymStr:
        if len(x.parts) == 1 and type(x.parts[0]) is SV:
            return V.to_float(x.parts[0])
        raise EngineUnsupported('float of a symbolic string')
    return float(x)


def b_bool(vm, s, f, args, kwargs):
    if not args:
        return False
    t = vm.truth_term(args[0])
    return V.mk(t, None) if type(t) is Term else bool(t)


def b_str(vm, s, f, args, kwargs):
    if not args:
        return ''
    return to_str(args[0])


def sym_type(x):
    tx = type(x)
    if tx is SV:
        if x.dt is not None:
            return x.dt.type
        return {'B': bool, 'I': int, 'R': float}[x.t.sort]
    if tx is GList:
        return x.kind
    if tx in (SymArray, SymRecArray, MaskedSel):
        return np.ndarray
    if tx is SymRecord:
        return np.void
    if tx is VMFunction:
        return types.FunctionType
    if tx is VMMethod:
        return types.MethodType
    if tx is VMGenerator:
        return types.GeneratorType
    if tx is SymStr or tx is SymText:
        return str
    if tx is NMethod:
        return types.BuiltinMethodType
    return tx


def b_isinstance(vm, s, f, args, kwargs):
    x, c = args
    if type(x) in SYMTYPES or type(x) is SymArray:
        return issubclass(sym_type(x), c)
    return isinstance(x, c)


def b_type(vm, s, f, args, kwargs):
    if len(args) != 1:
        raise EngineUnsupported('type()')
    return sym_type(args[0])


def b_callable(vm, s, f, args, kwargs):
    x = args[0]
    if type(x) in (SV, SymArray, GList, SymStr, SymText):
        return False
    return callable(x)


def b_getattr(vm, s, f, args, kwargs):
    try:
        v = vm.getattr(s, args[0], args[1])
    except AttributeError:
        if len(args) > 2:
            return args[2]
        raise
    if type(v) is CallLater:
        vm.enter(s, v.fn, v.args, {})
        return PUSHED
    return v


def b_hasattr(vm, s, f, args, kwargs):
    try:
        vm.getattr(s, args[0], args[1])
        return True
    except AttributeError:
        return False


def b_setattr(vm, s, f, args, kwargs):
    o, n, v = args
    if type(o) is types.ModuleType:
        vm.setglobal(s, o.__dict__, n, v)
    elif isinstance(o, type):
        raise EngineUnsupported('setattr on a class')
    else:
        setattr(o, n, v)
    return None


def b_next(vm, s, f, args, kwargs):
    it = args[0]
    if type(it) is VMIter:
        seq = it.seq
        if type(seq) is GList:
            while it.i < len(seq.items):
                g, v = seq.items[it.i]
                if V.decide(g):
                    it.i += 1
                    return v
                it.i += 1
        elif it.i < len(seq):
            it.i += 1
            return seq[it.i - 1]
        if len(args) > 1:
            return args[1]
        raise StopIteration()
    if type(it) is VMGenerator:
        if it.done:
            if len(args) > 1:
                return args[1]
            raise StopIteration()
        if len(args) > 1:
            f.stack.append(args[1])
            vm.resume(s, it, 'nextdef', None)
        else:
            vm.resume(s, it, 'next', None)
        return PUSHED
    return next(*args)


def b_iter(vm, s, f, args, kwargs):
    if len(args) == 2:
        vm.enter(s, P._iter2, list(args), {})
        return PUSHED
    it = vm.make_iter(s, f, args[0])
    if type(it) is CallLater:
        vm.enter(s, it.fn, it.args, {})
        return PUSHED
    return it


def b_reversed(vm, s, f, args, kwargs):
    x = args[0]
    if type(x) is GList:
        return VMIter(GList(x.items[::-1]))
    if isinstance(x, (list, tuple, range)):
        return VMIter(list(x)[::-1])
    if isinstance(x, SymArray):
        return VMIter([x[k] for k in range(len(x) - 1, -1, -1)])
    return VMIter(list(reversed(x)))


def b_none(vm, s, f, args, kwargs):
    return None


def b_round(vm, s, f, args, kwargs):
    if type(args[0]) is SV:
        t = args[0].t
        digits = args[1] if len(args) > 1 else kwargs.get('ndigits')
        if t.sort != 'R' and (digits is None or digits >= 0):
            return V.mk(T.B2I(t), None)
        r = V.round_term(t, digits or 0)
        if digits is None:
            return V.mk(r.args[0] if type(r) is T.Term and r.op == 'toreal' else int(r), None)
        return V.mk(r, V.dt_of(args[0]))
    return round(*args)


def b_abs(vm, s, f, args, kwargs):
    return abs(args[0])


def b_eval(vm, s, f, args, kwargs):
    src = args[0]
    if type(src) in (SymStr, SymText):
        raise EngineUnsupported('eval of a symbolic string')
    g = args[1] if len(args) > 1 else f.glob
    l = args[2] if len(args) > 2 else ({n: v for n, v in zip(f.ci.names, f.loc) if v is not VMM.UNBOUND and not is_sym(v)}
                                       if len(args) < 2 else None)
    return eval(src, g, l)


def b_copy(vm, s, f, args, kwargs):
    x = args[0]
    tx = type(x)
    if tx in (GList, SymArray, list, dict, set, deque):
        return x.copy()
    if tx is SymRecArray:
        return x.copy()
    if tx is SV or tx is tuple or not is_sym(x) and not vm.interp_class(tx):
        return copy.copy(x) if tx is not SV else x
    raise EngineUnsupported('copy.copy')


def b_deepcopy(vm, s, f, args, kwargs):
    return vm.cl(args[0], {})


def b_namedtuple(vm, s, f, args, kwargs):
    return None


def b_identity(vm, s, f, args, kwargs):
    return args[0]


def b_divmod(vm, s, f, args, kwargs):
    return (args[0] // args[1], args[0] % args[1])


def b_pow(vm, s, f, args, kwargs):
    return args[0] ** args[1]


def b_hash(vm, s, f, args, kwargs):
    return hash(vm.conc(args[0]))


def b_globals(vm, s, f, args, kwargs):
    raise EngineUnsupported('globals()')


def m_floor(vm, s, f, args, kwargs):
    x = args[0]
    return V.mk(V.floor_term(V.term(x)), None) if type(x) is SV else math.floor(x)


def m_ceil(vm, s, f, args, kwargs):
    x = args[0]
    return V.mk(T.Neg(V.floor_term(T.Neg(T.ToReal(V.term(x))))), None) if type(x) is SV else math.ceil(x)


def m_trunc(vm, s, f, args, kwargs):
    x = args[0]
    return V.to_int(x) if type(x) is SV else math.trunc(x)


def m_isnan(vm, s, f, args, kwargs):
    x = args[0]
    if type(x) is SV:
        return V.mk(nan_cond(x.t), None)
    return math.isnan(x)


def m_isinf(vm, s, f, args, kwargs):
    x = args[0]
    if type(x) is SV:
        return V.mk(T.Or(T.Eq(T.ToReal(x.t), T.INF), T.Eq(T.ToReal(x.t), T.NINF)), None)
    return math.isinf(x)


def m_isfinite(vm, s, f, args, kwargs):
    x = args[0]
    if type(x) is SV:
        t = T.ToReal(x.t)
        return V.mk(T.Not(T.Or(T.Eq(t, T.INF), T.Eq(t, T.NINF), nan_cond(x.t))), None)
    return math.isfinite(x)


def m_fabs(vm, s, f, args, kwargs):
    return V.to_float(abs(args[0])) if type(args[0]) is SV else math.fabs(args[0])


def m_sqrt(vm, s, f, args, kwargs):
    x = args[0]
    if type(x) is SV:
        raise EngineUnsupported('square root of a symbolic value')
    return math.sqrt(x)


# ------------------------------------------------------------------ NaN cells
NAN = 'NaN'


def nan_cond(t):
    """condition under which a term is the distinguished NaN"""
    return V.nan_cond(t)


# ------------------------------------------------------------------ numpy
def npf(h):
    """wrap a numpy implementation: generator args, native fast path"""
    def w(vm, s, f, args, kwargs):
        for k, a in enumerate(args):
            if type(a) is VMGenerator:
                vm.enter(s, P._call1 if not kwargs else P._callkw, [w.target, a, k, tuple(args)] + ([kwargs] if kwargs else []), {})
                return PUSHED
            if type(a) is VMIter:
                args[k] = iter_list(a)
        if not any(is_sym(a) for a in args) and not any(is_sym(a) for a in kwargs.values()):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return from_native(w.target(*args, **kwargs))
        return h(*args, **kwargs)
    return w


def n_zeros(shape, dtype=float, order='C', **k):
    return _full(shape, 0, dtype)


def _full(shape, v, dtype):
    dt = np.dtype(dtype)
    shape = V._shape(shape)
    if dt.names:
        return SymRecArray({n: SymArray.full(shape, v, dt[n]) for n in dt.names}, dt)
    return SymArray.full(shape, v, dt)


def n_ones(shape, dtype=float, order='C', **k):
    return _full(shape, 1, dtype)


def n_full(shape, fill_value, dtype=None, **k):
    if dtype is None:
        dtype = V.as_sym(fill_value).dtype
    a = _full(shape, 0, dtype)
    a[...] = fill_value
    return a


def havoc(shape, dt):
    """uninitialised array: every element an unconstrained symbolic value"""
    n = int(np.prod(shape)) if shape else 1
    out = []
    for k in range(n):
        if dt.kind == 'f':
            out.append(T.fresh('uninit', 'R'))
        elif dt.kind in 'iu':
            ii = np.iinfo(dt)
            out.append(T.fresh('uninit', 'I', int(ii.min), int(ii.max)))
        elif dt.kind == 'b':
            out.append(T.fresh('uninit', 'B'))
        else:
            raise EngineUnsupported('empty array of %s' % dt)
    return SymArray.from_list(out, shape, dt)


def n_empty(shape, dtype=float, order='C', **k):
    dt = np.dtype(dtype)
    shape = V._shape(shape)
    if dt.names:
        return SymRecArray({n: havoc(shape, dt[n]) for n in dt.names}, dt)
    return havoc(shape, dt)


def n_empty_like(a, dtype=None, **k):
    a = V.as_sym(a)
    return havoc(a.shape, np.dtype(dtype) if dtype is not None else a.dtype)


def n_zeros_like(a, dtype=None, **k):
    a = V.as_sym(a)
    return SymArray.full(a.shape, 0, np.dtype(dtype) if dtype is not None else a.dtype)


def n_ones_like(a, dtype=None, **k):
    a = V.as_sym(a)
    return SymArray.full(a.shape, 1, np.dtype(dtype) if dtype is not None else a.dtype)


def n_full_like(a, v, dtype=None, **k):
    a = V.as_sym(a)
    r = SymArray.full(a.shape, 0, np.dtype(dtype) if dtype is not None else a.dtype)
    r[...] = v
    return r


def n_array(a, dtype=None, copy=True, **k):
    if isinstance(a, SymRecArray):
        return a.copy() if copy else a
    if isinstance(a, SymRecord):
        raise EngineUnsupported('array of a record')
    if isinstance(a, MaskedSel):
        return a
    if dtype is not None and np.dtype(dtype).names:
        dt = np.dtype(dtype)
        rows = [list(r) if not isinstance(r, SymRecord) else list(r) for r in a]
        return SymRecArray({n: V.as_sym([r[i] for r in rows], dt[n]) for i, n in enumerate(dt.names)}, dt)
    if isinstance(a, GList):
        a = a.resolve()
    r = V.as_sym(a, dtype)
    if isinstance(a, SymArray) and copy and r is a:
        r = a.copy()
    return r


def n_asarray(a, dtype=None, **k):
    return n_array(a, dtype, copy=False)


def n_max(a, axis=None, **k):
    return _red(a, 'max', axis, k)


def n_min(a, axis=None, **k):
    return _red(a, 'min', axis, k)


def _red(a, name, axis, k):
    if isinstance(a, MaskedSel):
        return getattr(a, name)()
    if k.get('initial') is not None or k.get('where') is not None:
        raise EngineUnsupported('reduction options')
    a = V.as_sym(a)
    return getattr(a, name)(axis=axis)


def n_sum(a, axis=None, dtype=None, **k):
    if isinstance(a, MaskedSel):
        return a.sum()
    return V.as_sym(a).sum(axis=axis, dtype=dtype)


def n_mean(a, axis=None, **k):
    return V.as_sym(a).mean(axis=axis)


def n_any(a, axis=None, **k):
    if isinstance(a, MaskedSel):
        return a.any()
    return V.reduce_bool(V.as_sym(a), axis, True)


def n_all(a, axis=None, **k):
    if isinstance(a, MaskedSel):
        return a.all()
    return V.reduce_bool(V.as_sym(a), axis, False)


def n_count_nonzero(a, axis=None, **k):
    a = V.as_sym(a)
    b = V.map_unary(a, lambda x: V.mk(V.truth(x), BOOL), BOOL)
    return V.mk(V.term(b.sum(axis=axis)), None)


def n_cumsum(a, axis=None, dtype=None, **k):
    return V.cumsum(a, axis, dtype)


def n_where(c, a=None, b=None):
    if a is None:
        return n_nonzero(c)
    c, x, y = V.as_sym(c), V.as_sym(a), V.as_sym(b)
    sa = a if V.is_scalar(a) and type(a) is not SV else V._arr_sample(x if not V.is_scalar(a) else a)
    sb = b if V.is_scalar(b) and type(b) is not SV else V._arr_sample(y if not V.is_scalar(b) else b)
    dt = np.result_type(sa, sb)
    C, X, Y = V.broadcast([c, x, y])
    out = []
    for cc, xx, yy in zip(C.raw(), X.raw(), Y.raw()):
        t = V.truth(V.mkp(cc, C.dtype))
        xv = V.elem_term(V.conv_store_raw(xx, dt, X.dtype))
        yv = V.elem_term(V.conv_store_raw(yy, dt, Y.dtype))
        out.append(V.unnum(T.Ite(t, xv, yv), dt))
    return SymArray.from_list(out, C.shape, dt)


def n_nonzero(a):
    a = V.as_sym(a)
    g = [V.truth(V.mkp(x, a.dtype)) for x in a.raw()]
    if all(type(x) is not Term for x in g):
        m = np.array([bool(x) for x in g]).reshape(a.shape)
        return tuple(SymArray.from_np(x) for x in np.nonzero(m))
    raise EngineUnsupported('positions of a symbolic mask')


def _ew1(fn, dtype=None):
    def h(a, *rest, out=None, where=True, **k):
        if where is not True:
            raise EngineUnsupported('ufunc where')
        if V.is_scalar(a):
            r = fn(a)
            if out is not None:
                raise EngineUnsupported('ufunc out')
            return r
        if isinstance(a, MaskedSel):
            raise EngineUnsupported('ufunc on masked selection')
        r = V.map_unary(V.as_sym(a), fn, dtype)
        if rest:
            out = rest[0]
        if out is not None:
            out[...] = r
            return out
        return r
    return h


def _ew2(op):
    def h(a, b, *rest, out=None, where=True, casting='same_kind', dtype=None, **k):
        if where is not True or dtype is not None:
            raise EngineUnsupported('ufunc options')
        if V.is_scalar(a) and V.is_scalar(b):
            r = op(a if not isinstance(a, (int, float)) or isinstance(a, np.generic) else a, b)
        else:
            r = V.array_op(op, a, b)
        if rest:
            out = rest[0]
        if isinstance(out, tuple):
            out = out[0]
        if out is not None:
            if not np.can_cast(r.dtype, out.dtype, 'same_kind'):
                raise TypeError('Cannot cast ufunc output')
            out[...] = r
            return out
        return r
    return h


def _mm(ismin):
    def pick(x, y):
        tx, ty = V.term(x), V.term(y)
        return (T.Min if ismin else T.Max)(tx, ty)

    def h(a, b, *rest, out=None, **k):
        if V.is_scalar(a) and V.is_scalar(b):
            dt = V.res_dt(operator.add, a, b)
            if dt is None:
                dt = F64 if 'R' in (T.sort_of(V.term(a)), T.sort_of(V.term(b))) else I64
            return V.mk(V.cast_term(pick(a, b), dt), dt)
        dt = V.arr_res_dt(operator.add, V.as_sym(a) if not V.is_scalar(a) else a, V.as_sym(b) if not V.is_scalar(b) else b)
        A, B = V.broadcast([V.as_sym(a), V.as_sym(b)])
        r = SymArray.from_list([V.unnum(V.cast_term((T.Min if ismin else T.Max)(x, y), dt), dt) for x, y in zip(A.terms(), B.terms())], A.shape, dt)
        if rest:
            out = rest[0]
        if out is not None:
            out[...] = r
            return out
        return r
    return h


def n_isnan(a, **k):
    if V.is_scalar(a):
        return V.mk(nan_cond(V.term(a)), BOOL) if type(a) is SV else np.isnan(a)
    a = V.as_sym(a)
    if a.dtype.kind not in 'fiub':
        raise TypeError("ufunc 'isnan' not supported for the input types")
    return SymArray.from_list([nan_cond(V.elem_term(x)) if type(x) is Term else bool(x != x) for x in a.raw()], a.shape, BOOL)


def n_isinf(a, **k):
    def g(x):
        t = V.term(x)
        return V.mk(T.Or(T.Eq(T.ToReal(t), T.INF), T.Eq(T.ToReal(t), T.NINF)), BOOL)
    return g(a) if V.is_scalar(a) else V.map_unary(V.as_sym(a), g, BOOL)


def n_isfinite(a, **k):
    def g(x):
        t = V.term(x)
        return V.mk(T.Not(T.Or(T.Eq(T.ToReal(t), T.INF), T.Eq(T.ToReal(t), T.NINF), nan_cond(t))), BOOL)
    return g(a) if V.is_scalar(a) else V.map_unary(V.as_sym(a), g, BOOL)


def n_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def tolerance(t):
        t = T.ToReal(V.term(t))
        if T.may_inf(t) or nan_cond(t) is not False:
            raise EngineUnsupported('isclose with a tolerance that is not finite')
        return t
    rt, at = tolerance(rtol), tolerance(atol)

    def g(x, y):
        tx, ty = V.term(x), V.term(y)
        nx, ny = nan_cond(tx), nan_cond(ty)
        tx, ty = T.ToReal(tx), T.ToReal(ty)
        if T.may_inf(tx) or T.may_inf(ty):
            raise EngineUnsupported('isclose of infinities')
        c = T.Le(T.Abs(T.Sub(tx, ty)), T.Add(at, T.Mul(rt, T.Abs(ty))))
        c = T.And(T.Not(nx), T.Not(ny), c)
        if equal_nan:
            c = T.Or(c, T.And(nx, ny))
        return V.mk(c, BOOL)
    if V.is_scalar(a) and V.is_scalar(b):
        return g(a, b)
    return V.map_binary(a, b, g, BOOL)


def n_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = n_isclose(a, b, rtol, atol, equal_nan)
    return V.mk(V.truth(V.reduce_bool(r, None, False)), None)


def n_array_equal(a, b, **k):
    a, b = V.as_sym(a), V.as_sym(b)
    if a.shape != b.shape:
        return False
    return V.mk(V.truth(V.reduce_bool(V.array_op(operator.eq, a, b), None, False)), None)


def n_concatenate(arrs, axis=0, **k):
    arrs = [V.as_sym(a) for a in arrs]
    dt = np.result_type(*[a.dtype for a in arrs])
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        axis = 0
    off, idxs, data = 0, [], []
    for a in arrs:
        raw = [V.conv_store_raw(x, dt, a.dtype) for x in a.raw()]
        idxs.append(np.arange(off, off + len(raw)).reshape(a.shape))
        data.extend(raw)
        off += len(raw)
    idx = np.concatenate(idxs, axis=axis)
    return SymArray(Buffer(data), idx, dt).copy()


def n_stack(kind):
    def h(arrs, **k):
        arrs = [V.as_sym(a) for a in arrs]
        idxs, data, off = [], [], 0
        dt = np.result_type(*[a.dtype for a in arrs])
        for a in arrs:
            raw = [V.conv_store_raw(x, dt, a.dtype) for x in a.raw()]
            idxs.append(np.arange(off, off + len(raw)).reshape(a.shape))
            data.extend(raw)
            off += len(raw)
        return SymArray(Buffer(data), kind(idxs, **k), dt).copy()
    return h


def n_append(a, b, axis=None):
    a, b = V.as_sym(a), V.as_sym(b)
    if axis is None:
        a, b = a.ravel(), b.ravel()
        axis = 0
    return n_concatenate([a, b], axis)


def n_arange(*args, dtype=None, **k):
    vals = list(args)
    if any(type(a) is SV and a.t.sort == 'R' for a in vals):
        raise EngineUnsupported('arange with symbolic real bounds')
    vals = [conc_int(a) for a in vals]
    return SymArray.from_np(np.arange(*vals, dtype=dtype))


def conc_int(a):
    if type(a) is SV:
        k = V.CTX.known_int(a.t)
        if k is None:
            raise NeedConcrete(a.t)
        return k
    return a


def n_linspace(start, stop, num=50, endpoint=True, **k):
    num = conc_int(num)
    div = (num - 1) if endpoint else num
    a, b = T.ToReal(V.term(start)), T.ToReal(V.term(stop))
    step = T.Div(T.Sub(b, a), Fraction(div)) if div > 0 else Fraction(0)
    out = [T.Add(a, T.MulC(Fraction(i), step)) for i in range(num)]
    if endpoint and num > 1:
        out[-1] = b
    return SymArray.from_list([V.unnum(x, F64) for x in out], (num,), F64)


def n_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise EngineUnsupported('interp period')
    xp, fp = V.as_sym(xp), V.as_sym(fp)
    X, Fp = [T.ToReal(t) for t in xp.terms()], [T.ToReal(t) for t in fp.terms()]
    if len(X) != len(Fp):
        raise ValueError('fp and xp are not of the same length.')
    L = Fp[0] if left is None else T.ToReal(V.term(left))
    R = Fp[-1] if right is None else T.ToReal(V.term(right))

    def one(v):
        t = T.ToReal(V.term(v))
        # last knot at or below t
        r = Fp[-1]
        r = T.Ite(T.Eq(t, X[-1]), Fp[-1], T.Ite(T.Lt(X[-1], t), R, None)) if False else None
        res = L
        for j in range(len(X) - 1):
            d = T.Sub(X[j + 1], X[j])
            if type(d) is not Term:
                seg = Fp[j] if d == 0 else T.Add(T.Mul(T.Div(T.Sub(Fp[j + 1], Fp[j]), d), T.Sub(t, X[j])), Fp[j])
            else:
                seg = T.Add(T.Mul(T.Div(T.Sub(Fp[j + 1], Fp[j]), d), T.Sub(t, X[j])), Fp[j])
            res = T.Ite(T.And(T.Le(X[j], t), T.Lt(t, X[j + 1])), seg, res)
        res = T.Ite(T.Eq(t, X[-1]), Fp[-1], T.Ite(T.Lt(X[-1], t), R, T.Ite(T.Lt(t, X[0]), L, res)))
        return V.mk(res, F64)
    if V.is_scalar(x):
        return one(x)
    return V.map_unary(V.as_sym(x), one, F64)


def n_bincount(x, weights=None, minlength=0):
    x = V.as_sym(x)
    if x.dtype.kind not in 'iub':
        raise TypeError("Cannot cast array data according to the rule 'safe'")
    if x.dtype == np.dtype(np.uint64):
        raise TypeError("Cannot cast array data from dtype('uint64') to dtype('int64') according to the rule 'safe'")
    ts = x.terms()
    if weights is not None:
        raise EngineUnsupported('weighted bincount')
    if x.ndim != 1:
        raise ValueError('object too deep for desired array')
    neg = T.And(*[T.Le(0, t) for t in ts])
    if not V.decide_ok(neg):
        raise ValueError("'list' argument must have no negative elements")
    m = -1
    for t in ts:
        m = T.Max(m, t)
    n = conc_int(V.mk(T.Add(m, 1), None)) if ts else 0
    n = max(n, minlength)
    out = []
    for k in range(n):
        c = 0
        for t in ts:
            c = T.Add(c, T.B2I(T.Eq(t, k)))
        out.append(c)
    return SymArray.from_list(out, (n,), I64)


def n_histogram(a, bins=10, range=None, density=None, weights=None):
    """numpy's documented semantics for uniform bins: half-open intervals, the last one closed."""
    if density or weights is not None:
        raise EngineUnsupported('histogram options')
    if isinstance(a, MaskedSel):
        g = a.mask.terms()
        vals = a.arr.terms()
    elif isinstance(a, GList):
        g = [x for x, _ in a.items]
        vals = [V.term(v) for _, v in a.items]
    else:
        a = V.as_sym(a)
        vals = a.terms()
        g = [True] * len(vals)
    vals = [T.ToReal(v) for v in vals]
    if V.is_scalar(bins):
        nb = conc_int(bins)
        if nb < 1:
            raise ValueError('`bins` must be positive, when an integer')
        if range is None:
            raise EngineUnsupported('histogram without range')
        lo, hi = T.ToReal(V.term(range[0])), T.ToReal(V.term(range[1]))
        if not V.decide_ok(T.Le(lo, hi)):
            raise ValueError('max must be larger than min in range parameter.')
        if V.decide_ok(T.Lt(lo, hi)) is False:
            lo, hi = T.Sub(lo, Fraction(1, 2)), T.Add(hi, Fraction(1, 2))
        w = T.Sub(hi, lo)
        edges = [T.Add(lo, T.MulC(Fraction(k, nb), w)) for k in builtins.range(nb + 1)]
        edges[-1] = hi
    else:
        e = V.as_sym(bins)
        edges = [T.ToReal(t) for t in e.terms()]
        nb = len(edges) - 1
        if not V.decide_ok(T.And(*[T.Le(x, y) for x, y in zip(edges, edges[1:])])):
            raise ValueError('`bins` must increase monotonically, when an array')
    cnt = []
    for k in builtins.range(nb):
        c = 0
        for gg, v in zip(g, vals):
            up = T.Le(v, edges[k + 1]) if k == nb - 1 else T.Lt(v, edges[k + 1])
            c = T.Add(c, T.B2I(T.And(gg, T.Le(edges[k], v), up)))
        cnt.append(c)
    return (SymArray.from_list(cnt, (nb,), I64), SymArray.from_list([V.unnum(e, F64) for e in edges], (nb + 1,), F64))


def n_assert_almost_equal(actual, desired, decimal=7, err_msg='', verbose=True):
    if not V.is_scalar(actual) or not V.is_scalar(desired):
        raise EngineUnsupported('assert_almost_equal of arrays')
    d = T.Abs(T.Sub(T.ToReal(V.term(actual)), T.ToReal(V.term(desired))))
    if not V.decide_ok(T.Lt(d, Fraction(1.5 * 10.0 ** (-decimal)))):
        raise AssertionError('Arrays are not almost equal')


def n_digitize(x, bins, right=False):
    b = [T.ToReal(t) for t in V.as_sym(bins).terms()]

    def one(v):
        t = T.ToReal(V.term(v))
        c = 0
        for e in b:
            c = T.Add(c, T.B2I(T.Lt(e, t) if right else T.Le(e, t)))
        return V.mk(c, I64)
    return one(x) if V.is_scalar(x) else V.map_unary(V.as_sym(x), one, I64)


def n_searchsorted(a, v, side='left', sorter=None):
    b = [T.ToReal(t) for t in V.as_sym(a).terms()]

    def one(x):
        t = T.ToReal(V.term(x))
        c = 0
        for e in b:
            c = T.Add(c, T.B2I(T.Lt(e, t) if side == 'left' else T.Le(e, t)))
        return V.mk(c, I64)
    return one(v) if V.is_scalar(v) else V.map_unary(V.as_sym(v), one, I64)


def n_clip(a, lo, hi, **k):
    r = a
    if lo is not None:
        r = _mm(False)(r, lo)
    if hi is not None:
        r = _mm(True)(r, hi)
    return r


def n_can_cast(a, to, casting='safe'):
    if isinstance(a, SV):
        if a.dt is not None:
            # numpy 1.x: value based for scalars
            if a.t.sort == 'I' and np.dtype(to).kind in 'iu':
                ii = np.iinfo(to)
                return V.mk(T.in_range(a.t, int(ii.min), int(ii.max)), None) if np.dtype(to).kind == 'i' or True else True
            return np.can_cast(a.dt, to, casting)
        if a.t.sort == 'I':
            ii = np.iinfo(to) if np.dtype(to).kind in 'iu' else None
            if ii is None:
                return True
            return V.mk(T.in_range(a.t, int(ii.min), int(ii.max)), None)
        if a.t.sort == 'B':
            return True
        return np.can_cast(1.5, to, casting)
    if isinstance(a, SymArray):
        return np.can_cast(a.dtype, to, casting)
    return np.can_cast(a, to, casting)


def n_unique(a, return_counts=False, return_index=False, return_inverse=False, **k):
    if return_index or return_inverse:
        raise EngineUnsupported('unique options')
    a = V.as_sym(a)
    ts = a.terms()
    if all(T.lo_of(t) is not None and T.hi_of(t) is not None for t in ts) and a.dtype.kind in 'iu':
        lo, hi = min(T.lo_of(t) for t in ts), max(T.hi_of(t) for t in ts)
        if hi - lo < 40:
            out, cn = [], []
            for v in range(lo, hi + 1):
                e = [T.Eq(t, v) for t in ts]
                if V.decide(T.Or(*e)):
                    out.append(v)
                    c = 0
                    for x in e:
                        c = T.Add(c, T.B2I(x))
                    cn.append(c)
            u = SymArray.from_list(out, (len(out),), a.dtype)
            if return_counts:
                return u, SymArray.from_list(cn, (len(cn),), I64)
            return u
    raise EngineUnsupported('unique of symbolic values')


def sort_net(a):
    ts = a.terms()
    n = len(ts)
    for i in range(n):
        for j in range(n - 1 - i):
            x, y = ts[j], ts[j + 1]
            ts[j], ts[j + 1] = T.Min(x, y), T.Max(x, y)
    return SymArray.from_list([V.unnum(t, a.dtype) for t in ts], a.shape, a.dtype)


def n_sort(a, axis=-1, **k):
    a = V.as_sym(a)
    if a.ndim != 1:
        raise EngineUnsupported('sort')
    return sort_net(a)


def n_ravel(a, **k):
    return V.as_sym(a).ravel()


def n_reshape(a, *sh, **k):
    return V.as_sym(a).reshape(*sh)


def n_copy(a, **k):
    return V.as_sym(a).copy()


def n_shape(a):
    return V.as_sym(a).shape


def n_size(a, axis=None):
    return V.as_sym(a).size if axis is None else V.as_sym(a).shape[axis]


def n_ndim(a):
    return V.as_sym(a).ndim


def n_diff(a, n=1, axis=-1, **k):
    a = V.as_sym(a)
    if a.ndim != 1 or n != 1:
        raise EngineUnsupported('diff')
    return a[1:] - a[:-1]


def n_pad(a, width, mode='constant', constant_values=0, **k):
    a = V.as_sym(a)
    if isinstance(width, int):
        width = [(width, width)] * a.ndim
    elif isinstance(width[0], int):
        width = [tuple(width)] * a.ndim
    shape = tuple(n + w[0] + w[1] for n, w in zip(a.shape, width))
    if mode == 'constant':
        r = SymArray.full(shape, 0, a.dtype)
        r[...] = constant_values
        r[tuple(slice(w[0], w[0] + n) for n, w in zip(a.shape, width))] = a
        return r
    idx = np.pad(a.idx, width, mode=mode, **k)
    return SymArray(a.buf, idx, a.dtype).copy()


def idxf(name):
    """functions which only rearrange elements"""
    fn = getattr(np, name)

    def h(a, *args, **k):
        a = V.as_sym(a)
        r = fn(a.idx, *args, **k)
        if isinstance(r, (list, tuple)):
            return [SymArray(a.buf, x, a.dtype) for x in r]
        res = SymArray(a.buf, r, a.dtype)
        return res.copy() if name in ('roll', 'tile', 'repeat', 'delete') else res
    return h


def n_take(a, ind, axis=None, **k):
    a = V.as_sym(a)
    if axis is None:
        return a.ravel()[ind if V.is_scalar(ind) else V.as_sym(ind)]
    raise EngineUnsupported('take axis')


def n_argmin(a, axis=None, **k):
    return V.argminmax(V.as_sym(a).ravel(), axis, True)


def n_argmax(a, axis=None, **k):
    return V.argminmax(V.as_sym(a).ravel(), axis, False)


def n_unravel(ix, shape, **k):
    if V.is_scalar(ix):
        t = V.term(ix)
        out = []
        for n in reversed(shape):
            out.append(V.mk(T.Mod(t, n), I64))
            t = T.FloorDiv(t, n)
        return tuple(reversed(out))
    raise EngineUnsupported('unravel_index')


def n_floor(x):
    t = T.ToReal(V.term(x))
    dt = V.dt_of(x) or F64
    return V.mk(T.ToReal(V.floor_term(t)), dt if dt.kind == 'f' else F64)


def n_ceil(x):
    t = T.ToReal(V.term(x))
    dt = V.dt_of(x) or F64
    return V.mk(T.ToReal(T.Neg(V.floor_term(T.Neg(t)))), dt if dt.kind == 'f' else F64)


def n_trunc(x):
    t = T.ToReal(V.term(x))
    return V.mk(T.ToReal(V.trunc_term(t)), V.dt_of(x) or F64)


def n_round(a, decimals=0, out=None):
    if out is not None:
        raise EngineUnsupported('round out')

    def one(x):
        dt = V.dt_of(x) or F64
        if T.sort_of(V.term(x)) != 'R':
            if decimals < 0:
                raise EngineUnsupported('integer round to negative digits')
            return x
        return V.mk(V.round_term(V.term(x), decimals), dt)
    return _ew1(one)(a)


def n_sqrt(x):
    raise EngineUnsupported('square root of a symbolic value')


def n_nextafter(x, y):
    if V.FPMODE[0]:
        y = V.term(y)
        d = V.dt_of(x)
        d = F64 if d is None or d.kind != 'f' else d
        if type(y) is not Term and y in (T.INF, T.NINF):
            return V.mk(T._mk('fnext', (T.ToReal(V.term(x)), y == T.INF, d.name), 'R'), d)
    raise EngineUnsupported('nextafter of a symbolic value')


def n_sign(x):
    t = V.term(x)
    z = Fraction(0) if T.sort_of(t) == 'R' else 0
    one = z + 1
    return V.mk(T.Ite(T.Lt(z, t), one, T.Ite(T.Lt(t, z), -one, z)), V.dt_of(x))


def n_logical(fn):
    def g(x, y):
        return V.mk(fn(V.truth(x), V.truth(y)), BOOL)

    def h(a, b, *rest, out=None, **k):
        if V.is_scalar(a) and V.is_scalar(b):
            return g(a, b)
        r = V.map_binary(a, b, g, BOOL)
        if rest:
            out = rest[0]
        if out is not None:
            out[...] = r
            return out
        return r
    return h


def n_copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        w = V.as_sym(where)
        if V.is_scalar(src):
            dst[w] = src
        else:
            s = V.as_sym(src)
            dst[...] = n_where(w, s.astype(dst.dtype), dst)


def n_putmask(a, mask, values):
    n_copyto(a, values, where=mask)


def n_add_at(a, ix, b):
    if isinstance(ix, tuple):
        raise EngineUnsupported('add.at')
    ix = V.as_sym(ix)
    bs = [b] * ix.size if V.is_scalar(b) else [V.mk(t, V.as_sym(b).dtype) for t in V.as_sym(b).terms()]
    for t, v in zip(ix.terms(), bs):
        k = V.mk(t, None)
        a[k] = a[k] + v


def n_mm_at(ismin):
    def h(a, ix, b):
        ix = V.as_sym(ix)
        bs = [b] * ix.size if V.is_scalar(b) else [V.mk(t, V.as_sym(b).dtype) for t in V.as_sym(b).terms()]
        for t, v in zip(ix.terms(), bs):
            k = V.mk(t, None)
            a[k] = _mm(ismin)(a[k], v)
    return h


def ufunc_call(vm, fn, args, kwargs):
    raise EngineUnsupported('numpy.%s of symbolic values' % fn.__name__)


def n_dot(a, b, **k):
    a, b = V.as_sym(a), V.as_sym(b)
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    raise EngineUnsupported('dot')


def _abs1(x):
    return abs(x)


def gdal_apply(gt, x, y):
    """GDALApplyGeoTransform"""
    gt = list(gt)
    return [gt[0] + x * gt[1] + y * gt[2], gt[3] + x * gt[4] + y * gt[5]]


def nd_label(input, structure=None, output=None):
    """Contract of scipy.ndimage.label for a 3x3 structure: components numbered by first cell in raster order."""
    a = V.as_sym(input)
    if output is not None or a.ndim != 2:
        raise EngineUnsupported('label options')
    st = np.array([[0, 1, 0], [1, 1, 1], [0, 1, 0]]) if structure is None else (
        structure.to_np() if isinstance(structure, SymArray) else np.array(structure))
    if st.shape != (3, 3):
        raise RuntimeError('structure and input must have equal rank')
    st = st.astype(bool)
    if (st != st[::-1, ::-1]).any():
        raise RuntimeError('structuring element is not symmetric')
    R, C = a.shape
    n = R * C
    on = [V.truth(V.mkp(x, a.dtype)) for x in a.raw()]
    if T.FORK[0] is not None:
        on = [T.FORK[0](c) for c in on]
    nb = []
    for r in range(R):
        for c in range(C):
            l = []
            for dr in (-1, 0, 1):
                for dc in (-1, 0, 1):
                    if (dr or dc) and st[dr + 1, dc + 1] and 0 <= r + dr < R and 0 <= c + dc < C:
                        l.append((r + dr) * C + c + dc)
            nb.append(l)
    # reach[i][j]: connected through wet cells (Warshall closure)
    reach = [[False] * n for _ in range(n)]
    for i in range(n):
        reach[i][i] = on[i]
        for j in nb[i]:
            reach[i][j] = T.And(on[i], on[j])
    for k in range(n):
        for i in range(n):
            if reach[i][k] is False or i == k:
                continue
            for j in range(i):
                if reach[k][j] is False or j == k:
                    continue
                x = T.Or(reach[i][j], T.And(reach[i][k], reach[k][j]))
                reach[i][j] = reach[j][i] = x
    roots = []
    for i in range(n):
        roots.append(T.And(on[i], *[T.Not(reach[j][i]) for j in range(i)]))
    num, cnt = [], 0
    for i in range(n):
        cnt = T.Add(cnt, T.B2I(roots[i]))
        num.append(cnt)
    out = []
    for i in range(n):
        v = 0
        for j in range(i, -1, -1):
            v = T.Ite(T.And(roots[j], reach[i][j]), num[j], v)
        out.append(T.Ite(on[i], v, 0))
    lab = SymArray.from_list(out, (R, C), np.int32)
    return lab, V.mk(cnt, None)


def install(vm):
    t = vm.intercepts
    B = {len: b_len, min: b_min, max: b_max, sum: b_sum, any: b_any, all: b_all, sorted: b_sorted, enumerate: b_enumerate,
         zip: b_zip, map: b_map, filter: b_filter, list: b_list, tuple: b_tuple, set: b_set, dict: b_dict, range: b_range,
         int: b_int, float: b_float, bool: b_bool, str: b_str, isinstance: b_isinstance, type: b_type, callable: b_callable,
         getattr: b_getattr, hasattr: b_hasattr, setattr: b_setattr, next: b_next, iter: b_iter, reversed: b_reversed,
         print: b_none, round: b_round, abs: b_abs, eval: b_eval, divmod: b_divmod, pow: b_pow, hash: b_hash,
         globals: b_globals, locals: b_globals, frozenset: b_set,
         deque: b_deque, copy.copy: b_copy, copy.deepcopy: b_deepcopy, functools.reduce: b_reduce, itertools.chain: b_chain,
         itertools.chain.from_iterable: b_chain_from, warnings.warn: b_none,
         math.floor: m_floor, math.ceil: m_ceil, math.trunc: m_trunc, math.isnan: m_isnan, math.isinf: m_isinf,
         math.isfinite: m_isfinite, math.fabs: m_fabs, math.sqrt: m_sqrt}
    for fn in (sum, min, max):
        B[fn] = _retarget(genarg(B[fn]), fn)
    t.update(B)
    N = {np.zeros: n_zeros, np.ones: n_ones, np.full: n_full, np.empty: n_empty, np.empty_like: n_empty_like,
         np.zeros_like: n_zeros_like, np.ones_like: n_ones_like, np.full_like: n_full_like, np.array: n_array,
         np.asarray: n_asarray, np.asanyarray: n_asarray, np.ascontiguousarray: n_asarray, np.amax: n_max, np.max: n_max,
         np.amin: n_min, np.min: n_min, np.nanmax: n_max, np.nanmin: n_min, np.sum: n_sum, np.mean: n_mean, np.any: n_any,
         np.all: n_all, np.count_nonzero: n_count_nonzero, np.cumsum: n_cumsum, np.where: n_where, np.nonzero: n_nonzero,
         np.isnan: n_isnan, np.isinf: n_isinf, np.isfinite: n_isfinite, np.isclose: n_isclose, np.allclose: n_allclose,
         np.array_equal: n_array_equal, np.concatenate: n_concatenate, np.append: n_append, np.arange: n_arange,
         np.linspace: n_linspace, np.interp: n_interp, np.bincount: n_bincount, np.histogram: n_histogram,
         np.digitize: n_digitize, np.searchsorted: n_searchsorted, np.clip: n_clip, np.can_cast: n_can_cast,
         np.unique: n_unique, np.sort: n_sort, np.ravel: n_ravel, np.reshape: n_reshape, np.copy: n_copy, np.shape: n_shape,
         np.size: n_size, np.ndim: n_ndim, np.diff: n_diff, np.pad: n_pad, np.take: n_take, np.argmin: n_argmin,
         np.argmax: n_argmax, np.unravel_index: n_unravel, np.copyto: n_copyto, np.putmask: n_putmask, np.dot: n_dot,
         np.hstack: n_stack(np.hstack), np.vstack: n_stack(np.vstack), np.stack: n_stack(np.stack),
         np.column_stack: n_stack(np.column_stack), np.dstack: n_stack(np.dstack),
         np.minimum: _mm(True), np.maximum: _mm(False), np.fmin: _mm(True), np.fmax: _mm(False),
         np.add: _ew2(operator.add), np.subtract: _ew2(operator.sub), np.multiply: _ew2(operator.mul),
         np.divide: _ew2(operator.truediv), np.true_divide: _ew2(operator.truediv), np.floor_divide: _ew2(operator.floordiv),
         np.mod: _ew2(operator.mod), np.remainder: _ew2(operator.mod), np.power: _ew2(operator.pow),
         np.less: _ew2(operator.lt), np.less_equal: _ew2(operator.le), np.greater: _ew2(operator.gt),
         np.greater_equal: _ew2(operator.ge), np.equal: _ew2(operator.eq), np.not_equal: _ew2(operator.ne),
         np.bitwise_and: _ew2(operator.and_), np.bitwise_or: _ew2(operator.or_), np.bitwise_xor: _ew2(operator.xor),
         np.abs: _ew1(_abs1), np.absolute: _ew1(_abs1), np.fabs: _ew1(_abs1), np.negative: _ew1(operator.neg),
         np.invert: _ew1(operator.invert), np.logical_not: _ew1(lambda x: V.mk(T.Not(V.truth(x)), BOOL), BOOL),
         np.logical_and: n_logical(T.And), np.logical_or: n_logical(T.Or), np.logical_xor: n_logical(T.Xor),
         np.testing.assert_almost_equal: n_assert_almost_equal, np.floor: _ew1(n_floor), np.round: n_round, np.around: n_round, np.rint: n_round, np.ceil: _ew1(n_ceil), np.trunc: _ew1(n_trunc), np.sqrt: _ew1(n_sqrt), np.sign: _ew1(n_sign),
         np.nextafter: n_nextafter, np.square: _ew1(lambda x: x * x)}
    for nm in ('transpose', 'flipud', 'fliplr', 'flip', 'rot90', 'roll', 'squeeze', 'expand_dims', 'atleast_1d', 'atleast_2d',
               'broadcast_to', 'swapaxes', 'moveaxis', 'tile', 'repeat', 'delete', 'split', 'diagonal'):
        N[getattr(np, nm)] = idxf(nm)
    for fn, h in N.items():
        t[fn] = _retarget(npf(h), fn)
    from scipy import ndimage
    t[ndimage.label] = _retarget(npf(nd_label), ndimage.label)
    from osgeo import gdal
    t[gdal.ApplyGeoTransform] = _retarget(npf(gdal_apply), gdal.ApplyGeoTransform)
    t[np.add.at] = _retarget(npf(n_add_at), np.add.at)
    t[np.minimum.at] = _retarget(npf(n_mm_at(True)), np.minimum.at)
    t[np.maximum.at] = _retarget(npf(n_mm_at(False)), np.maximum.at)
    # np.empty must be arbitrary even when all arguments are concrete
    t[np.empty] = lambda vm, s, f, a, k: n_empty(*a, **k)
    t[np.empty_like] = lambda vm, s, f, a, k: n_empty_like(*a, **k)
    # freshly created arrays are engine arrays
    for fn, h in ((np.zeros, n_zeros), (np.ones, n_ones), (np.full, n_full)):
        t[fn] = (lambda hh: lambda vm, s, f, a, k: hh(*a, **k))(h)
    t[logging.getLogger] = lambda vm, s, f, a, k: logging.getLogger('verif')
    t[operator.add] = lambda vm, s, f, a, k: a[0] + a[1]
    t[isinstance] = b_isinstance


def _retarget(w, fn):
    w.target = fn
    return w
