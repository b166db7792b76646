"""Symbolic virtual machine for CPython 3.12 bytecode with state merging.

The real functions of the code under test are executed instruction by instruction.  A branch on a
symbolic condition forks the state; states which reach the same position (call stack, loop iterations,
offset) are merged again with if-then-else terms, so the whole bounded behaviour of a program becomes one
term per result instead of one path per combination of branches.
"""
import dis
import enum
import heapq
import itertools
import operator
import time
import types
from collections import deque, defaultdict, OrderedDict
from fractions import Fraction
import numpy as np
from . import cyrt
from . import terms as T
from . import values as V
from .terms import Term
from .values import (SV, SymArray, SymRecArray, SymRecord, GList, MaskedSel, SymStr, SymText, Buffer, CTX,
                     EngineUnsupported, EngineBudget, ForkInNative, NeedConcrete, NeedFloor, NaNValue,
                     InfeasiblePath)


class _Null(object):
    def __repr__(self):
        return '<NULL>'


NULL = _Null()
UNBOUND = _Null()


class Unmergeable(Exception):
    pass


class Cell(object):
    __slots__ = ('v',)

    def __init__(self, v=UNBOUND):
        self.v = v


class VMFunction(object):
    __slots__ = ('code', 'globals', 'name', 'defaults', 'kwdefaults', 'closure', 'annotations')

    def __init__(self, code, globals_, name):
        self.code = code
        self.globals = globals_
        self.name = name
        self.defaults = ()
        self.kwdefaults = None
        self.closure = ()

    @property
    def __name__(self):
        return self.name

    def __call__(self, *a, **k):
        raise EngineUnsupported('interpreted function called from native code')


class VMMethod(object):
    """bound method of an interpreted function"""
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __call__(self, *a, **k):
        raise EngineUnsupported('interpreted method called from native code')


class NMethod(object):
    """bound method of a mutable engine-level or builtin container, resolved by name at the call"""
    __slots__ = ('self', 'name')

    def __init__(self, self_, name):
        self.self = self_
        self.name = name

    def __call__(self, *a, **k):
        return getattr(self.self, self.name)(*a, **k)


class VMIter(object):
    """iterator over a (snapshot or live) sequence"""
    __slots__ = ('seq', 'i')

    def __init__(self, seq, i=0):
        self.seq = seq
        self.i = i

    def __iter__(self):
        raise EngineUnsupported('native iteration over a VM iterator')


class VMGenerator(object):
    __slots__ = ('frame', 'done', 'running')

    def __init__(self, frame):
        self.frame = frame
        self.done = False
        self.running = False

    def __iter__(self):
        raise EngineUnsupported('native iteration over a VM generator')


class Super(object):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class NoMerge(object):
    """wrapper for a value which must never be merged with a different one"""


# ------------------------------------------------------------------ code objects
class CodeInfo(object):
    serial = 0

    def __init__(self, code):
        CodeInfo.serial += 1
        self.serial = CodeInfo.serial
        self.code = code
        ins = [i for i in dis.get_instructions(code)]
        self.off2ix = {i.offset: k for k, i in enumerate(ins)}
        self.n = len(ins)
        self.ins = []
        self.offsets = [i.offset for i in ins]
        loops = {}
        leaders = {0}
        names = []
        for k in range(10 ** 6):
            try:
                names.append(code._varname_from_oparg(k))
            except IndexError:
                break
        self.names = names
        self.nlocalsplus = len(names)
        self.freebase = len(names) - len(code.co_freevars)
        for k, i in enumerate(ins):
            op = i.opname
            tgt = None
            if i.opcode in dis.hasjrel or i.opcode in dis.hasjabs:
                tgt = self.off2ix[i.argval]
                leaders.add(tgt)
                if op.startswith('JUMP_BACKWARD'):
                    loops[tgt] = max(loops.get(tgt, -1), k)
                leaders.add(k + 1)
            if op in ('CALL', 'CALL_FUNCTION_EX', 'BINARY_SUBSCR', 'STORE_SUBSCR', 'BINARY_OP', 'COMPARE_OP', 'CONTAINS_OP'):
                leaders.add(k + 1)
            self.ins.append((op, i.arg, i.argval, tgt))
        self.exc = []
        for e in dis._parse_exception_table(code):
            st = self.off2ix.get(e.start)
            en = self.off2ix.get(e.end, self.n)
            tg = self.off2ix[e.target]
            leaders.add(tg)
            self.exc.append((st, en, tg, e.depth, e.lasti))
        self.loops = loops
        self.leader = [k in leaders for k in range(self.n + 1)]
        self.encl = []
        hs = sorted(loops.items(), key=lambda p: (p[0], -p[1]))
        for k in range(self.n + 1):
            self.encl.append([h for h, e in hs if h <= k <= e])
        self._live = None
        # while-loops which take the last element of a list: header -> slot of the list
        self.work = {}
        for k in range(len(ins) - 2):
            if ins[k].opname == 'LOAD_FAST' and ins[k + 1].opname == 'LOAD_ATTR' and ins[k + 1].argval == 'pop' and ins[k + 2].opname == 'CALL':
                hs = [h for h in self.encl[k] if ins[h].opname != 'FOR_ITER']
                if hs:
                    self.work[hs[-1]] = ins[k].arg
                    self.leader[k + 2] = True

    def live(self):
        """live[k]: set of local slots live before instruction k"""
        if self._live is not None:
            return self._live
        n = self.n
        use = [None] * n
        kill = [None] * n
        succ = [None] * n
        for k, (op, arg, argval, tgt) in enumerate(self.ins):
            u = d = None
            if op in ('LOAD_FAST', 'LOAD_FAST_CHECK', 'LOAD_CLOSURE', 'LOAD_DEREF', 'STORE_DEREF', 'DELETE_DEREF',
                      'LOAD_FROM_DICT_OR_DEREF', 'MAKE_CELL'):
                u = arg
            elif op == 'LOAD_FAST_AND_CLEAR':
                u = arg
                d = arg
            elif op in ('STORE_FAST', 'DELETE_FAST'):
                d = arg
            use[k], kill[k] = u, d
            s = []
            if op in ('RETURN_VALUE', 'RETURN_CONST', 'RAISE_VARARGS', 'RERAISE'):
                pass
            elif op in ('JUMP_FORWARD', 'JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT'):
                s.append(tgt)
            else:
                if k + 1 < n:
                    s.append(k + 1)
                if tgt is not None:
                    s.append(tgt)
            for st, en, tg, _, _ in self.exc:
                if st <= k < en:
                    s.append(tg)
            succ[k] = s
        live = [frozenset()] * (n + 1)
        changed = True
        cells = frozenset(k for k, nm in enumerate(self.names) if nm in self.code.co_cellvars or nm in self.code.co_freevars)
        while changed:
            changed = False
            for k in range(n - 1, -1, -1):
                o = frozenset().union(*[live[t] for t in succ[k]]) if succ[k] else frozenset()
                if kill[k] is not None:
                    o = o - {kill[k]}
                if use[k] is not None:
                    o = o | {use[k]}
                o = o | cells
                if o != live[k]:
                    live[k] = o
                    changed = True
        self._live = live
        return live


_codeinfo = {}


def codeinfo(code):
    ci = _codeinfo.get(code)
    if ci is None:
        ci = _codeinfo[code] = CodeInfo(code)
    return ci


class Frame(object):
    __slots__ = ('ci', 'ip', 'loc', 'stack', 'glob', 'names', 'loops', 'kw', 'gen', 'mode', 'callip', 'wl')

    def __init__(self, ci, glob):
        self.ci = ci
        self.ip = 0
        self.loc = [UNBOUND] * ci.nlocalsplus
        self.stack = []
        self.glob = glob
        self.names = None
        self.loops = {}
        self.wl = {}            # work list loops: minus the length of the list at the last arrival
        self.kw = ()
        self.gen = None
        self.mode = 'call'     # call / init / foriter / next / send


class State(object):
    __slots__ = ('frames', 'pc', 'ints', 'floors', 'tag', 'over', 'exc', 'notes', 'root', 'depth', 'fresh')

    def __init__(self):
        self.frames = []
        self.pc = {}
        self.ints = {}
        self.floors = {}
        self.tag = ()
        self.over = {}          # (id(dict), name) -> (dict, value): module state changed by this execution
        self.exc = None
        self.notes = {}
        self.root = None
        self.fresh = False


def add_pc(pc, c):
    """Add a condition; False when it contradicts syntactically."""
    if type(c) is not Term:
        return bool(c)
    if c.op == 'and':
        for x in c.args:
            if not add_pc(pc, x):
                return False
        return True
    n = T.Not(c)
    if n.id in pc:
        return False
    pc[c.id] = c
    return True


_linear = {}


def linear_atom(t):
    """(key, op, constant): the linear form key compared with a constant; None for other conditions"""
    if t.id in _linear:
        return _linear[t.id]
    r = _linear[t.id] = _linear_atom(t)
    return r


def _linear_atom(t):
    neg = False
    c = t
    if c.op == 'not':
        neg = True
        c = c.args[0]
    if c.op not in ('le', 'eq'):
        return None
    coef, k = {}, Fraction(0)
    for sg, x in ((1, c.args[0]), (-1, c.args[1])):
        if type(x) is not Term:
            if type(x) is not Fraction and type(x) is not int:
                return None
            k += sg * x
            continue
        if x.sort != 'R' and x.sort != 'I':
            return None
        for y in (x.args if x.op == 'add' else (x,)):
            if type(y) is not Term:
                if type(y) is not Fraction and type(y) is not int:
                    return None
                k += sg * y
            elif y.op == 'mulc':
                coef[y.args[1].id] = coef.get(y.args[1].id, 0) + sg * y.args[0]
            else:
                coef[y.id] = coef.get(y.id, 0) + sg
    items = sorted((i, v) for i, v in coef.items() if v != 0)
    if not items:
        return None
    lead = Fraction(items[0][1])
    key = tuple((i, v / lead) for i, v in items)
    # sum + k <= 0 (or = 0)  ->  form <= -k / lead, or >= when lead is negative
    k = -k / lead
    if c.op == 'eq':
        return key, 'ne' if neg else 'eq', k
    if lead > 0:
        return key, 'gt' if neg else 'le', k
    return key, 'lt' if neg else 'ge', k


def tighten(b, op, k):
    if op == 'le' or op == 'lt':
        if b[2] is None or k < b[2] or k == b[2] and op == 'lt':
            b[2], b[3] = k, op == 'lt'
    else:
        if b[0] is None or k > b[0] or k == b[0] and op == 'gt':
            b[0], b[1] = k, op == 'gt'


SHARED = (str, bytes, int, float, bool, type(None), np.generic, np.dtype, type, types.ModuleType, types.FunctionType,
          types.BuiltinFunctionType, SV, Term, range, slice, Fraction, enum.Enum, _Null, complex, type(Ellipsis),
          types.CodeType, property, SymStr, SymText, frozenset, types.MethodWrapperType, types.WrapperDescriptorType,
          types.MethodDescriptorType, types.ClassMethodDescriptorType, types.GetSetDescriptorType, np.ufunc)
_sharedtypes = set()
_ownedtypes = {}


def _direct(fn):
    def h(vm, s, f, args, kwargs):
        return fn(*args)
    return h


class VM(object):
    def __init__(self, session, interpretable, budget_s=600, max_unwind=60, max_states=20000, prelude=None, verbose=False):
        self.session = session
        self.interp_prefixes = interpretable
        self.intercepts = {}
        self.deadline = time.time() + budget_s
        self.max_unwind = max_unwind
        self.max_states = max_states
        self.pending = {}
        self.heap = []
        self.outcomes = []
        self.obligations = []
        self.stats = {'steps': 0, 'forks': 0, 'merges': 0, 'states': 1, 'pruned': 0, 'unmerged': 0}
        self.functions = set()
        self.state = None
        self.verbose = verbose
        self.impl_cache = {}
        self.feas_cache = {}
        self.check_forks = False
        self.loopcheck = 1
        self.splitcells = False
        self.forkvals = False         # fork on min / max and masks instead of building conditional terms
        self.forkall = False          # explore path by path (depth first), never merge
        self.dispatch = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith('op_')}
        self.unmerge_reasons = defaultdict(int)
        from . import intrinsics
        intrinsics.install(self)
        for fn in cyrt.EXPORTS:
            self.intercepts[fn] = _direct(fn)

    # ---------------------------------------------------------------- hooks for values
    def known(self, t):
        pc = self.state.pc
        if t.id in pc:
            return True
        if t.op != 'not' and t.op != 'and':
            return self._known1(t, pc, self.state.ints)
        return self._known(t, pc, self.state.ints, {})

    def _known1(self, t, pc, ints):
        o = t.op
        n = T._table.get(('not', 'B', t.id))
        if n is not None and n.id in pc:
            return False
        if ints and (o == 'eq' or o == 'le'):
            a, b = t.args
            hit = False
            if type(a) is Term and a.id in ints:
                a = ints[a.id]
                hit = True
            if type(b) is Term and b.id in ints:
                b = ints[b.id]
                hit = True
            if hit:
                r = T.Eq(a, b) if o == 'eq' else T.Le(a, b)
                if type(r) is not Term:
                    return r
        return None

    def _known(self, t, pc, ints, memo):
        """memo: nested conjunctions share subterms"""
        if t.id in pc:
            return True
        if t.id in memo:
            return memo[t.id]
        o = t.op
        if o == 'not':
            k = self._known(t.args[0], pc, ints, memo)
            r = None if k is None else not k
        elif o == 'and':
            n = T._table.get(('not', 'B', t.id))
            if n is not None and n.id in pc:
                r = False
            else:
                r = True
                for x in t.args:
                    k = self._known(x, pc, ints, memo)
                    if k is False:
                        r = False
                        break
                    if k is None:
                        r = None
        else:
            r = self._known1(t, pc, ints)
        memo[t.id] = r
        return r

    # -- path-by-path mode: conditions are decided atom by atom, using the bounds the path puts on linear forms
    def decide_atoms(self, c):
        if type(c) is not Term:
            return bool(c)
        o = c.op
        if o == 'not':
            return not self.decide_atoms(c.args[0])
        if o == 'and':
            for x in c.args:
                if not self.decide_atoms(x):
                    return False
            return True
        if o == 'or':
            for x in c.args:
                if self.decide_atoms(x):
                    return True
            return False
        k = self.known(c)
        if k is None:
            k = self.by_bounds(c)
        if k is None:
            raise ForkInNative(c)
        return k

    def by_bounds(self, c):
        l = linear_atom(c)
        if l is None:
            return None
        pc = self.state.pc
        if self.bcache is None or self.bcache[0] is not pc:
            self.bcache = (pc, {}, [0])
        _, bounds, done = self.bcache
        if done[0] < len(pc):
            for t in itertools.islice(pc.values(), done[0], None):
                x = linear_atom(t)
                if x is not None:
                    key, op, k = x
                    b = bounds.setdefault(key, [None, False, None, False])
                    if op == 'eq':
                        tighten(b, 'ge', k)
                        tighten(b, 'le', k)
                    elif op != 'ne':
                        tighten(b, op, k)
            done[0] = len(pc)
        key, op, k = l
        b = bounds.get(key)
        if b is None:
            return None
        lo, ls, hi, hs = b
        if op == 'le' or op == 'lt':
            if hi is not None and (hi < k or hi == k and (op == 'le' or hs)):
                return True
            if lo is not None and (lo > k or lo == k and (op == 'lt' or ls)):
                return False
        elif op == 'ge' or op == 'gt':
            if lo is not None and (lo > k or lo == k and (op == 'ge' or ls)):
                return True
            if hi is not None and (hi < k or hi == k and (op == 'gt' or hs)):
                return False
        else:
            out = (hi is not None and (hi < k or hi == k and hs)) or (lo is not None and (lo > k or lo == k and ls))
            if out:
                return op == 'ne'
            if lo is not None and lo == hi == k:
                return op == 'eq'
        return None

    bcache = None

    def known_int(self, t):
        return self.state.ints.get(t.id)

    def known_floor(self, t):
        return self.state.floors.get(t.id)

    def oblige(self, cond, what, data=None):
        if cond is True:
            self.obligations.append((None, True, what, data))
            return
        self.obligations.append((list(self.state.pc.values()), cond, what, data))

    def solver_implied(self, c):
        key = (tuple(self.state.pc), c.id)
        if key in self.impl_cache:
            return self.impl_cache[key]
        r = None
        base = list(self.state.pc.values())
        st, _ = self.session.check(base + [T.Not(c)], feas=True, want_model=False)
        if st == 'unsat':
            r = True
        elif st == 'sat':
            st, _ = self.session.check(base + [c], feas=True, want_model=False)
            if st == 'unsat':
                r = False
        self.impl_cache[key] = r
        return r

    def define(self, c):
        if not add_pc(self.state.pc, c):
            raise InfeasiblePath()

    # ---------------------------------------------------------------- entry points
    def run(self, func, args=(), kwargs=None, pc=()):
        """Explore func(*args) completely; outcomes are collected in self.outcomes."""
        s = State()
        for c in pc:
            if not add_pc(s.pc, c):
                return []
        old = (CTX.known, CTX.oblige, CTX.solver_implied, getattr(CTX, 'known_floor', None), getattr(CTX, 'known_int', None))
        CTX.known, CTX.oblige, CTX.solver_implied = self.known, self.oblige, self.solver_implied
        CTX.known_floor, CTX.known_int = self.known_floor, self.known_int
        CTX.define = self.define
        T.FORK[0] = self.decide_atoms if self.forkvals else None
        self.bcache = None
        try:
            self.state = s
            base = Frame(codeinfo(_base_code), {})
            base.mode = 'base'
            s.frames.append(base)
            self.call(s, base, func, list(args), dict(kwargs or {}))
            self.push(s)
            while self.heap:
                key = heapq.heappop(self.heap)
                lst = self.pending.get(key)
                if not lst:
                    self.pending.pop(key, None)
                    continue
                s = lst.pop()
                if lst:
                    heapq.heappush(self.heap, key)
                else:
                    del self.pending[key]
                self.execute(s)
        finally:
            T.FORK[0] = None
            CTX.known, CTX.oblige, CTX.solver_implied, CTX.known_floor, CTX.known_int = old
        return self.outcomes

    # ---------------------------------------------------------------- scheduling
    def key(self, s):
        if self.forkall:
            return ()
        out = [s.tag]
        for f in s.frames:
            ci = f.ci
            k = [ci.serial]
            for h in ci.encl[f.ip]:
                k.append(h)
                k.append(f.loops.get(h, 0) if h not in ci.work or not self.splitcells else f.wl.get(h, 0))
            k.append(f.ip)
            out.append(tuple(k))
        return tuple(out)

    def push(self, s, key=None):
        if key is None:
            key = self.key(s)
        lst = self.pending.get(key)
        if lst is None:
            self.pending[key] = [s]
            heapq.heappush(self.heap, key)
            return
        if self.forkall:
            lst.append(s)
            return
        for k, o in enumerate(lst):
            m = self.merge(o, s) if not o.fresh else None
            if m is not None:
                lst[k] = m
                return
        lst.append(s)
        self.stats['unmerged'] += 1
        if len(lst) > self.max_states:
            raise EngineBudget('too many unmergeable states')

    def repush(self, s):
        """queue a state which re-executes its current instruction; it must not merge with its sibling before that"""
        s.fresh = True
        key = self.key(s)
        lst = self.pending.get(key)
        if lst is None:
            self.pending[key] = [s]
            heapq.heappush(self.heap, key)
        else:
            lst.append(s)
            if len(lst) > self.max_states and not self.forkall:
                raise EngineBudget('too many unmergeable states')

    def execute(self, s):
        """Run s until it ends, forks, or should wait for other states."""
        self.state = s
        s.fresh = False
        disp = self.dispatch
        first = True
        nsteps = 0
        while True:
            if not s.frames:
                return
            f = s.frames[-1]
            ci = f.ci
            if ci.leader[f.ip] and not first and self.pending and not self.forkall:
                key = self.key(s)
                # pending keys: heap[0] is the minimum (may be stale)
                while self.heap and not self.pending.get(self.heap[0]):
                    self.pending.pop(heapq.heappop(self.heap), None)
                if self.heap and key >= self.heap[0]:
                    self.push(s, key)
                    self.stats['steps'] += nsteps
                    return
            first = False
            op, arg, argval, tgt = ci.ins[f.ip]
            nsteps += 1
            if nsteps & 0x3ff == 0 and time.time() > self.deadline:
                raise EngineBudget('time budget of the exploration exhausted')
            ip0 = f.ip
            f.ip = ip0 + 1
            saved = f.stack[:]
            kw = f.kw
            try:
                h = disp.get(op)
                if h is None:
                    raise EngineUnsupported('opcode %s' % op)
                r = h(s, f, arg, argval, tgt)
                if r is not None:
                    self.stats['steps'] += nsteps
                    return
            except ForkInNative as e:
                f.stack = saved
                f.ip = ip0
                f.kw = kw
                self.stats['steps'] += nsteps
                self.fork(s, e.cond)
                return
            except PopFork as e:
                f.stack = saved
                f.ip = ip0
                f.kw = kw
                self.stats['steps'] += nsteps
                self.popfork(s, f, e)
                return
            except NeedConcrete as e:
                f.stack = saved
                f.ip = ip0
                f.kw = kw
                self.stats['steps'] += nsteps
                self.concretise(s, e.term)
                return
            except NeedUpgrade as e:
                f.stack = saved
                f.ip = ip0
                f.kw = kw
                self.upgrade(s, e.obj)
                return
            except NeedResolve as e:
                raise EngineUnsupported('operation on a guarded list')
            except NeedFloor as e:
                f.stack = saved
                f.ip = ip0
                f.kw = kw
                self.stats['steps'] += nsteps
                self.split_floor(s, e.term)
                return
            except InfeasiblePath:
                self.stats['steps'] += nsteps
                self.stats['pruned'] += 1
                return
            except NaNValue:
                self.finish(s, 'nan', None)
                return
            except cyrt.CyUB as e:
                if self.feasible(s):
                    self.finish(s, 'ub', e)
                else:
                    self.stats['pruned'] += 1
                return
            except RecursionError:
                raise
            except Exception as e:
                f.ip = ip0
                if self.verbose > 1:
                    import traceback
                    traceback.print_exc()
                if self.unwind(s, e):
                    self.stats['steps'] += nsteps
                    return

    def finish(self, s, kind, value):
        self.outcomes.append((kind, value, list(s.pc.values()), s))
        s.frames = []

    # ---------------------------------------------------------------- forks
    def feasible(self, s):
        st, _ = self.session.check(list(s.pc.values()), feas=True, want_model=False)
        return st != 'unsat'

    def popfork(self, s, f, e):
        """The last element of a guarded work list may be absent: one state takes it, the other one drops it and waits for the first."""
        self.stats['forks'] += 1
        o, g = e.obj, e.cond
        ne = o.nonempty()
        had = type(ne) is Term and s.pc.pop(ne.id, None) is not None
        v = o.items[-1][1]
        o.items[-1] = (True, v)
        a = self.clone(s)
        if add_pc(a.pc, g):
            if self.check_forks and not self.feasible(a):
                self.stats['pruned'] += 1
            else:
                self.repush(a)
        del o.items[-1]
        ok = add_pc(s.pc, T.Not(g))
        if ok and had:
            ok = add_pc(s.pc, o.nonempty())
        if ok and self.check_forks and not self.feasible(s):
            self.stats['pruned'] += 1
            ok = False
        if ok:
            for h in f.ci.encl[f.ip]:
                if h in f.ci.work:
                    f.wl[h] = -worklen(f.loc[f.ci.work[h]])
            self.push(s)

    def fork(self, s, cond):
        """Split s on cond; both states re-execute the current instruction (or continue at .ip)."""
        self.stats['forks'] += 1
        a = s
        b = self.clone(s)
        for st, c in ((a, cond), (b, T.Not(cond))):
            if add_pc(st.pc, c):
                if self.check_forks and not self.feasible(st):
                    self.stats['pruned'] += 1
                    continue
                self.repush(st)
            else:
                self.stats['pruned'] += 1

    def branch(self, s, cond, on_true, on_false):
        """Split at a jump: continuations are ips of the current frame."""
        self.stats['forks'] += 1
        b = self.clone(s)
        s.frames[-1].ip = on_true
        b.frames[-1].ip = on_false
        for st, c in ((s, cond), (b, T.Not(cond))):
            if add_pc(st.pc, c):
                if self.check_forks and not self.feasible(st):
                    self.stats['pruned'] += 1
                    continue
                self.push(st)
            else:
                self.stats['pruned'] += 1
        return True

    def values_of(self, s, t, limit=400):
        """feasible values of an int term"""
        base = list(s.pc.values())
        cl = T._const_leaves(t) if t.op == 'ite' else None
        if cl is not None:
            return sorted(cl), None
        if t.lo is not None and t.hi is not None and t.hi - t.lo <= 16:
            return list(range(t.lo, t.hi + 1)), None
        out = []
        blk = []
        probe = T.fresh('probe', 'I', t.lo, t.hi)
        while True:
            st, m = self.session.check(base + blk + [T.Eq(probe, t)], feas=True)
            if st == 'unsat':
                return sorted(out), None
            if st == 'unknown' or len(out) >= limit:
                raise EngineUnsupported('too many values of an integer')
            v = m[probe.args[0]]
            out.append(v)
            blk.append(T.Ne(t, v))

    def concretise(self, s, t):
        if t.id in s.ints:
            raise EngineUnsupported('integer already concrete')
        vals, _ = self.values_of(s, t)
        self.stats['forks'] += 1
        n = 0
        for v in vals:
            c = T.Eq(t, v)
            if c is False:
                continue
            k = None
            self.state = s
            if type(c) is Term:
                k = self.known(c)
                if k is False:
                    continue
            b = self.clone(s)
            if add_pc(b.pc, c):
                b.ints[t.id] = v
                if len(vals) > 4 and not self.feasible(b):
                    continue
                n += 1
                self.repush(b)

    def split_floor(self, s, t):
        base = list(s.pc.values())
        blk = []
        cnt = 0
        while True:
            st, m = self.session.check(base + blk + [T.Eq(T.Var('probe!r%d' % t.id, 'R'), t)], feas=True)
            if st == 'unsat':
                return
            if st == 'unknown' or cnt > 200:
                raise EngineUnsupported('floor of an unbounded real')
            import math
            v = math.floor(m['probe!r%d' % t.id])
            c = T.And(T.Le(Fraction(v), t), T.Lt(t, Fraction(v + 1)))
            b = self.clone(s)
            if add_pc(b.pc, c):
                b.floors[t.id] = v
                self.repush(b)
            blk.append(T.Not(c))
            cnt += 1

    def upgrade(self, s, lst):
        """Turn a plain list into a guarded list, everywhere in the state."""
        g = GList([], type(lst))
        memo = {id(lst): g}
        n = self.clone(s, memo)
        g.items = [(True, self.cl(v, memo)) for v in lst]
        self.repush(n)

    # ---------------------------------------------------------------- cloning
    def interp_class(self, tp):
        r = _ownedtypes.get(tp)
        if r is None:
            r = _ownedtypes[tp] = self.interp_module(getattr(tp, '__module__', '') or '') and not issubclass(tp, (type, enum.Enum, BaseException, tuple))
        return r

    def interp_module(self, name):
        return any(name == p or name.startswith(p + '.') for p in self.interp_prefixes)

    def clone(self, s, memo=None):
        self.stats['states'] += 1
        memo = {} if memo is None else memo
        n = State()
        n.pc = dict(s.pc)
        n.ints = dict(s.ints)
        n.floors = dict(s.floors)
        n.tag = s.tag
        n.exc = self.cl(s.exc, memo)
        n.notes = {k: self.cl(v, memo) for k, v in s.notes.items()}
        n.over = {k: (d, self.cl(v, memo)) for k, (d, v) in s.over.items()}
        n.root = self.cl(s.root, memo)
        n.frames = [self.clframe(f, memo) for f in s.frames]
        return n

    def clframe(self, f, memo):
        k = id(f)
        if k in memo:
            return memo[k]
        g = Frame.__new__(Frame)
        memo[k] = g
        g.ci, g.ip, g.glob, g.kw, g.mode = f.ci, f.ip, f.glob, f.kw, f.mode
        cl = self.cl
        g.loc = [cl(v, memo) for v in f.loc]
        g.stack = [cl(v, memo) for v in f.stack]
        g.names = cl(f.names, memo)
        g.loops = dict(f.loops)
        g.wl = dict(f.wl)
        g.gen = cl(f.gen, memo)
        return g

    def cl(self, v, memo):
        tp = type(v)
        if tp in _sharedtypes:
            return v
        if isinstance(v, SHARED) and tp not in (VMFunction,):
            _sharedtypes.add(tp)
            return v
        k = id(v)
        r = memo.get(k)
        if r is not None:
            return r
        if tp is list:
            r = memo[k] = []
            r.extend([self.cl(x, memo) for x in v])
            return r
        if tp is tuple:
            r = tuple([self.cl(x, memo) for x in v])
            if all(a is b for a, b in zip(r, v)):
                r = v
            memo[k] = r
            return r
        if tp is dict:
            r = memo[k] = {}
            for a, b in v.items():
                r[self.cl(a, memo)] = self.cl(b, memo)
            return r
        if tp is SymArray:
            r = SymArray(self.cl(v.buf, memo), v.idx, v.dtype)
            memo[k] = r
            return r
        if tp is Buffer:
            if v.data and any(type(x) is not Term and type(x) not in (int, float, bool) for x in v.data):
                r = memo[k] = Buffer(None)
                r.data = [self.cl(x, memo) for x in v.data]
            else:
                r = memo[k] = Buffer(list(v.data))
            return r
        if tp is SymRecArray:
            r = memo[k] = SymRecArray(None, v.dtype)
            r.fields = {n: self.cl(a, memo) for n, a in v.fields.items()}
            return r
        if tp is SymRecord:
            r = memo[k] = SymRecord(None, v.ix)
            r.arr = self.cl(v.arr, memo)
            return r
        if tp is GList:
            r = memo[k] = GList([], v.kind)
            r.items = [(g, self.cl(x, memo)) for g, x in v.items]
            return r
        if tp is Cell:
            r = memo[k] = Cell()
            r.v = self.cl(v.v, memo)
            return r
        if tp is VMFunction:
            r = memo[k] = VMFunction(v.code, v.globals, v.name)
            r.defaults = self.cl(v.defaults, memo)
            r.kwdefaults = self.cl(v.kwdefaults, memo)
            r.closure = tuple(self.cl(c, memo) for c in v.closure)
            return r
        if tp is VMMethod:
            r = memo[k] = VMMethod(v.func, None)
            r.func = self.cl(v.func, memo)
            r.self = self.cl(v.self, memo)
            return r
        if tp is NMethod:
            r = memo[k] = NMethod(None, v.name)
            r.self = self.cl(v.self, memo)
            return r
        if tp is VMIter:
            r = memo[k] = VMIter(None, v.i)
            r.seq = self.cl(v.seq, memo)
            return r
        if tp is VMGenerator:
            r = memo[k] = VMGenerator(None)
            r.done, r.running = v.done, v.running
            r.frame = self.clframe(v.frame, memo) if v.frame is not None else None
            return r
        if tp is MaskedSel:
            r = memo[k] = MaskedSel.__new__(MaskedSel)
            r.arr = self.cl(v.arr, memo)
            r.mask = self.cl(v.mask, memo)
            return r
        if tp is set:
            r = memo[k] = set(self.cl(x, memo) for x in v)
            return r
        if tp is deque:
            r = memo[k] = deque()
            r.extend([self.cl(x, memo) for x in v])
            return r
        if tp is defaultdict:
            r = memo[k] = defaultdict(v.default_factory)
            for a, b in v.items():
                r[a] = self.cl(b, memo)
            return r
        if tp is OrderedDict:
            r = memo[k] = OrderedDict()
            for a, b in v.items():
                r[a] = self.cl(b, memo)
            return r
        if tp is np.ndarray:
            r = memo[k] = v.copy()
            return r
        if tp is types.MethodType:
            o = self.cl(v.__self__, memo)
            r = memo[k] = v if o is v.__self__ else types.MethodType(v.__func__, o)
            return r
        if hasattr(tp, 'vm_clone'):
            r = v.vm_clone(self, memo)
            memo[k] = r
            return r
        if isinstance(v, BaseException):
            if all(type(a) in _sharedtypes for a in v.args):
                return v
            return v
        if self.interp_class(tp):
            r = memo[k] = tp.__new__(tp) if tp.__new__ is object.__new__ else object.__new__(tp)
            d = getattr(v, '__dict__', None)
            if d is not None:
                for a, b in d.items():
                    object.__setattr__(r, a, self.cl(b, memo))
            for c in tp.__mro__:
                for a in getattr(c, '__slots__', ()) or ():
                    if hasattr(v, a):
                        object.__setattr__(r, a, self.cl(getattr(v, a), memo))
            return r
        if isinstance(v, tuple):     # named tuples
            r = tuple.__new__(tp, [self.cl(x, memo) for x in v])
            memo[k] = r
            return r
        if tp in _OPAQUE_MUTABLE:
            raise EngineUnsupported('cannot clone %r' % tp)
        return v

    # ---------------------------------------------------------------- merging
    def merge(self, a, b):
        if len(a.frames) != len(b.frames) or a.tag != b.tag:
            return None
        for f, g in zip(a.frames, b.frames):
            if f.ci is not g.ci or f.ip != g.ip or len(f.stack) != len(g.stack) or f.mode != g.mode or f.kw != g.kw:
                return None
        pa, pb = a.pc, b.pc
        common = {k: v for k, v in pa.items() if k in pb}
        ra = [v for k, v in pa.items() if k not in common]
        rb = [v for k, v in pb.items() if k not in common]
        sel = None
        for x in ra:
            if T.Not(x).id in pb:
                sel = x
                break
        if sel is None:
            if not ra or not rb:
                # one subsumes the other: states are disjoint by construction, so use the explicit one
                sel = T.And(*ra) if ra else T.Not(T.And(*rb))
            else:
                sel = T.And(*ra) if len(ra) <= len(rb) else T.Not(T.And(*rb))
        if type(sel) is not Term:
            return None
        M = Merger(self, sel, {}, {}, {})
        try:
            n = State()
            n.tag = a.tag
            n.frames = [M.frame(f, g) for f, g in zip(a.frames, b.frames)]
            n.exc = M.v(a.exc, b.exc)
            if set(a.notes) != set(b.notes):
                raise Unmergeable('notes')
            n.notes = {k: M.v(a.notes[k], b.notes[k]) for k in a.notes}
            n.root = M.v(a.root, b.root)
            over = {}
            for k in set(a.over) | set(b.over):
                if k in a.over and k in b.over:
                    over[k] = (a.over[k][0], M.v(a.over[k][1], b.over[k][1]))
                else:
                    d, v = (a.over.get(k) or b.over.get(k))
                    o = d.get(k[1], UNBOUND)
                    # a state without overlay still sees the native value
                    if not same_native(v, o):
                        raise Unmergeable('module state %s' % k[1])
            n.over = over
        except Unmergeable as e:
            self.unmerge_reasons[str(e)] += 1
            return None
        n.pc = common
        if not add_pc(n.pc, T.Or(T.And(*ra), T.And(*rb))):
            return None
        n.ints = {k: v for k, v in a.ints.items() if b.ints.get(k) == v}
        n.floors = {k: v for k, v in a.floors.items() if b.floors.get(k) == v}
        self.stats['merges'] += 1
        return n

    # ---------------------------------------------------------------- exceptions
    def unwind(self, s, exc):
        """Deliver a Python exception; True when the state ended."""
        while s.frames:
            f = s.frames[-1]
            if f.mode == 'base':
                self.finish(s, 'raise', exc)
                return True
            ip = f.ip
            h = None
            for st, en, tg, depth, lasti in f.ci.exc:
                if st <= ip < en:
                    h = (tg, depth, lasti)     # innermost entries come as separate ranges
                    break
            if h is not None:
                tg, depth, lasti = h
                del f.stack[depth:]
                if lasti:
                    f.stack.append(ip)
                f.stack.append(exc)
                f.ip = tg
                return False
            s.frames.pop()
            if f.gen is not None:
                f.gen.done = True
                f.gen.frame = None
                f.gen.running = False
            if s.frames:
                # the caller's ip already points behind the call
                s.frames[-1].ip -= 1
                if isinstance(exc, StopIteration) and f.gen is not None:
                    exc = RuntimeError('generator raised StopIteration')
        return True

    # ---------------------------------------------------------------- calls
    def interpretable(self, fn):
        if type(fn) is VMFunction:
            return True
        if type(fn) is types.FunctionType:
            return self.interp_module(fn.__globals__.get('__name__', '') or '')
        return False

    def call(self, s, f, fn, args, kwargs):
        """Call from frame f: pushes a result on f.stack now or later."""
        tp = type(fn)
        h = None
        try:
            h = self.intercepts.get(fn)
        except TypeError:
            pass
        except BaseException as e:
            if not isinstance(e, (NeedConcrete, EngineUnsupported)):
                raise
        if h is not None:
            r = h(self, s, f, args, kwargs)
            if r is not PUSHED:
                f.stack.append(r)
            return
        if tp is types.FunctionType or tp is VMFunction:
            if self.interpretable(fn):
                self.enter(s, fn, args, kwargs)
                return
            return self.native(s, f, fn, args, kwargs)
        if tp is VMMethod:
            self.enter(s, fn.func, [fn.self] + args, kwargs)
            return
        if tp is types.MethodType:
            if self.interpretable(fn.__func__):
                self.enter(s, fn.__func__, [fn.__self__] + args, kwargs)
                return
            h = self.intercepts.get(fn.__func__)
            if h is not None:
                r = h(self, s, f, [fn.__self__] + args, kwargs)
                if r is not PUSHED:
                    f.stack.append(r)
                return
            fields = getattr(fn.__self__, '_fields', None) if isinstance(fn.__self__, (tuple, type)) else None
            if fields is not None and fn.__name__ in ('_asdict', '_replace', '_make') and not any(type(a) in (GList, VMIter, VMGenerator) for a in args):
                f.stack.append(fn(*args, **kwargs))
                return
            return self.native(s, f, fn, args, kwargs)
        if isinstance(fn, type):
            if issubclass(fn, tuple) and hasattr(fn, '_fields') and type(fn.__new__) is types.FunctionType:
                # generated constructor of a named tuple: stores its arguments
                f.stack.append(fn(*args, **kwargs))
                return
            if self.interp_class(fn):
                init = getattr(fn, '__init__', None)
                o = fn.__new__(fn) if fn.__new__ is object.__new__ else fn.__new__(fn, *args, **kwargs)
                if type(init) is types.FunctionType and self.interpretable(init):
                    self.enter(s, init, [o] + args, kwargs)
                    s.frames[-1].mode = 'init'
                    f.stack.append(o)
                    return
                if init is object.__init__:
                    f.stack.append(o)
                    return
            return self.native(s, f, fn, args, kwargs)
        c = getattr(tp, '__call__', None)
        if type(c) is types.FunctionType and self.interpretable(c) and self.interp_class(tp):
            self.enter(s, c, [fn] + args, kwargs)
            return
        return self.native(s, f, fn, args, kwargs)

    def native(self, s, f, fn, args, kwargs):
        from . import intrinsics
        r = intrinsics.native_call(self, s, f, fn, args, kwargs)
        if r is not PUSHED:
            f.stack.append(r)

    def enter(self, s, fn, args, kwargs):
        if len(s.frames) > 120:
            raise EngineBudget('call depth')
        if type(fn) is VMFunction:
            code, glob, defaults, kwdef, closure = fn.code, fn.globals, fn.defaults, fn.kwdefaults, fn.closure
            name = fn.name
        else:
            code, glob, defaults, kwdef = fn.__code__, fn.__globals__, fn.__defaults__, fn.__kwdefaults__
            closure = fn.__closure__ or ()
            name = fn.__name__
        ci = codeinfo(code)
        fr = Frame(ci, glob)
        self.functions.add((glob.get('__name__', '?'), code.co_qualname, code.co_firstlineno))
        loc = fr.loc
        n = code.co_argcount
        nko = code.co_kwonlyargcount
        names = code.co_varnames
        if len(args) > n:
            if not code.co_flags & 4:
                raise TypeError('%s() takes %d positional arguments but %d were given' % (name, n, len(args)))
            loc[n + nko] = tuple(args[n:])
        elif code.co_flags & 4:
            loc[n + nko] = ()
        for k, v in enumerate(args[:n]):
            loc[k] = v
        extra = {}
        for k, v in kwargs.items():
            try:
                ix = names.index(k, code.co_posonlyargcount, n + nko)
            except ValueError:
                if code.co_flags & 8:
                    extra[k] = v
                    continue
                raise TypeError("%s() got an unexpected keyword argument '%s'" % (name, k))
            if loc[ix] is not UNBOUND:
                raise TypeError("%s() got multiple values for argument '%s'" % (name, k))
            loc[ix] = v
        if code.co_flags & 8:
            loc[n + nko + (1 if code.co_flags & 4 else 0)] = extra
        nd = len(defaults or ())
        for k in range(n):
            if loc[k] is UNBOUND:
                if k >= n - nd:
                    loc[k] = defaults[k - (n - nd)]
                else:
                    raise TypeError("%s() missing required positional argument: '%s'" % (name, names[k]))
        for k in range(n, n + nko):
            if loc[k] is UNBOUND:
                if kwdef and names[k] in kwdef:
                    loc[k] = kwdef[names[k]]
                else:
                    raise TypeError("%s() missing keyword-only argument '%s'" % (name, names[k]))
        for k, c in enumerate(closure):
            if type(c) is not Cell:
                try:
                    c = Cell(c.cell_contents)
                except ValueError:
                    c = Cell()
            loc[ci.freebase + k] = c
        s.frames.append(fr)

    def ret(self, s, f, v):
        """Return v from the top frame f."""
        s.frames.pop()
        if f.gen is not None:
            f.gen.done = True
            f.gen.frame = None
            f.gen.running = False
            c = s.frames[-1]
            if f.mode == 'foriter':
                # c.ip points behind FOR_ITER; exhausted: pop the iterator and jump behind END_FOR
                tgt = c.ci.ins[c.ip - 1][3]
                c.stack.pop()
                c.ip = tgt + 1
                return
            if f.mode == 'send':
                tgt = c.ci.ins[c.ip - 1][3]
                c.stack.append(v)
                c.ip = tgt
                return
            if f.mode == 'nextdef':
                d = c.stack.pop()
                c.stack.append(d)
                return
            c.ip -= 1
            raise_exc = StopIteration(v)
            self.unwind(s, raise_exc)
            return
        c = s.frames[-1]
        if f.mode == 'init':
            return
        if c.mode == 'base':
            self.finish(s, 'return', v)
            return
        if f.mode == 'drop':
            return
        if f.mode == 'truth':
            c.stack.append(v)
            return
        c.stack.append(v)

    # ---------------------------------------------------------------- globals
    def getglobal(self, s, d, name):
        o = s.over.get((id(d), name))
        if o is not None:
            v = o[1]
            if v is UNBOUND:
                raise KeyError(name)
            return v
        v = d[name]
        tp = type(v)
        if tp in (list, dict, set, np.ndarray, deque, defaultdict) and self.interp_module(d.get('__name__', '') or ''):
            v = self.own(v)
            s.over[(id(d), name)] = (d, v)
        return v

    def own(self, v):
        """State-private copy of a native mutable value"""
        return self._own(v, {})

    def _own(self, v, memo):
        tp = type(v)
        k = id(v)
        if k in memo:
            return memo[k]
        if tp is np.ndarray:
            r = memo[k] = SymArray.from_np(v)
            return r
        if tp is list:
            r = memo[k] = []
            r.extend(self._own(x, memo) for x in v)
            return r
        if tp is dict:
            r = memo[k] = {}
            for a, b in v.items():
                r[a] = self._own(b, memo)
            return r
        if tp is tuple:
            return tuple(self._own(x, memo) for x in v)
        if tp in (set, deque, defaultdict):
            return self.cl(v, {})
        return v

    def setglobal(self, s, d, name, v):
        s.over[(id(d), name)] = (d, v)

    # ---------------------------------------------------------------- attribute access
    def getattr(self, s, o, name):
        tp = type(o)
        if tp is types.ModuleType:
            d = o.__dict__
            if (id(d), name) in s.over or name in d:
                try:
                    return self.getglobal(s, d, name)
                except KeyError:
                    raise AttributeError("module '%s' has no attribute '%s'" % (o.__name__, name))
            return getattr(o, name)
        if tp is list or tp is dict or tp is deque or tp is set or tp is defaultdict or tp is OrderedDict:
            getattr(o, name)
            return NMethod(o, name)
        if tp is GList or tp is SymArray or tp is SymRecArray or tp is MaskedSel:
            v = getattr(o, name)
            if callable(v) and not isinstance(v, (SymArray, SymRecArray, MaskedSel)):
                return NMethod(o, name)
            return v
        if tp is Super:
            mro = type(o.obj).__mro__ if not isinstance(o.obj, type) else o.obj.__mro__
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    if type(a) is types.FunctionType:
                        return VMMethod(a, o.obj) if self.interpretable(a) else types.MethodType(a, o.obj)
                    return a.__get__(o.obj, type(o.obj)) if hasattr(a, '__get__') else a
            raise AttributeError(name)
        if tp is SV:
            if name in ('real',):
                return o
            v = getattr(o, name)
            return v
        if self.interp_class(tp) and not isinstance(o, type):
            d = getattr(o, '__dict__', None)
            a = None
            for c in tp.__mro__:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    break
            if type(a) is property and self.interpretable(a.fget):
                return CallLater(a.fget, [o])
            if d is not None and name in d:
                return d[name]
            if type(a) is types.FunctionType:
                return VMMethod(a, o) if self.interpretable(a) else types.MethodType(a, o)
            if a is None:
                for c in tp.__mro__:
                    if '__getattr__' in c.__dict__ and self.interpretable(c.__dict__['__getattr__']):
                        return CallLater(c.__dict__['__getattr__'], [o, name])
            return getattr(o, name)
        if isinstance(o, type) and self.interp_class(o):
            v = getattr(o, name)
            if type(v) in (list, dict) and name in o.__dict__:
                key = (id(o.__dict__), name)
                if key in s.over:
                    return s.over[key][1]
            return v
        return getattr(o, name)

    # ---------------------------------------------------------------- instructions
    def op_RESUME(self, s, f, arg, argval, tgt): pass
    op_NOP = op_RESUME
    op_EXTENDED_ARG = op_RESUME
    op_CACHE = op_RESUME
    op_PRECALL = op_RESUME

    def op_LOAD_FAST(self, s, f, arg, argval, tgt):
        v = f.loc[arg]
        if v is UNBOUND:
            raise UnboundLocalError("cannot access local variable '%s' where it is not associated with a value" % argval)
        f.stack.append(v)
    op_LOAD_FAST_CHECK = op_LOAD_FAST

    def op_LOAD_FAST_AND_CLEAR(self, s, f, arg, argval, tgt):
        f.stack.append(f.loc[arg])
        f.loc[arg] = UNBOUND

    def op_STORE_FAST(self, s, f, arg, argval, tgt):
        f.loc[arg] = f.stack.pop()

    def op_DELETE_FAST(self, s, f, arg, argval, tgt):
        f.loc[arg] = UNBOUND

    def op_LOAD_CLOSURE(self, s, f, arg, argval, tgt):
        f.stack.append(f.loc[arg])

    def op_MAKE_CELL(self, s, f, arg, argval, tgt):
        f.loc[arg] = Cell(f.loc[arg])

    def op_COPY_FREE_VARS(self, s, f, arg, argval, tgt): pass

    def op_LOAD_DEREF(self, s, f, arg, argval, tgt):
        v = f.loc[arg].v
        if v is UNBOUND:
            raise NameError("cannot access free variable '%s'" % argval)
        f.stack.append(v)

    def op_STORE_DEREF(self, s, f, arg, argval, tgt):
        f.loc[arg].v = f.stack.pop()

    def op_DELETE_DEREF(self, s, f, arg, argval, tgt):
        f.loc[arg].v = UNBOUND

    def op_LOAD_CONST(self, s, f, arg, argval, tgt):
        f.stack.append(argval)

    def op_LOAD_GLOBAL(self, s, f, arg, argval, tgt):
        if arg & 1:
            f.stack.append(NULL)
        f.stack.append(self.lookup_global(s, f, argval))

    def lookup_global(self, s, f, name):
        g = f.glob
        if (id(g), name) in s.over or name in g:
            try:
                return self.getglobal(s, g, name)
            except KeyError:
                pass
        b = g.get('__builtins__', __builtins__)
        b = b if isinstance(b, dict) else b.__dict__
        if name in b:
            return b[name]
        raise NameError("name '%s' is not defined" % name)

    def op_LOAD_NAME(self, s, f, arg, argval, tgt):
        if f.names is not None and argval in f.names:
            f.stack.append(f.names[argval])
            return
        f.stack.append(self.lookup_global(s, f, argval))

    def op_STORE_NAME(self, s, f, arg, argval, tgt):
        f.names[argval] = f.stack.pop()

    def op_STORE_GLOBAL(self, s, f, arg, argval, tgt):
        self.setglobal(s, f.glob, argval, f.stack.pop())

    def op_DELETE_GLOBAL(self, s, f, arg, argval, tgt):
        self.setglobal(s, f.glob, argval, UNBOUND)

    def op_LOAD_ATTR(self, s, f, arg, argval, tgt):
        o = f.stack[-1]
        v = self.getattr(s, o, argval)
        f.stack.pop()
        if arg & 1:
            f.stack.append(NULL)
        if type(v) is CallLater:
            if arg & 1:
                # result must land above NULL: same layout as a value
                pass
            self.enter(s, v.fn, v.args, {})
            return
        f.stack.append(v)

    def op_LOAD_SUPER_ATTR(self, s, f, arg, argval, tgt):
        self_ = f.stack.pop()
        cls = f.stack.pop()
        f.stack.pop()
        v = self.getattr(s, Super(cls, self_), argval)
        if arg & 1:
            f.stack.append(NULL)
        f.stack.append(v)

    def op_STORE_ATTR(self, s, f, arg, argval, tgt):
        o = f.stack.pop()
        v = f.stack.pop()
        if type(o) is types.ModuleType:
            self.setglobal(s, o.__dict__, argval, v)
            return
        if isinstance(o, type):
            raise EngineUnsupported('class attribute store')
        tp = type(o)
        if self.interp_class(tp):
            for c in tp.__mro__:
                a = c.__dict__.get(argval)
                if type(a) is property and a.fset is not None and self.interpretable(a.fset):
                    self.enter(s, a.fset, [o, v], {})
                    s.frames[-1].mode = 'drop'
                    return
        setattr(o, argval, v)

    def op_DELETE_ATTR(self, s, f, arg, argval, tgt):
        delattr(f.stack.pop(), argval)

    # operators
    def op_BINARY_OP(self, s, f, arg, argval, tgt):
        b = f.stack[-1]
        a = f.stack[-2]
        r = self.binop(s, f, arg, a, b)
        if r is PUSHED:
            return
        f.stack[-2:] = [r]

    def binop(self, s, f, arg, a, b):
        ta, tb = type(a), type(b)
        fn, ifn = _BINOPS[arg]
        if ta is GList or tb is GList:
            if fn is operator.add:
                if arg >= 13:
                    if ta is list:
                        raise EngineUnsupported('in-place extend of a list by a guarded list')
                    if ta is GList:
                        a.extend(b)
                        return a
                x = a.items if ta is GList else [(True, v) for v in a]
                y = b.items if tb is GList else [(True, v) for v in b]
                kind = a.kind if ta is GList else b.kind
                return GList(list(x) + list(y), kind)
            raise EngineUnsupported('operator on guarded list')
        if (ta is list or ta is tuple or tb is list or tb is tuple) and (ta is SV or tb is SV):
            # list * symbolic int
            t = a if ta is SV else b
            if t.dt is None or isinstance(t.dt, np.dtype) and t.dt.kind in 'iu' and t.dt is None:
                raise NeedConcrete(t.t)
        if ta is str and fn is operator.mod:
            from . import intrinsics
            return intrinsics.str_percent(a, b)
        if ta is SymStr or tb is SymStr or ta is SymText or tb is SymText:
            return fn(a, b)
        # interpreted operator overloads
        for x, y, nm in ((a, b, _OPNAMES.get(fn)), (b, a, _ROPNAMES.get(fn))):
            if nm and self.interp_class(type(x)) and not isinstance(x, type):
                m = getattr(type(x), nm, None)
                if m is not None and self.interpretable(m):
                    f.stack[-2:] = []
                    self.enter(s, m, [x, y], {})
                    return PUSHED
        if arg >= 13:
            if ta is np.ndarray:
                raise EngineUnsupported('in-place update of a native array')
            return ifn(a, b)
        if ta is np.ndarray:
            a = SymArray.from_np(a)
        if tb is np.ndarray:
            b = SymArray.from_np(b)
        return fn(a, b)

    def op_UNARY_NOT(self, s, f, arg, argval, tgt):
        v = f.stack[-1]
        t = self.truth_term(v)
        f.stack[-1] = V.mk(T.Not(t), None) if type(t) is Term else (not t)

    def op_UNARY_NEGATIVE(self, s, f, arg, argval, tgt):
        f.stack[-1] = -f.stack[-1]

    def op_UNARY_INVERT(self, s, f, arg, argval, tgt):
        f.stack[-1] = ~f.stack[-1]

    def truth_term(self, v):
        tp = type(v)
        if tp is bool:
            return v
        if tp is SV:
            return V.truth(v)
        if tp is GList or tp is SymText:
            return v.nonempty()
        if tp is SymArray:
            if v.size == 1:
                return V.truth(V.mk(V.elem_term(v.raw()[0]), v.dtype))
            return bool(v)
        return bool(v)

    def op_COMPARE_OP(self, s, f, arg, argval, tgt):
        b = f.stack[-1]
        a = f.stack[-2]
        op = _CMPS[argval]
        ta, tb = type(a), type(b)
        if op in (operator.eq, operator.ne) and (ta in (tuple, list, dict) or ta is GList or tb is GList):
            r = sym_eq(a, b)
            if op is operator.ne:
                r = V.mk(T.Not(V.truth(r)), None) if type(r) is SV else not r
        else:
            for x, y, nm in ((a, b, _CMPNAMES[argval]),):
                if self.interp_class(ta) and not isinstance(x, type):
                    m = getattr(ta, nm, None)
                    if type(m) is types.FunctionType and self.interpretable(m):
                        f.stack[-2:] = []
                        self.enter(s, m, [x, y], {})
                        return
            if ta is np.ndarray:
                a = SymArray.from_np(a)
            if tb is np.ndarray:
                b = SymArray.from_np(b)
            r = op(a, b)
        f.stack[-2:] = [r]

    def op_IS_OP(self, s, f, arg, argval, tgt):
        b = f.stack.pop()
        a = f.stack.pop()
        r = a is b
        if not r and type(a) is bool and type(b) is bool:
            r = a == b
        if type(a) is SV and isinstance(b, bool) and a.t.sort == 'B' and a.dt is None:
            f.stack.append(V.mk(T.Not(a.t) if (not b) ^ bool(arg) else a.t, None))
            return
        f.stack.append(r ^ bool(arg))

    def op_CONTAINS_OP(self, s, f, arg, argval, tgt):
        c = f.stack[-1]
        x = f.stack[-2]
        m = getattr(type(c), '__contains__', None)
        if self.interp_class(type(c)) and self.interpretable(m):
            raise EngineUnsupported('interpreted __contains__')
        r = sym_contains(c, x)
        if arg & 1:
            r = V.mk(T.Not(V.truth(r)), None) if type(r) is SV else not r
        f.stack[-2:] = [r]

    def op_BINARY_SUBSCR(self, s, f, arg, argval, tgt):
        k = f.stack[-1]
        o = f.stack[-2]
        r = self.getitem(s, f, o, k)
        if r is PUSHED:
            return
        f.stack[-2:] = [r]

    def getitem(self, s, f, o, k):
        tp = type(o)
        if tp is GList or tp is SymText:
            return o.getitem(k)
        if (tp is list or tp is tuple or tp is range) and type(k) is SV:
            t = k.t
            if t.sort == 'R':
                raise TypeError('list indices must be integers or slices, not float')
            kk = self.known_int(t) if type(t) is Term else t
            if kk is not None:
                return o[kk]
            if len(o) and all(V.is_scalar(x) for x in o):
                n = len(o)
                if not V.decide_ok(T.in_range(t, -n, n - 1)):
                    raise IndexError('list index out of range')
                return index_ite(o, t)
            raise NeedConcrete(t)
        if tp is np.ndarray:
            o = SymArray.from_np(o)
        if (tp is dict or tp is defaultdict) and type(k) is SV:
            kk = self.known_int(k.t)
            if kk is None:
                raise NeedConcrete(k.t)
            k = kk
        if self.interp_class(tp) and not isinstance(o, type):
            m = getattr(tp, '__getitem__', None)
            if m is not None and self.interpretable(m):
                f.stack[-2:] = []
                self.enter(s, m, [o, k], {})
                return PUSHED
        if tp is defaultdict and type(o.default_factory) is not type(None) and k not in o:
            if o.default_factory in (list, int, float, dict, set):
                o[k] = o.default_factory()
                return o[k]
            raise EngineUnsupported('default factory')
        if isinstance(k, slice) and tp in (list, tuple, str):
            for p in (k.start, k.stop, k.step):
                if type(p) is SV:
                    kk = self.known_int(p.t)
                    if kk is None:
                        raise NeedConcrete(p.t)
            k = slice(*[self.conc(p) for p in (k.start, k.stop, k.step)])
        return o[k]

    def conc(self, p):
        if type(p) is SV:
            kk = self.known_int(p.t)
            if kk is None:
                raise NeedConcrete(p.t)
            return kk
        return p

    def op_STORE_SUBSCR(self, s, f, arg, argval, tgt):
        k = f.stack[-1]
        o = f.stack[-2]
        v = f.stack[-3]
        tp = type(o)
        if tp is list and type(k) is SV:
            t = k.t
            kk = self.known_int(t)
            if kk is None:
                if V.is_scalar(v) and all(V.is_scalar(x) for x in o):
                    n = len(o)
                    if not V.decide_ok(T.in_range(t, -n, n - 1)):
                        raise IndexError('list assignment index out of range')
                    new = []
                    for i, x in enumerate(o):
                        c = T.Or(T.Eq(t, i), T.Eq(t, i - n))
                        try:
                            new.append(merge_scalar(c, v, x))
                        except Unmergeable:
                            raise NeedConcrete(t)
                    o[:] = new
                    del f.stack[-3:]
                    return
                raise NeedConcrete(t)
            k = kk
        elif tp is dict or tp is defaultdict:
            k = self.conc(k)
        elif tp is np.ndarray:
            raise EngineUnsupported('store into a native array')
        if self.interp_class(tp):
            m = getattr(tp, '__setitem__', None)
            if m is not None and self.interpretable(m):
                del f.stack[-3:]
                self.enter(s, m, [o, k, v], {})
                s.frames[-1].mode = 'drop'
                return
        if tp is list and isinstance(k, slice) and type(v) is GList:
            raise EngineUnsupported('slice store of guarded list')
        o[k] = v
        del f.stack[-3:]

    def op_DELETE_SUBSCR(self, s, f, arg, argval, tgt):
        k = f.stack[-1]
        o = f.stack[-2]
        if type(o) is GList:
            if isinstance(k, int) and k in (-1, 0):
                o.pop(k)
            else:
                raise EngineUnsupported('del in guarded list')
        else:
            del o[self.conc(k)]
        del f.stack[-2:]

    def op_BINARY_SLICE(self, s, f, arg, argval, tgt):
        o, a, b = f.stack[-3:]
        r = self.getitem(s, f, o, slice(a, b))
        f.stack[-3:] = [r]

    def op_STORE_SLICE(self, s, f, arg, argval, tgt):
        v, o, a, b = f.stack[-4:]
        o[slice(self.conc(a), self.conc(b))] = v
        del f.stack[-4:]

    # stack
    def op_POP_TOP(self, s, f, arg, argval, tgt):
        f.stack.pop()

    def op_PUSH_NULL(self, s, f, arg, argval, tgt):
        f.stack.append(NULL)

    def op_COPY(self, s, f, arg, argval, tgt):
        f.stack.append(f.stack[-arg])

    def op_SWAP(self, s, f, arg, argval, tgt):
        st = f.stack
        st[-1], st[-arg] = st[-arg], st[-1]

    # jumps
    def arrive(self, s, f, tgt, back):
        if tgt in f.ci.loops:
            if tgt in f.ci.work and self.splitcells:
                f.wl[tgt] = -worklen(f.loc[f.ci.work[tgt]])
            if back:
                n = f.loops.get(tgt, 0) + 1
                f.loops[tgt] = n
                return n
            f.loops[tgt] = 0
        return 0

    def op_JUMP_FORWARD(self, s, f, arg, argval, tgt):
        self.arrive(s, f, tgt, False)
        f.ip = tgt

    def op_JUMP_BACKWARD(self, s, f, arg, argval, tgt):
        n = self.arrive(s, f, tgt, True)
        f.ip = tgt
        if f.ci.ins[tgt][0] == 'FOR_ITER':
            return
        if n > self.max_unwind:
            if self.feasible(s):
                self.finish(s, 'unwind', (f.ci.code.co_qualname, f.ci.offsets[tgt]))
            else:
                self.stats['pruned'] += 1
            return True
        if s.pc and n >= self.loopcheck:
            # prune iterations which cannot happen
            key = tuple(s.pc)
            ok = self.feas_cache.get(key)
            if ok is None:
                ok = self.feas_cache[key] = self.feasible(s)
            if not ok:
                self.stats['pruned'] += 1
                return True
    op_JUMP_BACKWARD_NO_INTERRUPT = op_JUMP_BACKWARD

    def _pjump(self, s, f, tgt, want):
        v = f.stack[-1]
        t = self.truth_term(v)
        f.stack.pop()
        if type(t) is Term:
            k = self.known(t) if not self.forkvals else self.decide_atoms(t)
            if k is None:
                nxt = f.ip
                # loop headers entered by fall-through / forward jump start counting
                self.arrive(s, f, tgt, False)
                self.arrive(s, f, nxt, False)
                if want:
                    return self.branch(s, t, tgt, nxt)
                return self.branch(s, t, nxt, tgt)
            t = k
        if bool(t) is want:
            self.arrive(s, f, tgt, False)
            f.ip = tgt
        else:
            self.arrive(s, f, f.ip, False)

    def op_POP_JUMP_IF_TRUE(self, s, f, arg, argval, tgt):
        return self._pjump(s, f, tgt, True)

    def op_POP_JUMP_IF_FALSE(self, s, f, arg, argval, tgt):
        return self._pjump(s, f, tgt, False)

    def op_POP_JUMP_IF_NONE(self, s, f, arg, argval, tgt):
        if f.stack.pop() is None:
            self.arrive(s, f, tgt, False)
            f.ip = tgt
        else:
            self.arrive(s, f, f.ip, False)

    def op_POP_JUMP_IF_NOT_NONE(self, s, f, arg, argval, tgt):
        if f.stack.pop() is not None:
            self.arrive(s, f, tgt, False)
            f.ip = tgt
        else:
            self.arrive(s, f, f.ip, False)

    # iteration
    def make_iter(self, s, f, v):
        tp = type(v)
        if tp in (list, tuple, range, str, GList, SymArray):
            return VMIter(v)
        if tp in (VMIter, VMGenerator):
            return v
        if tp in (dict, defaultdict, OrderedDict):
            return VMIter(list(v))
        if tp is np.ndarray:
            return VMIter(SymArray.from_np(v))
        if tp in (set, frozenset):
            return VMIter(list(v))
        if tp is deque:
            return VMIter(list(v))
        if tp in (SymRecArray,):
            return VMIter([v[k] for k in range(len(v))])
        if tp is SymRecord:
            return VMIter(list(v))
        if tp is MaskedSel:
            return VMIter(v.as_glist())
        if tp in (type({}.keys()), type({}.values()), type({}.items())):
            return VMIter(list(v))
        if self.interp_class(tp) and not isinstance(v, type):
            m = getattr(tp, '__iter__', None)
            if m is not None and self.interpretable(m):
                return CallLater(m, [v])
            m = getattr(tp, '__getitem__', None)
        if isinstance(v, (enum.EnumMeta,)):
            return VMIter(list(v))
        if tp is SymText:
            return VMIter(v.chars())
        if tp is SV:
            raise TypeError('object is not iterable')
        it = iter(v)
        if isinstance(it, (types.GeneratorType,)) or True:
            # opaque native iterator: materialise
            return VMIter(list(it))

    def op_GET_ITER(self, s, f, arg, argval, tgt):
        it = self.make_iter(s, f, f.stack[-1])
        f.stack.pop()
        if type(it) is CallLater:
            self.enter(s, it.fn, it.args, {})
            return
        f.stack.append(it)

    def op_FOR_ITER(self, s, f, arg, argval, tgt):
        it = f.stack[-1]
        tp = type(it)
        if tp is VMIter:
            seq = it.seq
            if type(seq) is GList:
                n = len(seq.items)
                if it.i < n:
                    g, v = seq.items[it.i]
                    if V.decide(g):
                        it.i += 1
                        f.stack.append(v)
                    else:
                        it.i += 1
                        h = f.ip - 1
                        f.ip = h
                        if h in f.ci.loops:
                            f.loops[h] = f.loops.get(h, 0) + 1
                    return
            elif it.i < len(seq):
                v = seq[it.i]
                it.i += 1
                f.stack.append(v)
                return
            f.stack.pop()
            f.ip = tgt + 1
            self.arrive(s, f, f.ip, False)
            return
        if tp is VMGenerator:
            if it.done:
                f.stack.pop()
                f.ip = tgt + 1
                return
            self.resume(s, it, 'foriter', None)
            return
        if self.interp_class(tp):
            raise EngineUnsupported('interpreted iterator')
        raise EngineUnsupported('iteration over %r' % tp)

    def resume(self, s, g, mode, sent):
        fr = g.frame
        if g.running:
            raise ValueError('generator already executing')
        g.running = True
        fr.mode = mode
        fr.gen = g
        fr.stack.append(sent)
        s.frames.append(fr)

    def op_END_FOR(self, s, f, arg, argval, tgt):
        f.stack.pop()
        f.stack.pop()

    def op_RETURN_GENERATOR(self, s, f, arg, argval, tgt):
        g = VMGenerator(f)
        f.gen = g
        s.frames.pop()
        mode = f.mode
        f.mode = 'gen'
        # resuming pushes a value which the following POP_TOP removes
        c = s.frames[-1]
        if c.mode == 'base':
            self.finish(s, 'return', g)
            return True
        c.stack.append(g)

    def op_YIELD_VALUE(self, s, f, arg, argval, tgt):
        v = f.stack.pop()
        s.frames.pop()
        g = f.gen
        g.running = False
        c = s.frames[-1]
        if f.mode == 'nextdef':
            c.stack.pop()
        c.stack.append(v)

    def op_GET_YIELD_FROM_ITER(self, s, f, arg, argval, tgt):
        self.op_GET_ITER(s, f, arg, argval, tgt)

    def op_SEND(self, s, f, arg, argval, tgt):
        v = f.stack[-1]
        it = f.stack[-2]
        if type(it) is VMGenerator:
            if it.done:
                f.stack.pop()
                f.stack.append(None)
                f.ip = tgt
                return
            f.stack.pop()
            self.resume(s, it, 'send', v)
            return
        if type(it) is VMIter:
            if type(it.seq) is GList:
                it.seq = it.seq.resolve()
            f.stack.pop()
            if it.i < len(it.seq):
                f.stack.append(it.seq[it.i])
                it.i += 1
            else:
                f.stack.append(None)
                f.ip = tgt
            return
        raise EngineUnsupported('yield from %r' % type(it))

    def op_END_SEND(self, s, f, arg, argval, tgt):
        del f.stack[-2]

    # building
    def op_BUILD_TUPLE(self, s, f, arg, argval, tgt):
        if arg:
            v = tuple(f.stack[-arg:])
            del f.stack[-arg:]
        else:
            v = ()
        f.stack.append(v)

    def op_BUILD_LIST(self, s, f, arg, argval, tgt):
        if arg:
            v = f.stack[-arg:]
            del f.stack[-arg:]
        else:
            v = []
        f.stack.append(v)

    def op_BUILD_SET(self, s, f, arg, argval, tgt):
        v = set([self.conc(x) for x in f.stack[-arg:]]) if arg else set()
        if arg:
            del f.stack[-arg:]
        f.stack.append(v)

    def op_BUILD_MAP(self, s, f, arg, argval, tgt):
        d = {}
        if arg:
            xs = f.stack[-2 * arg:]
            for k in range(arg):
                d[self.conc(xs[2 * k])] = xs[2 * k + 1]
            del f.stack[-2 * arg:]
        f.stack.append(d)

    def op_BUILD_CONST_KEY_MAP(self, s, f, arg, argval, tgt):
        keys = f.stack.pop()
        vals = f.stack[-arg:]
        del f.stack[-arg:]
        f.stack.append(dict(zip(keys, vals)))

    def op_BUILD_SLICE(self, s, f, arg, argval, tgt):
        xs = f.stack[-arg:]
        del f.stack[-arg:]
        f.stack.append(slice(*xs))

    def op_BUILD_STRING(self, s, f, arg, argval, tgt):
        xs = f.stack[-arg:]
        del f.stack[-arg:]
        if any(type(x) is SymStr for x in xs):
            f.stack.append(V._simpstr(xs))
        else:
            f.stack.append(''.join(xs))

    def op_FORMAT_VALUE(self, s, f, arg, argval, tgt):
        from . import intrinsics
        spec = ''
        if (arg & 4) == 4:
            spec = f.stack.pop()
        v = f.stack.pop()
        if arg & 3 == 1:
            v = intrinsics.to_str(v)
        elif arg & 3 == 2:
            v = intrinsics.to_repr(v)
        f.stack.append(intrinsics.fmt(v, spec))

    def op_LIST_APPEND(self, s, f, arg, argval, tgt):
        v = f.stack.pop()
        f.stack[-arg].append(v)

    def op_SET_ADD(self, s, f, arg, argval, tgt):
        v = self.conc(f.stack[-1])
        f.stack.pop()
        f.stack[-arg].add(v)

    def op_MAP_ADD(self, s, f, arg, argval, tgt):
        v = f.stack[-1]
        k = self.conc(f.stack[-2])
        del f.stack[-2:]
        f.stack[-arg][k] = v

    def op_LIST_EXTEND(self, s, f, arg, argval, tgt):
        v = f.stack[-1]
        if type(v) is GList:
            l = f.stack[-1 - arg]
            if type(l) is list:
                g = GList([(True, x) for x in l])
                g.extend(v)
                f.stack[-1 - arg] = g
                f.stack.pop()
                return
        if type(v) in (VMGenerator, VMIter):
            from . import intrinsics
            if type(v) is VMIter:
                v = list(intrinsics.iter_list(v))
                f.stack.pop()
                f.stack[-arg].extend(v)
                return
            # materialise the generator first, then retry the instruction
            f.ip -= 1
            f.stack.pop()
            self.enter(s, intrinsics.prelude('_list'), [v], {})
            return
        f.stack.pop()
        f.stack[-arg].extend(intrinsics_list(v))

    def op_SET_UPDATE(self, s, f, arg, argval, tgt):
        v = f.stack.pop()
        f.stack[-arg].update(v)

    def op_DICT_UPDATE(self, s, f, arg, argval, tgt):
        v = f.stack.pop()
        f.stack[-arg].update(v)
    op_DICT_MERGE = op_DICT_UPDATE

    def op_UNPACK_SEQUENCE(self, s, f, arg, argval, tgt):
        v = f.stack[-1]
        if type(v) is GList:
            v = v.resolve()
        if type(v) in (SymArray, SymRecord, SymRecArray):
            xs = list(v)
        elif type(v) is VMIter:
            from . import intrinsics
            xs = list(intrinsics.iter_list(v))
        elif type(v) is VMGenerator:
            from . import intrinsics
            f.ip -= 1
            f.stack.pop()
            self.enter(s, intrinsics.prelude('_list'), [v], {})
            return
        elif type(v) is SV:
            raise TypeError('cannot unpack non-iterable object')
        else:
            xs = list(v)
        if len(xs) < arg:
            raise ValueError('not enough values to unpack (expected %d, got %d)' % (arg, len(xs)))
        if len(xs) > arg:
            raise ValueError('too many values to unpack (expected %d)' % arg)
        f.stack.pop()
        f.stack.extend(reversed(xs))

    def op_UNPACK_EX(self, s, f, arg, argval, tgt):
        v = f.stack[-1]
        if type(v) is GList:
            v = v.resolve()
        xs = list(v)
        before, after = arg & 0xff, arg >> 8
        if len(xs) < before + after:
            raise ValueError('not enough values to unpack')
        f.stack.pop()
        mid = xs[before:len(xs) - after]
        out = xs[:before] + [mid] + (xs[len(xs) - after:] if after else [])
        f.stack.extend(reversed(out))

    # functions
    def op_MAKE_FUNCTION(self, s, f, arg, argval, tgt):
        code = f.stack.pop()
        closure = ()
        if arg & 8:
            closure = f.stack.pop()
        if arg & 4:
            f.stack.pop()
        kwd = f.stack.pop() if arg & 2 else None
        dfl = f.stack.pop() if arg & 1 else ()
        fn = VMFunction(code, f.glob, code.co_name)
        fn.defaults, fn.kwdefaults, fn.closure = dfl, kwd, closure
        f.stack.append(fn)

    def op_KW_NAMES(self, s, f, arg, argval, tgt):
        f.kw = f.ci.code.co_consts[arg]

    def op_CALL(self, s, f, arg, argval, tgt):
        kw = f.kw
        f.kw = ()
        st = f.stack
        args = st[-arg:] if arg else []
        fn = st[-arg - 1] if arg else st[-1]
        pre = st[-arg - 2]
        if pre is not NULL:
            # method layout: (method, self, args)
            args = [fn] + args
            fn = pre
        del st[-arg - 2:]
        if kw:
            kwargs = dict(zip(kw, args[len(args) - len(kw):]))
            args = args[:len(args) - len(kw)]
        else:
            kwargs = {}
        self.call(s, f, fn, args, kwargs)

    def op_CALL_FUNCTION_EX(self, s, f, arg, argval, tgt):
        kwargs = {}
        if arg & 1:
            kwargs = dict(f.stack.pop())
        args = f.stack.pop()
        if type(args) is GList:
            args = args.resolve()
        elif type(args) is VMIter:
            from . import intrinsics
            args = intrinsics.iter_list(args)
        elif type(args) is VMGenerator:
            raise EngineUnsupported('*generator')
        fn = f.stack.pop()
        f.stack.pop()
        self.call(s, f, fn, list(args), kwargs)

    def op_CALL_INTRINSIC_1(self, s, f, arg, argval, tgt):
        if arg == 3:      # STOPITERATION_ERROR
            e = f.stack[-1]
            if isinstance(e, StopIteration):
                f.stack[-1] = RuntimeError('generator raised StopIteration')
            return
        if arg == 6:      # LIST_TO_TUPLE
            v = f.stack[-1]
            if type(v) is GList:
                f.stack[-1] = GList(list(v.items), tuple)
            else:
                f.stack[-1] = tuple(v)
            return
        if arg == 5:
            f.stack[-1] = +f.stack[-1]
            return
        raise EngineUnsupported('intrinsic %d' % arg)

    def op_RETURN_VALUE(self, s, f, arg, argval, tgt):
        self.ret(s, f, f.stack.pop())
        if not s.frames:
            return True

    def op_RETURN_CONST(self, s, f, arg, argval, tgt):
        self.ret(s, f, argval)
        if not s.frames:
            return True

    # imports
    def op_IMPORT_NAME(self, s, f, arg, argval, tgt):
        fromlist = f.stack.pop()
        level = f.stack.pop()
        f.stack.append(__import__(argval, f.glob, None, fromlist, level))

    def op_IMPORT_FROM(self, s, f, arg, argval, tgt):
        m = f.stack[-1]
        f.stack.append(self.getattr(s, m, argval))

    # exceptions
    def op_LOAD_ASSERTION_ERROR(self, s, f, arg, argval, tgt):
        f.stack.append(AssertionError)

    def op_RAISE_VARARGS(self, s, f, arg, argval, tgt):
        if arg == 0:
            if s.exc is None:
                raise RuntimeError('No active exception to reraise')
            raise s.exc
        if arg == 2:
            f.stack.pop()
        e = f.stack.pop()
        if isinstance(e, type):
            e = e()
        raise e

    def op_PUSH_EXC_INFO(self, s, f, arg, argval, tgt):
        e = f.stack.pop()
        f.stack.append(s.exc)
        f.stack.append(e)
        s.exc = e

    def op_POP_EXCEPT(self, s, f, arg, argval, tgt):
        s.exc = f.stack.pop()

    def op_CHECK_EXC_MATCH(self, s, f, arg, argval, tgt):
        tp = f.stack.pop()
        f.stack.append(isinstance(f.stack[-1], tp))

    def op_RERAISE(self, s, f, arg, argval, tgt):
        e = f.stack.pop()
        raise e

    def op_BEFORE_WITH(self, s, f, arg, argval, tgt):
        o = f.stack.pop()
        f.stack.append(self.getattr(s, o, '__exit__'))
        en = self.getattr(s, o, '__enter__')
        self.call(s, f, en, [], {})

    def op_WITH_EXCEPT_START(self, s, f, arg, argval, tgt):
        e = f.stack[-1]
        ex = f.stack[-4]
        self.call(s, f, ex, [type(e), e, None], {})

    def op_GET_LEN(self, s, f, arg, argval, tgt):
        f.stack.append(len(f.stack[-1]))

    def op_LOAD_BUILD_CLASS(self, s, f, arg, argval, tgt):
        raise EngineUnsupported('class definition')


PUSHED = _Null()


class CallLater(object):
    __slots__ = ('fn', 'args')

    def __init__(self, fn, args):
        self.fn = fn
        self.args = args


_OPAQUE_MUTABLE = set()


def _base():
    pass


_base_code = _base.__code__

_BINOPS = {}
_names = [(operator.add, operator.iadd), (operator.and_, operator.iand), (operator.floordiv, operator.ifloordiv),
          (operator.lshift, operator.ilshift), (operator.matmul, operator.imatmul), (operator.mul, operator.imul),
          (operator.mod, operator.imod), (operator.or_, operator.ior), (operator.pow, operator.ipow),
          (operator.rshift, operator.irshift), (operator.sub, operator.isub), (operator.truediv, operator.itruediv),
          (operator.xor, operator.ixor)]
for _k, _p in enumerate(_names):
    _BINOPS[_k] = _p
    _BINOPS[_k + 13] = _p
_OPNAMES = {operator.add: '__add__', operator.sub: '__sub__', operator.mul: '__mul__', operator.truediv: '__truediv__',
            operator.and_: '__and__', operator.or_: '__or__'}
_ROPNAMES = {operator.add: '__radd__', operator.sub: '__rsub__', operator.mul: '__rmul__', operator.truediv: '__rtruediv__'}
_CMPS = {'<': operator.lt, '<=': operator.le, '==': operator.eq, '!=': operator.ne, '>': operator.gt, '>=': operator.ge}
_CMPNAMES = {'<': '__lt__', '<=': '__le__', '==': '__eq__', '!=': '__ne__', '>': '__gt__', '>=': '__ge__'}


def intrinsics_list(v):
    if type(v) in (SymArray, SymRecord):
        return list(v)
    return v


def sym_eq(a, b):
    """structural equality without forking"""
    ta, tb = type(a), type(b)
    if V.is_scalar(a) and V.is_scalar(b):
        if ta is not SV and tb is not SV:
            return bool(a == b)
        return V.compare(operator.eq, a, b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if isinstance(a, tuple) != isinstance(b, tuple) or len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = T.And(r, V.truth(sym_eq(x, y)))
        return V.mk(r, None)
    if ta is GList or tb is GList:
        x = a.items if ta is GList else [(True, v) for v in a]
        y = b.items if tb is GList else [(True, v) for v in b]
        if len(x) == len(y) and all(type(g) is type(h) and (g is h or g == h) if type(g) is not Term else g is h for (g, _), (h, _) in zip(x, y)):
            r = True
            for (g, v), (_, w) in zip(x, y):
                r = T.And(r, T.Implies(g, V.truth(sym_eq(v, w))))
            return V.mk(r, None)
        la = a.resolve() if ta is GList else a
        lb = b.resolve() if tb is GList else b
        return sym_eq(la, lb)
    if ta is dict and tb is dict:
        if list(a) != list(b) and set(a) != set(b):
            return False
        r = True
        for k in a:
            r = T.And(r, V.truth(sym_eq(a[k], b[k])))
        return V.mk(r, None)
    if ta is SymArray or tb is SymArray:
        raise ValueError('ambiguous array truth')
    if V.is_scalar(a) or V.is_scalar(b):
        return False
    return bool(a == b)


def sym_contains(c, x):
    tc = type(c)
    if tc is SymText:
        return V.mk(c.has(x), None)
    if type(x) is SymText:
        if tc is str:
            return V.mk(x.within(c), None)
        if tc in (list, tuple, set, frozenset, dict):
            return V.mk(T.Or(*[x.eq(v) for v in c]), None)
        if tc is not GList:
            raise EngineUnsupported('symbolic text in %r' % tc)
    if tc is GList:
        return V.mk(T.Or(*[T.And(g, V.truth(sym_eq(v, x))) for g, v in c.items]), None)
    if tc in (list, tuple, deque):
        return V.mk(T.Or(*[V.truth(True if v is x else sym_eq(v, x)) for v in c]), None)
    if tc in (dict, defaultdict, set, frozenset, OrderedDict) and type(x) is SV:
        return V.mk(T.Or(*[V.truth(sym_eq(v, x)) for v in c if V.is_scalar(v)]), None)
    if tc is range and type(x) is SV:
        return V.mk(T.Or(*[T.Eq(x.t, v) for v in c]), None)
    if tc is SymArray:
        return V.reduce_bool(V.array_op(operator.eq, c, x), None, True)
    if tc in (dict, defaultdict, set, frozenset) and isinstance(x, tuple) and any(type(e) is SV for e in x):
        return V.mk(T.Or(*[V.truth(sym_eq(v, x)) for v in c if isinstance(v, tuple)]), None)
    if tc in (VMIter, VMGenerator):
        raise EngineUnsupported('in iterator')
    return x in c


def index_ite(o, t):
    n = len(o)
    r = None
    for i in range(n - 1, -1, -1):
        c = T.Or(T.Eq(t, i), T.Eq(t, i - n))
        if c is False:
            continue
        r = o[i] if r is None else merge_scalar(c, o[i], r)
    return r


def merge_scalar(c, a, b):
    """ite on scalars"""
    ta, tb = type(a), type(b)
    if a is b:
        return a
    da, db = V.dt_of(a), V.dt_of(b)
    xa, xb = V.term(a), V.term(b)
    sa, sb = T.sort_of(xa), T.sort_of(xb)
    if da != db:
        if da is None and db is not None and db.kind == 'f' and db.itemsize == 8 and sa in 'RI':
            da = db
        elif db is None and da is not None and da.kind == 'f' and da.itemsize == 8 and sb in 'RI':
            db = da
        elif da is None and db is not None and db.kind == 'b' and sa == 'B':
            da = db
        elif db is None and da is not None and da.kind == 'b' and sb == 'B':
            db = da
        else:
            raise Unmergeable('dtypes %s %s' % (da or sa, db or sb))
    if da is None and sa != sb:
        if 'B' in (sa, sb):
            raise Unmergeable('bool and number')
    if da is not None and da.kind == 'f':
        xa, xb = T.ToReal(xa), T.ToReal(xb)
    return V.mk(T.Ite(c, xa, xb), da)


def same_native(v, o):
    if v is o:
        return True
    if type(v) is SymArray and type(o) is np.ndarray:
        return v.is_concrete() and v.shape == o.shape and bool(np.all(v.to_np() == o))
    try:
        return type(v) is type(o) and bool(v == o)
    except Exception:
        return False


def worklen(x):
    return len(x.items) if type(x) is GList else len(x) if type(x) in (list, deque) else 0


def cells_differ(a, b):
    """tuples or records of different concrete integers (cell positions)"""
    ta = type(a)
    if ta is not type(b):
        return (ta is tuple and b is None) or (a is None and type(b) is tuple)
    if ta is tuple:
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x is not y and isinstance(x, (int, np.integer)) and isinstance(y, (int, np.integer)) and x != y:
                return True
        return False
    if ta is dict:
        return list(a) == list(b) and cells_differ(tuple(a.values()), tuple(b.values()))
    return False


class Merger(object):
    def __init__(self, vm, sel, memo, ma, mb):
        self.vm = vm
        self.sel = sel
        self.memo = memo
        self.ma = ma
        self.mb = mb

    def frame(self, f, g):
        k = (id(f), id(g))
        if k in self.memo:
            return self.memo[k]
        self.reg(f, g)
        if f.ci is not g.ci or f.ip != g.ip or len(f.stack) != len(g.stack) or f.mode != g.mode:
            raise Unmergeable('frame')
        n = Frame.__new__(Frame)
        self.memo[k] = n
        n.ci, n.ip, n.glob, n.kw, n.mode = f.ci, f.ip, f.glob, f.kw, f.mode
        live = f.ci.live()[f.ip] if f.ip < f.ci.n else frozenset()
        if self.vm.splitcells:
            for i, (a, b) in enumerate(zip(f.loc, g.loc)):
                if a is not b and i in live and cells_differ(a, b):
                    raise Unmergeable('cells')
            for a, b in zip(f.stack, g.stack):
                if a is not b and (cells_differ(a, b) or type(a) is int and type(b) is int and a != b):
                    raise Unmergeable('cells')
        loc = []
        for i, (a, b) in enumerate(zip(f.loc, g.loc)):
            if a is b and type(a) in _sharedtypes:
                loc.append(a)
            elif i not in live:
                loc.append(UNBOUND)
            else:
                try:
                    loc.append(self.v(a, b))
                except Unmergeable as e:
                    raise Unmergeable('%s.%s: %s' % (f.ci.code.co_name, f.ci.names[i], e))
        n.loc = loc
        n.stack = [self.v(a, b) for a, b in zip(f.stack, g.stack)]
        n.names = self.v(f.names, g.names)
        encl = f.ci.encl[f.ip]
        n.wl = {}
        n.loops = {h: f.loops.get(h, 0) for h in encl}
        for h in encl:
            if h in f.ci.work and self.vm.splitcells:
                if f.wl.get(h, 0) != g.wl.get(h, 0):
                    raise Unmergeable('work list lengths')
                n.wl[h] = f.wl.get(h, 0)
                n.loops[h] = max(f.loops.get(h, 0), g.loops.get(h, 0))
                continue
            if f.loops.get(h, 0) != g.loops.get(h, 0):
                raise Unmergeable('loop counts')
        n.gen = self.v(f.gen, g.gen)
        return n

    def reg(self, a, b):
        if self.ma.setdefault(id(a), id(b)) != id(b) or self.mb.setdefault(id(b), id(a)) != id(a):
            raise Unmergeable('aliasing')

    def v(self, a, b):
        ta, tb = type(a), type(b)
        if a is b and (ta in _sharedtypes or isinstance(a, SHARED)):
            return a
        if V.is_scalar(a) and V.is_scalar(b):
            if ta is tb and ta is not SV and a == b and ta is not float:
                return a
            return merge_scalar(self.sel, a, b)
        k = (id(a), id(b))
        r = self.memo.get(k)
        if r is not None:
            return r
        if ta is tb and issubclass(ta, tuple):
            if len(a) != len(b):
                raise Unmergeable('tuple length')
            r = [self.v(x, y) for x, y in zip(a, b)]
            r = tuple(r) if ta is tuple else tuple.__new__(ta, r)
            self.memo[k] = r
            return r
        if ta is SymArray and tb is SymArray:
            if a.dtype != b.dtype or a.shape != b.shape or (a.idx is not b.idx and not np.array_equal(a.idx, b.idx)):
                raise Unmergeable('array shapes')
            r = SymArray(self.v(a.buf, b.buf), a.idx, a.dtype)
            self.memo[k] = r
            return r
        if (ta is list or ta is GList or ta is deque) and (tb is list or tb is GList or tb is deque):
            return self.lists(a, b, k)
        if ta is not tb:
            raise Unmergeable('types %s %s' % (ta.__name__, tb.__name__))
        if ta is Buffer:
            self.reg(a, b)
            if len(a.data) != len(b.data):
                raise Unmergeable('buffer sizes')
            out = []
            sel = self.sel
            for x, y in zip(a.data, b.data):
                if x is y:
                    out.append(x)
                    continue
                tx, ty = type(x), type(y)
                if tx is not Term and ty is not Term and tx is ty and x == y:
                    out.append(x)
                elif tx in (Term, int, float, bool) and ty in (Term, int, float, bool):
                    r = T.Ite(sel, V.elem_term(x), V.elem_term(y))
                    out.append(V.unnum(r, None))
                else:
                    out.append(self.v(x, y))
            r = self.memo[k] = Buffer(out)
            return r
        if ta is dict or ta is defaultdict or ta is OrderedDict:
            self.reg(a, b)
            if list(a) != list(b):
                raise Unmergeable('dict keys')
            r = {} if ta is dict else defaultdict(a.default_factory) if ta is defaultdict else OrderedDict()
            self.memo[k] = r
            for x in a:
                r[x] = self.v(a[x], b[x])
            return r
        if ta is Cell:
            self.reg(a, b)
            r = self.memo[k] = Cell()
            r.v = self.v(a.v, b.v)
            return r
        if ta is SymRecArray:
            self.reg(a, b)
            if a.dtype != b.dtype or a.shape != b.shape:
                raise Unmergeable('rec arrays')
            r = self.memo[k] = SymRecArray(None, a.dtype)
            r.fields = {n: self.v(a.fields[n], b.fields[n]) for n in a.fields}
            return r
        if ta is SymRecord:
            r = self.memo[k] = SymRecord(None, None)
            r.arr = self.v(a.arr, b.arr)
            r.ix = self.v(a.ix, b.ix)
            return r
        if ta is VMIter:
            self.reg(a, b)
            if a.i != b.i:
                raise Unmergeable('iterator positions')
            r = self.memo[k] = VMIter(None, a.i)
            r.seq = self.v(a.seq, b.seq)
            return r
        if ta is VMGenerator:
            self.reg(a, b)
            if a.done != b.done or a.running != b.running:
                raise Unmergeable('generator state')
            r = self.memo[k] = VMGenerator(None)
            r.done, r.running = a.done, a.running
            r.frame = self.frame(a.frame, b.frame) if a.frame is not None else None
            return r
        if ta is VMFunction:
            if a.code is not b.code:
                raise Unmergeable('functions')
            r = self.memo[k] = VMFunction(a.code, a.globals, a.name)
            r.defaults = self.v(a.defaults, b.defaults)
            r.kwdefaults = self.v(a.kwdefaults, b.kwdefaults)
            r.closure = self.v(tuple(a.closure), tuple(b.closure))
            return r
        if ta is VMMethod:
            r = self.memo[k] = VMMethod(None, None)
            r.func = self.v(a.func, b.func)
            r.self = self.v(a.self, b.self)
            return r
        if ta is NMethod:
            if a.name != b.name:
                raise Unmergeable('methods')
            r = self.memo[k] = NMethod(None, a.name)
            r.self = self.v(a.self, b.self)
            return r
        if ta is types.MethodType:
            if a.__func__ is not b.__func__:
                raise Unmergeable('methods')
            return types.MethodType(a.__func__, self.v(a.__self__, b.__self__))
        if ta is MaskedSel:
            r = self.memo[k] = MaskedSel.__new__(MaskedSel)
            r.arr = self.v(a.arr, b.arr)
            r.mask = self.v(a.mask, b.mask)
            return r
        if ta is set:
            if a != b:
                raise Unmergeable('sets')
            return set(a)
        if ta is slice:
            return slice(self.v(a.start, b.start), self.v(a.stop, b.stop), self.v(a.step, b.step))
        if ta is SymText:
            n = max(len(a.slots), len(b.slots))
            x, y = [list(t.slots) + [(False, 0)] * (n - len(t.slots)) for t in (a, b)]
            return SymText(slots=[tuple(V.term(self.v(V.mk(p, None), V.mk(q, None))) for p, q in zip(u, w)) for u, w in zip(x, y)])
        if ta is SymStr:
            if len(a.parts) != len(b.parts):
                raise Unmergeable('strings')
            return SymStr([self.v(x, y) for x, y in zip(a.parts, b.parts)])
        if hasattr(ta, 'vm_merge'):
            self.reg(a, b)
            return a.vm_merge(b, self, k)
        if isinstance(a, BaseException):
            if a is b or (a.args == b.args):
                return a
            raise Unmergeable('exceptions')
        if self.vm.interp_class(ta) and not isinstance(a, type):
            self.reg(a, b)
            r = self.memo[k] = object.__new__(ta)
            da, db = getattr(a, '__dict__', {}), getattr(b, '__dict__', {})
            if set(da) != set(db):
                raise Unmergeable('instance attributes')
            for n in da:
                try:
                    object.__setattr__(r, n, self.v(da[n], db[n]))
                except Unmergeable as e:
                    raise Unmergeable('.%s: %s' % (n, e))
            for c in ta.__mro__:
                for n in getattr(c, '__slots__', ()) or ():
                    if hasattr(a, n):
                        object.__setattr__(r, n, self.v(getattr(a, n), getattr(b, n)))
            return r
        if a is b:
            return a
        if isinstance(a, SHARED):
            try:
                if a == b:
                    return a
            except Exception:
                pass
        raise Unmergeable('values of type %s' % ta.__name__)

    def lists(self, a, b, k):
        self.reg(a, b)
        ka = a.kind if type(a) is GList else type(a)
        kb = b.kind if type(b) is GList else type(b)
        if ka is not kb:
            raise Unmergeable('list kinds')
        if type(a) is not GList and type(b) is not GList and len(a) == len(b):
            r = self.memo[k] = ka()
            r.extend([self.v(x, y) for x, y in zip(a, b)])
            return r
        ia = a.items if type(a) is GList else [(True, v) for v in a]
        ib = b.items if type(b) is GList else [(True, v) for v in b]
        r = self.memo[k] = GList([], ka)
        sel = self.sel
        n = min(len(ia), len(ib))
        out = []
        j = 0
        while j < n:
            (ga, va), (gb, vb) = ia[j], ib[j]
            if self.vm.splitcells and cells_differ(va, vb):
                break
            try:
                m = self.v(va, vb)
            except Unmergeable:
                if not hasattr(self.vm, 'split_lists') or not self.vm.split_lists:
                    raise
                break
            out.append((T.Ite(sel, ga, gb), m))
            j += 1
        for g, v in ia[j:]:
            out.append((T.And(sel, g), v))
        for g, v in ib[j:]:
            out.append((T.And(T.Not(sel), g), v))
        r.items = out
        if ka is list and all(g is True for g, _ in out):
            pass
        return r

from .intrinsics import NeedUpgrade, NeedResolve, PopFork  # noqa: E402
