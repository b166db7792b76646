"""Export of terms to z3 and satisfiability queries.

Integers are bounded (interval analysis in terms.py) and exported as bit-vectors wide enough that no
operation wraps; unbounded ones fall back to mathematical Int.  Reals which are only ever compared are
exported as ranks (small bit-vectors: any finite set of reals has the same order type as some set of
ranks); otherwise as Real (exact), with explicit +-infinity flags where an infinity can occur.
"""
import os
import shutil
import subprocess
import tempfile
import time
from fractions import Fraction
import z3
from . import terms as T

STATS = {'queries': 0, 'feasibility': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0, 'max': 0.0, 'terms': 0}
BACKENDS = {}
ZT, ZF = z3.BoolVal(True), z3.BoolVal(False)


_SATTOOLS = None


def sat_tools():
    global _SATTOOLS
    if _SATTOOLS is None:
        _SATTOOLS = []
        for name, alts in (('cadical', ['/app/lean4-4.33.0/build/release/stage1/bin/cadical']), ('kissat', ['/root/.kani/kani-0.68.0/bin/kissat'])):
            w = shutil.which(name) or next((a for a in alts if os.access(a, os.X_OK)), None)
            if w:
                _SATTOOLS.append((name, w))
    return _SATTOOLS


def bitvar(name, w):
    """a bit-vector variable made of named booleans (so that DIMACS models can be read back)"""
    bs = [z3.If(z3.Bool('%s!b%d' % (name, k)), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for k in range(w)]
    return bs[0] if w == 1 else z3.Concat(list(reversed(bs)))


def bitvalue(look, name, w, signed):
    v = sum((1 << k) for k in range(w) if look('%s!b%d' % (name, k)))
    if signed and v >> (w - 1):
        v -= 1 << w
    return v


class Unknown(Exception):
    pass


def _width(lo, hi):
    w = 1
    while not (-(1 << (w - 1)) <= lo and hi <= (1 << (w - 1)) - 1):
        w += 1
    return w


class Exporter(object):
    def __init__(self, rank, intmode='bv', fp=None):
        self.rank = rank          # None or RankSpace
        self.intmode = intmode
        self.memo = {}
        self.side = []
        self.keep = []
        self.ufs = {}

    # -- generic driver: explicit stack, no recursion
    def export(self, t):
        if type(t) is not T.Term:
            assert isinstance(t, bool)
            return ZT if t else ZF
        memo = self.memo
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            pend = [a for a in x.args if type(a) is T.Term and a.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            memo[x.id] = self.node(x)
            self.keep.append(x)
            stack.pop()
        return memo[t.id]

    def b(self, x):
        if type(x) is T.Term:
            return self.memo[x.id]
        return ZT if x else ZF

    # ints: (z3 expr, width) in bv mode, z3 Int in int mode
    def i(self, x):
        if type(x) is T.Term:
            return self.memo[x.id]
        if self.intmode == 'int':
            return z3.IntVal(x)
        w = _width(x, x)
        return (z3.BitVecVal(x, w), w)

    def ext(self, p, w):
        e, v = p
        if v == w:
            return e
        if v > w:
            return z3.Extract(w - 1, 0, e)
        return z3.SignExt(w - v, e)

    # reals: rank bv, or (p, n, v)
    def r(self, x):
        if type(x) is T.Term:
            return self.memo[x.id]
        if self.rank is not None:
            return self.rank.const(x)
        if type(x) is float:
            return (x > 0, x < 0, z3.RealVal(0))
        return (False, False, z3.RealVal('%d/%d' % (x.numerator, x.denominator)))

    def node(self, t):
        o, a, s = t.op, t.args, t.sort
        if s == 'B':
            if o == 'var':
                return z3.Bool(a[0])
            if o == 'and':
                return z3.And([self.b(x) for x in a])
            if o == 'not':
                return z3.Not(self.b(a[0]))
            if o == 'ite':
                return z3.If(self.b(a[0]), self.b(a[1]), self.b(a[2]))
            if o in ('eq', 'le'):
                so = T.sort_of(a[0])
                if so == 'B':
                    return self.b(a[0]) == self.b(a[1])
                if so == 'I':
                    x, y = self.i(a[0]), self.i(a[1])
                    if self.intmode == 'int':
                        return x == y if o == 'eq' else x <= y
                    w = max(x[1], y[1])
                    x, y = self.ext(x, w), self.ext(y, w)
                    return x == y if o == 'eq' else x <= y
                x, y = self.r(a[0]), self.r(a[1])
                if self.rank is not None:
                    return x == y if o == 'eq' else z3.ULE(x, y)
                return self.cmp(o, x, y)
            if o == 'uf':
                return self.uf(t)
            raise NotImplementedError(o)
        if s == 'I':
            return self.inode(t)
        return self.rnode(t)

    @staticmethod
    def _or(*xs):
        xs = [x for x in xs if x is not False]
        if any(x is True for x in xs):
            return True
        return False if not xs else (xs[0] if len(xs) == 1 else z3.Or(xs))

    @staticmethod
    def _z(x):
        return ZT if x is True else ZF if x is False else x

    def cmp(self, o, x, y):
        (px, nx, vx), (py, ny, vy) = x, y
        if px is False and nx is False and py is False and ny is False:
            return vx == vy if o == 'eq' else vx <= vy
        z = self._z
        fin = z3.And(z3.Not(z(px)), z3.Not(z(nx)), z3.Not(z(py)), z3.Not(z(ny)))
        if o == 'eq':
            return z3.Or(z3.And(z(px), z(py)), z3.And(z(nx), z(ny)), z3.And(fin, vx == vy))
        return z3.Or(z(nx), z(py), z3.And(fin, vx <= vy))

    def uf(self, t):
        name, args = t.args[0], t.args[1:]
        zs, sorts = [], []
        for x in args:
            so = T.sort_of(x)
            if so == 'B':
                zs.append(self.b(x)); sorts.append(z3.BoolSort())
            elif so == 'I':
                e = self.i(x)
                if self.intmode == 'bv':
                    e = self.ext(e, 24)
                    sorts.append(z3.BitVecSort(24))
                else:
                    sorts.append(z3.IntSort())
                zs.append(e)
            else:
                zs.append(self.r(x)[2]); sorts.append(z3.RealSort())
        rs = {'B': z3.BoolSort(), 'I': z3.IntSort() if self.intmode == 'int' else z3.BitVecSort(24), 'R': z3.RealSort()}[t.sort]
        key = (name, tuple(str(x) for x in sorts), str(rs))
        f = self.ufs.get(key)
        if f is None:
            f = self.ufs[key] = z3.Function(name, *(sorts + [rs]))
        e = f(*zs)
        if t.sort == 'B':
            return e
        if t.sort == 'I':
            if self.intmode == 'int':
                return e
            if t.lo is not None:
                self.side.append(e >= t.lo)
            if t.hi is not None:
                self.side.append(e <= t.hi)
            return (e, 24)
        return (False, False, e)

    def inode(self, t):
        o, a = t.op, t.args
        if self.intmode == 'int':
            if o == 'var':
                v = z3.Int(a[0])
                if t.lo is not None:
                    self.side.append(v >= t.lo)
                if t.hi is not None:
                    self.side.append(v <= t.hi)
                return v
            if o == 'ite':
                return z3.If(self.b(a[0]), self.i(a[1]), self.i(a[2]))
            if o == 'add':
                return z3.Sum([self.i(x) for x in a])
            if o == 'mulc':
                return a[0] * self.i(a[1])
            if o == 'mul':
                return self.i(a[0]) * self.i(a[1])
            if o == 'mod':
                return self.i(a[0]) % a[1]
            if o == 'fdiv':
                if a[1] > 0:
                    return self.i(a[0]) / a[1]
                x = self.i(a[0])
                return -((x + (-a[1]) - 1) / (-a[1])) if False else z3.ToInt(z3.ToReal(x) / a[1])
            if o == 'uf':
                return self.uf(t)
            raise NotImplementedError(o)
        if o == 'var':
            w = _width(t.lo, t.hi)
            v = bitvar(a[0], w)
            if t.lo != -(1 << (w - 1)):
                self.side.append(v >= t.lo)
            if t.hi != (1 << (w - 1)) - 1:
                self.side.append(v <= t.hi)
            return (v, w)
        if o == 'uf':
            return self.uf(t)
        w = _width(t.lo, t.hi)
        if o == 'ite':
            return (z3.If(self.b(a[0]), self.ext(self.i(a[1]), w), self.ext(self.i(a[2]), w)), w)
        if o == 'add':
            e = self.ext(self.i(a[0]), w)
            for x in a[1:]:
                e = e + self.ext(self.i(x), w)
            return (e, w)
        if o == 'mulc':
            return (z3.BitVecVal(a[0], w) * self.ext(self.i(a[1]), w), w)
        if o == 'mul':
            return (self.ext(self.i(a[0]), w) * self.ext(self.i(a[1]), w), w)
        if o in ('mod', 'fdiv'):
            x = self.i(a[0])
            k = a[1]
            w2 = max(x[1], _width(k, k)) + 1
            xe = self.ext(x, w2)
            kb = z3.BitVecVal(k, w2)
            if o == 'mod':
                return (self.ext((xe % kb, w2), w), w)
            m = xe % kb
            return (self.ext(((xe - m) / kb, w2), w), w)
        raise NotImplementedError(o)

    def rnode(self, t):
        o, a = t.op, t.args
        if self.rank is not None:
            if o == 'var':
                v = self.rank.var(a[0])
                self.side.append(z3.And(z3.UGE(v, 1), z3.ULT(v, self.rank.top)))
                return v
            if o == 'ite':
                return z3.If(self.b(a[0]), self.r(a[1]), self.r(a[2]))
            if o == 'const':
                return self.r(a[0])
            raise NotImplementedError(o)
        if o == 'var':
            return (False, False, z3.Real(a[0]))
        if o == 'const':
            return self.r(a[0])
        if o == 'uf':
            return self.uf(t)
        if o == 'ite':
            c = self.b(a[0])
            x, y = self.r(a[1]), self.r(a[2])
            f = [False, False]
            for k in (0, 1):
                if x[k] is False and y[k] is False:
                    f[k] = False
                else:
                    f[k] = z3.If(c, self._z(x[k]), self._z(y[k]))
            # prefer a plain value where one side is infinite
            vx, vy = x[2], y[2]
            return (f[0], f[1], z3.If(c, vx, vy))
        if o in ('add', 'sub'):
            xs = [self.r(x) for x in a]
            if o == 'sub':
                p, n, v = xs[1]
                xs[1] = (n, p, -v)
            return (self._or(*[x[0] for x in xs]), self._or(*[x[1] for x in xs]), z3.Sum([x[2] for x in xs]))
        if o == 'mulc':
            p, n, v = self.r(a[1])
            c = a[0]
            if c < 0:
                p, n = n, p
            return (p, n, z3.RealVal('%d/%d' % (c.numerator, c.denominator)) * v)
        if o == 'mul':
            x, y = self.r(a[0]), self.r(a[1])
            return (self._or(x[0], y[0]), self._or(x[1], y[1]), x[2] * y[2])
        if o == 'div':
            x, y = self.r(a[0]), self.r(a[1])
            return (x[0], x[1], x[2] / y[2])
        if o == 'toreal':
            e = self.i(a[0])
            if self.intmode == 'int':
                return (False, False, z3.ToReal(e))
            e, w = e
            lo = a[0].lo
            acc = []
            for k in range(w):
                bit = z3.Extract(k, k, e) == 1
                val = (1 << k) if k < w - 1 else -(1 << k)
                if k == w - 1 and lo is not None and lo >= 0:
                    continue
                acc.append(z3.If(bit, z3.RealVal(val), z3.RealVal(0)))
            return (False, False, z3.Sum(acc) if acc else z3.RealVal(0))
        raise NotImplementedError(o)


FPVARS = {}      # name -> dtype name of floating-point inputs


class FPExporter(Exporter):
    """Bit-precise export: every real is a Float64; operations on float32 are rounded to Float32 and widened."""

    def __init__(self, wide=False):
        Exporter.__init__(self, None, 'bv')
        self.wide = wide
        self.S = z3.FPSort(15, 64) if wide else z3.Float64()
        self.rm = z3.RNE()

    def r(self, x):
        if type(x) is T.Term:
            return self.memo[x.id]
        return z3.FPVal(float(x), z3.Float64()) if not self.wide else z3.simplify(z3.fpFPToFP(self.rm, z3.FPVal(float(x), z3.Float64()), self.S))

    def rounded(self, x, dt):
        srt = FPSORTS[dt]()
        if srt == self.S:
            return x
        return z3.fpFPToFP(self.rm, z3.fpFPToFP(self.rm, x, srt), self.S)

    def rnode(self, t):
        o, a = t.op, t.args
        S, rm = self.S, self.rm
        if o == 'var':
            dt = FPVARS.get(a[0], 'float64')
            srt = FPSORTS[dt]()
            v = z3.fpBVToFP(bitvar('fp!' + a[0], srt.ebits() + srt.sbits()), srt)
            self.side.append(z3.Not(z3.Or(z3.fpIsInf(v), z3.fpIsNaN(v))))
            return v if srt == S else z3.fpFPToFP(rm, v, S)
        if o == 'ite':
            return z3.If(self.b(a[0]), self.r(a[1]), self.r(a[2]))
        if o in ('fadd', 'fsub', 'fmul', 'fdiv'):
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[o]
            x, y = self.r(a[0]), self.r(a[1])
            if a[2] == 'float32':
                x, y = z3.fpFPToFP(rm, x, z3.Float32()), z3.fpFPToFP(rm, y, z3.Float32())
                return z3.fpFPToFP(rm, f(rm, x, y), S)
            if self.wide:
                raise NotImplementedError('arithmetic with extended precision')
            return f(rm, x, y)
        if o == 'cast':
            return self.rounded(self.r(a[0]), a[1])
        if o == 'mulc' and -1 in a[:2]:
            x = a[1] if a[0] == -1 else a[0]
            return z3.fpNeg(self.r(x))
        if o == 'fnext':
            x = self.r(a[0])
            f32 = a[2] == 'float32'
            if f32:
                x = z3.fpFPToFP(rm, x, z3.Float32())
            w, srt = (32, z3.Float32()) if f32 else (64, S)
            n = z3.BitVec('fn!%d' % t.id, w) if False else bitvar('fn!%d' % t.id, w)
            v = z3.fpBVToFP(n, srt)
            self.side.append(v == x)         # bits of x (for zeros either sign)
            one = z3.BitVecVal(1, w)
            neg = z3.Extract(w - 1, w - 1, n) == z3.BitVecVal(1, 1)
            tiny = z3.fpBVToFP(z3.BitVecVal(1, w), srt)
            if a[1]:
                r = z3.If(z3.fpIsZero(x), tiny, z3.fpBVToFP(z3.If(neg, n - one, n + one), srt))
            else:
                r = z3.If(z3.fpIsZero(x), z3.fpNeg(tiny), z3.fpBVToFP(z3.If(neg, n + one, n - one), srt))
            return z3.fpFPToFP(rm, r, S) if f32 else r
        raise NotImplementedError('floating-point export of %s' % o)

    def cmp(self, o, x, y):
        return z3.fpEQ(x, y) if o == 'eq' else z3.fpLEQ(x, y)

    def fpvalue(self, look, name):
        srt = FPSORTS[FPVARS.get(name, 'float64')]()
        eb, mb = srt.ebits(), srt.sbits() - 1
        n = bitvalue(look, 'fp!' + name, eb + mb + 1, False)
        m, e, sg = n & ((1 << mb) - 1), (n >> mb) & ((1 << eb) - 1), n >> (mb + eb)
        if e == (1 << eb) - 1:
            return Fraction(0)
        bias = (1 << (eb - 1)) - 1
        v = Fraction(m, 1 << mb) * Fraction(2) ** (1 - bias) if e == 0 else (1 + Fraction(m, 1 << mb)) * Fraction(2) ** (e - bias)
        return -v if sg else v


FPSORTS = {'float16': lambda: z3.FPSort(5, 11), 'float32': z3.Float32, 'float64': z3.Float64, 'float128': lambda: z3.FPSort(15, 64),
           'longdouble': lambda: z3.FPSort(15, 64)}


class RankSpace(object):
    def __init__(self, nvars, consts):
        self.n = nvars
        self.consts = sorted(consts)
        m = len(self.consts)
        self.pos = {c: (nvars + 1) * (j + 1) for j, c in enumerate(self.consts)}
        # with m constants the top must lie above the last gap
        self.top = (nvars + 1) * (m + 1) + 1
        self.w = max(1, self.top.bit_length())

    def const(self, x):
        if type(x) is float:
            return z3.BitVecVal(self.top if x > 0 else 0, self.w)
        return z3.BitVecVal(self.pos[x], self.w)

    def var(self, name):
        return bitvar('rk!' + name, self.w)

    def value(self, p):
        n1 = self.n + 1
        if p == 0:
            return T.NINF
        if p >= self.top:
            return T.INF
        if not self.consts:
            return Fraction(p)
        j, off = divmod(p, n1)
        if off == 0 and j >= 1 and j <= len(self.consts):
            return self.consts[j - 1]
        if j == 0:
            return self.consts[0] - (n1 - off)
        if j >= len(self.consts):
            return self.consts[-1] + (p - n1 * len(self.consts))
        a, b = self.consts[j - 1], self.consts[j]
        return a + (b - a) * Fraction(off, n1)


_orderonly = {}


def _order_only(roots):
    """(True, real vars, real constants) when reals are only compared / selected."""
    ok = True
    rv, rc, unb = set(), set(), False
    for t in T.iter_dag(roots):
        if t.sort == 'R':
            if t.op == 'var':
                rv.add(t.args[0])
            elif t.op not in ('ite', 'const'):
                ok = False
            for a in t.args:
                if type(a) is Fraction:
                    rc.add(a)
        elif t.op in ('eq', 'le') and T.sort_of(t.args[0]) == 'R':
            for a in t.args:
                if type(a) is Fraction:
                    rc.add(a)
        elif t.op == 'uf':
            if any(T.sort_of(a) == 'R' for a in t.args[1:]):
                ok = False
        if t.sort == 'I' and (t.lo is None or t.hi is None):
            unb = True
    return ok, rv, rc, unb


class Session(object):
    """Caches exports between the queries of one run."""

    def __init__(self, timeout=120.0):
        self.timeout = timeout
        self.lra = {}
        self.rk = None
        self.rk_vars = set()
        self.rk_consts = set()
        self.assumptions = []
        self.crosscheck = None

    fp = False
    wide = False

    def _exporter(self, roots):
        if self.fp:
            if 'fp' not in self.lra:
                self.lra['fp'] = FPExporter(self.wide)
            return self.lra['fp'], False
        ok, rv, rc, unb = _order_only(roots)
        mode = 'int' if unb else 'bv'
        if ok and not unb:
            if self.rk is None or not (rv <= self.rk_vars and rc <= self.rk_consts):
                self.rk_vars |= rv
                self.rk_consts |= rc
                self.rk = Exporter(RankSpace(len(self.rk_vars), self.rk_consts), 'bv')
            return self.rk, True
        e = self.lra.get(mode)
        if e is None:
            e = self.lra[mode] = Exporter(None, mode)
        return e, False

    def check(self, asserts, timeout=None, feas=False, want_model=True):
        """-> (status, model or None); status in sat/unsat/unknown"""
        asserts = [a for a in asserts if a is not True]
        if any(a is False for a in asserts):
            return 'unsat', None
        t0 = time.time()
        exp, ranked = self._exporter(asserts)
        zs = [exp.export(a) for a in asserts]
        hasreal = (not ranked) and any(t.sort == 'R' for t in T.iter_dag(asserts))
        if self.fp:
            s = z3.SolverFor('QF_FP')
        elif hasreal or exp.intmode == 'int':
            s = z3.Solver()
        else:
            s = z3.SolverFor('QF_FD') if not exp.ufs else z3.Solver()
        tmo = timeout if timeout is not None else self.timeout
        s.set('timeout', int(tmo * 1000))
        for z in zs:
            s.add(z)
        # side constraints of the variables in use (all registered ones: harmless)
        for z in exp.side:
            s.add(z)
        fd = (self.fp or not hasreal) and exp.intmode == 'bv' and not exp.ufs
        tools = sat_tools() if fd else []
        model = None
        st = None
        if tools:
            s.set('timeout', int(min(tmo, self.quick) * 1000))
        r = s.check()
        st = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
        if st == 'unknown' and tools and tmo > self.quick:
            st, look = self.satrace(zs + list(exp.side), tools, tmo)
            if st == 'sat' and want_model:
                model = self.model(look, None, asserts, exp)
        elif st == 'sat' and want_model:
            m = s.model()
            model = self.model(lambda n: z3.is_true(m.eval(z3.Bool(n), model_completion=True)), m, asserts, exp)
        dt = time.time() - t0
        STATS['feasibility' if feas else 'queries'] += 1
        STATS['time'] += dt
        STATS['max'] = max(STATS['max'], dt)
        STATS[st] += 1
        return st, model

    quick = 1.5
    parallel = 2

    def satrace(self, zs, tools, tmo):
        g = z3.Goal()
        for z in zs:
            g.add(z)
        r = (z3.Then('simplify', 'propagate-values', 'fpa2bv', 'simplify', 'bit-blast', 'tseitin-cnf') if self.fp else
             z3.Then('simplify', 'propagate-values', 'bit-blast', 'tseitin-cnf'))(g)
        if len(r) != 1:
            return 'unknown', None
        if r[0].inconsistent():
            return 'unsat', None
        text = r[0].dimacs(True)
        names = {}
        body = []
        mx = 0
        for ln in text.split('\n')[1:]:
            if ln.startswith('c '):
                p = ln.split(None, 2)
                names[p[2]] = int(p[1])
                mx = max(mx, int(p[1]))
            elif ln.strip():
                body.append(ln)
                for x in ln.split():
                    mx = max(mx, abs(int(x)))
        fd, fn = tempfile.mkstemp(suffix='.cnf')
        procs = []
        try:
            with os.fdopen(fd, 'w') as fh:
                fh.write('p cnf %d %d\n' % (mx, len(body)) + '\n'.join(body) + '\n')
            t1 = time.time() + tmo
            for name, path in tools[:self.parallel]:
                out = tempfile.TemporaryFile('w+')
                procs.append((subprocess.Popen([path, '-q', fn], stdout=out, stderr=subprocess.DEVNULL), out, name))
            dead = set()
            while time.time() < t1 and len(dead) < len(procs):
                for k, (p, out, name) in enumerate(procs):
                    rc = p.poll()
                    if rc is None or k in dead:
                        continue
                    if rc == 20:
                        BACKENDS[name] = BACKENDS.get(name, 0) + 1
                        return 'unsat', None
                    if rc == 10:
                        BACKENDS[name] = BACKENDS.get(name, 0) + 1
                        out.seek(0)
                        true = set()
                        for ln in out:
                            if ln.startswith('v '):
                                true.update(int(x) for x in ln[2:].split())
                        return 'sat', (lambda n: names.get(n) in true)
                    dead.add(k)
                time.sleep(0.01)
            return 'unknown', None
        finally:
            for p, out, name in procs:
                if p.poll() is None:
                    p.kill()
                    p.wait()
                out.close()
            os.unlink(fn)

    def model(self, look, m, asserts, exp):
        out = {}
        for v in T.variables(asserts):
            name = v.args[0]
            if v.sort == 'B':
                out[name] = bool(look(name))
            elif v.sort == 'I':
                if exp.intmode == 'bv':
                    out[name] = bitvalue(look, name, _width(v.lo, v.hi), True)
                else:
                    out[name] = m.eval(exp.memo[v.id], model_completion=True).as_long()
            elif self.fp:
                out[name] = exp.fpvalue(look, name)
            elif exp.rank is not None:
                out[name] = exp.rank.value(bitvalue(look, 'rk!' + name, exp.rank.w, False))
            else:
                q = m.eval(z3.Real(name), model_completion=True)
                if z3.is_algebraic_value(q):
                    q = q.approx(40)
                out[name] = Fraction(q.numerator_as_long(), q.denominator_as_long())
        return out
