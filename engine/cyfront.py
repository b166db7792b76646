"""Cython front end.

Cython's own pipeline (parsing, declaration analysis, type inference, coercions) is run on the
.pyx source; the typed tree is then printed as Python source with explicit C semantics (engine.cyrt).
The result is an ordinary module which the VM executes symbolically and which can also run natively.
"""
import contextlib
import io
import os
import sys
import types
from . import cyrt
from .values import EngineUnsupported

INTS = {'char': 'i8', 'signed char': 'i8', 'unsigned char': 'u8', 'short': 'i16', 'unsigned short': 'u16', 'int': 'i32',
        'signed int': 'i32', 'unsigned int': 'u32', 'long': 'i64', 'signed long': 'i64', 'unsigned long': 'u64', 'long long': 'i64',
        'signed long long': 'i64', 'unsigned long long': 'u64', 'PY_LONG_LONG': 'i64', 'unsigned PY_LONG_LONG': 'u64',
        'signed PY_LONG_LONG': 'i64', 'size_t': 'u64', 'Py_ssize_t': 'i64', 'ssize_t': 'i64', 'Py_hash_t': 'i64', 'ptrdiff_t': 'i64',
        'bint': 'bint', 'float': 'f32', 'double': 'f64', 'long double': 'f64', 'signed short': 'i16',
        'int8_t': 'i8', 'int16_t': 'i16', 'int32_t': 'i32', 'int64_t': 'i64', 'uint8_t': 'u8', 'uint16_t': 'u16', 'uint32_t': 'u32',
        'uint64_t': 'u64', 'float32_t': 'f32', 'float64_t': 'f64', 'npy_int8': 'i8', 'npy_int16': 'i16', 'npy_int32': 'i32',
        'npy_int64': 'i64', 'npy_uint8': 'u8', 'npy_uint16': 'u16', 'npy_uint32': 'u32', 'npy_uint64': 'u64', 'npy_float32': 'f32',
        'npy_float64': 'f64', 'npy_intp': 'i64', 'intp_t': 'i64', 'uintp_t': 'u64', 'npy_uintp': 'u64', 'npy_float': 'f32',
        'npy_double': 'f64', 'npy_int': 'i32', 'npy_uint': 'u32', 'npy_long': 'i64', 'npy_ulong': 'u64', 'npy_longlong': 'i64',
        'npy_ulonglong': 'u64', 'npy_bool': 'u8', 'npy_byte': 'i8', 'npy_ubyte': 'u8', 'npy_short': 'i16', 'npy_ushort': 'u16',
        'npy_longdouble': 'f64', 'bool_t': 'u8'}


def typed_tree(path, modname, root):
    """-> ModuleNode after AnalyseExpressions"""
    from Cython.Compiler import Main, Pipeline
    from Cython.Compiler.ParseTreeTransforms import AnalyseExpressionsTransform
    cwd = os.getcwd()
    os.chdir(root)
    try:
        opts = Main.CompilationOptions(Main.default_options)
        ctx = Main.Context.from_options(opts)
        opts.configure_language_defaults('pyx')
        src = Main.setup_source_object(path, '.pyx', modname, opts, ctx)
        res = Main.create_default_resultobj(src, opts)
        pipe = Pipeline.create_pyx_pipeline(ctx, opts, res)
        ctx.setup_errors(opts, res)
        cut = []
        for p in pipe:
            cut.append(p)
            if isinstance(p, AnalyseExpressionsTransform):
                break
        err_stream = io.StringIO()
        with contextlib.redirect_stderr(err_stream):
            err, t = Pipeline.run_pipeline(cut, src)
        if err or res.num_errors if hasattr(res, 'num_errors') else err:
            raise EngineUnsupported('cython front end: %s\n%s' % (err, err_stream.getvalue()))
        return t
    finally:
        os.chdir(cwd)


def code_of(t):
    """scalar code of a C type, or None"""
    seen = 0
    while t is not None and seen < 20:
        nm = getattr(t, 'typedef_name', None) or getattr(t, 'name', None)
        if nm in INTS and not getattr(t, 'is_pyobject', False):
            return INTS[nm]
        if getattr(t, 'is_typedef', False):
            t = t.typedef_base_type
            seen += 1
            continue
        break
    if t is None:
        return None
    if getattr(t, 'is_const', False) or getattr(t, 'is_cv_qualified', False):
        return code_of(t.cv_base_type)
    if getattr(t, 'is_int', False) or getattr(t, 'is_float', False) or getattr(t, 'is_enum', False):
        s = t.sign_and_name() if hasattr(t, 'sign_and_name') else str(t)
        s = s.strip()
        if s in INTS:
            return INTS[s]
        if getattr(t, 'is_enum', False):
            return 'i32'
        raise EngineUnsupported('C type %s' % s)
    return None


def kind(t):
    """'py', scalar code, ('struct', name), 'mv', 'buf', 'void', 'cfunc', 'carr'"""
    if t is None:
        return 'void'
    if getattr(t, 'is_memoryviewslice', False):
        return 'mv'
    if getattr(t, 'is_buffer', False):
        return 'buf'
    if getattr(t, 'is_pyobject', False):
        return 'py'
    if getattr(t, 'is_void', False):
        return 'void'
    if getattr(t, 'is_cfunction', False):
        return 'cfunc'
    if getattr(t, 'is_ptr', False) or getattr(t, 'is_array', False):
        if getattr(t, 'is_ptr', False) and getattr(getattr(t, 'base_type', None), 'is_cfunction', False):
            return 'cfunc'
        return 'carr'
    b = t
    while getattr(b, 'is_typedef', False):
        b = b.typedef_base_type
    if getattr(b, 'is_struct_or_union', False):
        if b.kind != 'struct':
            raise EngineUnsupported('C union')
        return ('struct', b.name)
    c = code_of(t)
    if c is None:
        raise EngineUnsupported('C type %s' % t)
    return c


def struct_fields(t):
    b = t
    while getattr(b, 'is_typedef', False):
        b = b.typedef_base_type
    out = []
    for e in b.scope.var_entries:
        c = code_of(e.type)
        if c is None:
            raise EngineUnsupported('struct field %s' % e.type)
        out.append((e.name, c))
    return out, bool(getattr(b, 'packed', False))


def elem_desc(t):
    """python expression describing the dtype of a buffer"""
    k = kind(t)
    if isinstance(k, tuple):
        f, packed = struct_fields(t)
        return '(%r, %r)' % (f, packed)
    if k == 'py':
        return "'O'"
    return repr(k)


BINOPS = ('AddNode', 'SubNode', 'MulNode', 'DivNode', 'ModNode', 'PowNode', 'IntBinopNode', 'NumBinopNode')
RANK = {'i8': 1, 'u8': 1, 'bint': 3, 'i16': 2, 'u16': 2, 'i32': 3, 'u32': 3, 'i64': 4, 'u64': 4}


def promote(c):
    if c in ('f32', 'f64'):
        return c
    if RANK[c] < 3 or c == 'bint':
        return 'i32'
    return c


def uac(a, b):
    """usual arithmetic conversions"""
    if 'f64' in (a, b):
        return 'f64'
    if 'f32' in (a, b):
        return 'f32'
    a, b = promote(a), promote(b)
    if a == b:
        return a
    if a[0] == b[0]:
        return a if RANK[a] >= RANK[b] else b
    u, s = (a, b) if a[0] == 'u' else (b, a)
    if RANK[u] >= RANK[s]:
        return u
    return s


class Gen(object):
    def __init__(self):
        self.out = []
        self.ind = 0
        self.n = 0
        self.locals = None
        self.directives = [{}]
        self.globdecl = None
        self.rename = {}
        self.functions = []

    def emit(self, s):
        self.out.append('    ' * self.ind + s)

    def tmp(self):
        self.n += 1
        return '_cy%d' % self.n

    def directive(self, name, default):
        for d in reversed(self.directives):
            if name in d:
                return d[name]
        return default

    # ------------------------------------------------------------ module
    def module(self, t):
        self.emit('import engine.cyrt as _cy_')
        self.emit('from engine.cyprelude import FloatArray, DoubleArray, IntArray, LongArray, UIntArray')
        if getattr(t, 'directives', None):
            self.directives.append(dict(t.directives))
        for e in t.scope.var_entries:
            try:
                k = kind(e.type)
            except EngineUnsupported:
                continue
            if isinstance(k, tuple) and not e.is_type:
                for f, c in struct_fields(e.type)[0]:
                    self.emit('%s__%s = %s' % (e.name, f, '0' if c[0] != 'f' else '0.0'))
            elif not isinstance(k, tuple) and k in INTS.values() and e.name:
                self.emit('%s = %s' % (e.name, '0' if k[0] != 'f' else '0.0'))
        self.own = set()
        self.collect(t.body)
        self.stat(t.body)
        return '\n'.join(self.out) + '\n'

    def collect(self, n):
        tn = type(n).__name__
        if tn == 'CFuncDefNode':
            self.own.add(n.entry.name)
        elif tn == 'DefNode':
            self.own.add(n.name)
        for x in getattr(n, 'stats', None) or ():
            self.collect(x)
        if tn == 'CompilerDirectivesNode':
            self.collect(n.body)

    def stat(self, n):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise EngineUnsupported('cython statement %s' % type(n).__name__)
        m(n)

    def block(self, n):
        self.ind += 1
        k = len(self.out)
        if n is not None:
            self.stat(n)
        if len(self.out) == k:
            self.emit('pass')
        self.ind -= 1

    def s_StatListNode(self, n):
        for x in n.stats:
            self.stat(x)

    def skip(self, n):
        pass
    s_CImportStatNode = s_FromCImportStatNode = s_CTypeDefNode = s_CStructOrUnionDefNode = s_CVarDefNode = s_CEnumDefNode = skip
    s_CDeclaratorNode = s_CNameDeclaratorNode = s_PropertyNode = s_CDefExternNode = skip

    def s_CompilerDirectivesNode(self, n):
        self.directives.append(dict(n.directives))
        self.stat(n.body)
        self.directives.pop()

    def s_PassStatNode(self, n):
        self.emit('pass')

    def s_BreakStatNode(self, n):
        self.emit('break')

    def s_ContinueStatNode(self, n):
        self.emit('continue')

    def s_GILStatNode(self, n):
        self.stat(n.body)

    def s_ExprStatNode(self, n):
        self.emit(self.x(n.expr))

    def s_GlobalNode(self, n):
        self.emit('global ' + ', '.join(n.names))

    def s_AssertStatNode(self, n):
        cond = getattr(n, 'condition', None) or getattr(n, 'cond', None)
        self.emit('assert ' + self.x(cond))

    def s_DelStatNode(self, n):
        self.emit('del ' + ', '.join(self.x(a) for a in n.args))

    def s_FromImportStatNode(self, n):
        m = n.module
        lvl = getattr(m, 'level', 0) or 0
        items = ', '.join('%s as %s' % (nm, t.name) for nm, t in n.items)
        modn = m.module_name.value
        if modn == '__future__':
            return
        self.emit('from %s%s import %s' % ('.' * max(lvl, 0), modn, items))

    # ------------------------------------------------------------ functions
    def arg_name(self, a):
        return a.name if getattr(a, 'name', None) else a.declarator.name

    def s_DefNode(self, n):
        if n.star_arg or n.starstar_arg:
            raise EngineUnsupported('*args in cython function')
        self.func(n, n.name, n.args)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while not hasattr(d, 'args'):
            d = d.base
        self.func(n, n.entry.name, d.args)

    def func(self, n, name, args):
        ps = []
        body = []
        for a in args:
            nm = self.arg_name(a)
            if a.default is not None:
                ps.append('%s=%s' % (nm, self.x(a.default)))
            else:
                ps.append(nm)
        self.functions.append(name)
        self.emit('def %s(%s):' % (name, ', '.join(ps)))
        self.ind += 1
        old = (self.locals, self.globdecl, self.isdef, self.rettype) if hasattr(self, 'isdef') else (None, None, None, None)
        self.locals = n.local_scope
        self.isdef = type(n).__name__ == 'DefNode'
        self.rettype = None if self.isdef else n.entry.type.return_type
        self.gpos = len(self.out)
        self.globals_used = set()
        argnames = set()
        for a in args:
            nm = self.arg_name(a)
            argnames.add(nm)
            e = n.local_scope.entries.get(nm)
            t = e.type if e is not None else a.type
            k = kind(t)
            if self.isdef:
                if k == 'py':
                    if a.not_none:
                        self.emit('%s = _cy_.not_none(%s, %r)' % (nm, nm, nm))
                    b = getattr(t, 'name', 'object')
                    if getattr(t, 'is_builtin_type', False) or getattr(t, 'is_extension_type', False):
                        self.emit('%s = _cy_.typetest(%s, %r)' % (nm, nm, b))
                elif k == 'buf':
                    self.emit('%s = _cy_.buffer(%s, %s, %d, %r)' % (nm, nm, elem_desc(t.dtype), t.ndim, bool(a.not_none)))
                elif k == 'mv':
                    self.emit('%s = _cy_.memview(%s, %s, %d, %r)' % (nm, nm, elem_desc(t.dtype), t.ndim, bool(a.not_none)))
                elif isinstance(k, tuple):
                    self.emit('%s = _cy_.struct_from_py(%s, %r)' % (nm, nm, struct_fields(t)[0]))
                elif k in ('carr', 'cfunc'):
                    raise EngineUnsupported('argument type %s' % t)
                else:
                    self.emit('%s = _cy_.from_py(%s, %r)' % (nm, nm, k))
            if isinstance(k, tuple):
                self.emit('(%s,) = %s' % (', '.join('%s__%s' % (nm, f) for f, c in struct_fields(t)[0]), nm))
        for e in n.local_scope.var_entries:
            if e.name in argnames or not e.name or e.is_arg:
                continue
            k = kind(e.type)
            if isinstance(k, tuple):
                for f, c in struct_fields(e.type)[0]:
                    self.emit('%s__%s = _cy_.UNINIT' % (e.name, f))
            elif k in ('mv',):
                self.emit('%s = _cy_.UNINIT' % e.name)
            elif k == 'buf':
                self.emit('%s = None' % e.name)
            elif k in ('carr', 'cfunc'):
                raise EngineUnsupported('local of type %s' % e.type)
            elif k != 'py' and k != 'void':
                self.emit('%s = _cy_.UNINIT' % e.name)
        k = len(self.out)
        self.stat(n.body)
        if len(self.out) == k:
            self.emit('pass')
        if self.globals_used:
            self.out.insert(self.gpos, '    ' * self.ind + 'global ' + ', '.join(sorted(self.globals_used)))
        self.ind -= 1
        self.locals, self.globdecl, self.isdef, self.rettype = old

    isdef = None
    rettype = None
    globals_used = frozenset()

    def s_ReturnStatNode(self, n):
        if n.value is None:
            self.emit('return')
        elif self.rettype is not None and kind(self.rettype) not in ('py', 'void', 'mv', 'buf'):
            self.emit('return ' + self.conv(n.value, self.rettype))
        else:
            self.emit('return ' + self.x(n.value))

    def s_RaiseStatNode(self, n):
        t = n.exc_type
        if t is None:
            self.emit('raise')
            return
        s = self.x(t)
        if n.exc_value is not None:
            s = '%s(%s)' % (s, self.x(n.exc_value))
        self.emit('raise ' + s)

    def s_ReraiseStatNode(self, n):
        self.emit('raise')

    def s_TryExceptStatNode(self, n):
        self.emit('try:')
        self.block(n.body)
        for c in n.except_clauses:
            pat = ''
            if c.pattern:
                pat = ' (' + ', '.join(self.x(p) for p in c.pattern) + ',)'
            tg = ''
            if c.target is not None:
                tg = ' as ' + c.target.name
            self.emit('except%s%s:' % (pat, tg))
            self.block(c.body)
        if n.else_clause is not None:
            self.emit('else:')
            self.block(n.else_clause)

    def s_TryFinallyStatNode(self, n):
        self.emit('try:')
        self.block(n.body)
        self.emit('finally:')
        self.block(n.finally_clause)

    # ------------------------------------------------------------ control flow
    def s_IfStatNode(self, n):
        kw = 'if'
        for c in n.if_clauses:
            self.emit('%s %s:' % (kw, self.cond(c.condition)))
            self.block(c.body)
            kw = 'elif'
        if n.else_clause is not None:
            self.emit('else:')
            self.block(n.else_clause)

    def s_WhileStatNode(self, n):
        self.emit('while %s:' % (self.cond(n.condition) if n.condition is not None else 'True'))
        self.block(n.body)
        if n.else_clause is not None:
            self.emit('else:')
            self.block(n.else_clause)

    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = it.sequence if type(it).__name__ == 'IteratorNode' else it
        if getattr(it, 'reversed', False):
            raise EngineUnsupported('reversed iteration')
        t = self.tmp()
        self.emit('for %s in %s:' % (t, self.x(seq)))
        self.ind += 1
        old = self.rename.get('next')
        self.rename['next'] = t
        item = n.item
        tgt = n.target
        if type(item).__name__ == 'NextNode':
            src, st = t, None
        else:
            src = self.x(item)
        self.store(tgt, src, item.type if type(item).__name__ != 'NextNode' else None)
        self.rename['next'] = old
        self.ind -= 1
        self.block(n.body)
        if n.else_clause is not None:
            self.emit('else:')
            self.block(n.else_clause)

    def s_ForFromStatNode(self, n):
        # for i from a <= i < b
        t = self.tmp()
        k = kind(n.target.type)
        step = self.x(n.step) if n.step is not None else '1'
        up = n.relation1 in ('<=', '<')
        a = self.x(n.bound1)
        b = self.x(n.bound2)
        if n.relation1 in ('<', '>'):
            a = '(%s) %s 1' % (a, '+' if up else '-')
        if n.relation2 in ('<=', '>='):
            b = '(%s) %s 1' % (b, '+' if up else '-')
        self.emit('for %s in range(%s, %s, %s):' % (t, a, b, step if up else '-(%s)' % step))
        self.ind += 1
        self.store(n.target, t, None)
        self.ind -= 1
        self.block(n.body)

    # ------------------------------------------------------------ assignment
    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ in ('PyCFunctionNode', 'ImportNode') and type(n.rhs).__name__ == 'PyCFunctionNode':
            return
        if type(n.rhs).__name__ == 'ImportNode':
            m = n.rhs
            lvl = getattr(m, 'level', 0) or 0
            nm = m.module_name.value
            if nm in ('cython',):
                return
            if lvl > 0:
                raise EngineUnsupported('relative import')
            if '.' in nm and n.lhs.name == nm.split('.')[0]:
                self.emit('import %s' % nm)
            else:
                self.emit('import %s as %s' % (nm, n.lhs.name))
            return
        lk = kind(n.lhs.type)
        if isinstance(lk, tuple):
            self.store(n.lhs, self.x(n.rhs), n.rhs.type)
            return
        self.store(n.lhs, self.conv(n.rhs, n.lhs.type), n.lhs.type)

    def s_CascadedAssignmentNode(self, n):
        t = self.tmp()
        self.emit('%s = %s' % (t, self.x(n.rhs)))
        lst = n.coerced_values if getattr(n, 'coerced_values', None) else None
        for k, l in enumerate(n.lhs_list):
            src = self.rhs_of(n.rhs, t, l)
            self.store(l, src, l.type)

    def rhs_of(self, rhs, t, l):
        rk, lk = kind(rhs.type), kind(l.type)
        return self.conv_code(t, rk, lk, l.type)

    def s_ParallelAssignmentNode(self, n):
        tmps = []
        for s in n.stats:
            if type(s).__name__ != 'SingleAssignmentNode':
                raise EngineUnsupported('parallel %s' % type(s).__name__)
            t = self.tmp()
            self.emit('%s = %s' % (t, self.conv(s.rhs, s.lhs.type)))
            tmps.append(t)
        for s, t in zip(n.stats, tmps):
            self.store(s.lhs, t, s.lhs.type)

    def s_InPlaceAssignmentNode(self, n):
        l = n.lhs
        lk = kind(l.type)
        if lk in ('py', 'mv', 'buf'):
            self.emit('%s %s= %s' % (self.x(l), n.operator, self.x(n.rhs)))
            return
        rs, rk = self.xc(n.rhs)
        cur = self.x(l)
        v = self.arith(n.operator, cur, lk, rs, rk, n)
        self.store(l, v[0] if v[1] == lk else self.conv_code(v[0], v[1], lk, l.type), l.type)

    def store(self, l, src, srctype):
        """l: target node; src: python expression already converted to l.type"""
        tn = type(l).__name__
        k = kind(l.type)
        if tn in ('TupleNode', 'ListNode'):
            t = [self.tmp() for _ in l.args]
            self.emit('(%s,) = %s' % (', '.join(t), src))
            for a, b in zip(l.args, t):
                self.store(a, self.conv_code(b, 'py', kind(a.type), a.type), a.type)
            return
        if tn == 'NameNode':
            self.mark_global(l)
            if isinstance(k, tuple):
                fs = struct_fields(l.type)[0]
                self.emit('(%s,) = %s' % (', '.join('%s__%s' % (l.name, f) for f, c in fs), src))
                if l.entry is not None and l.entry.scope.is_module_scope and self.locals is not None:
                    for f, c in fs:
                        self.globals_used.add('%s__%s' % (l.name, f))
                return
            self.emit('%s = %s' % (l.name, src))
            return
        if tn == 'AttributeNode':
            ok = kind(l.obj.type)
            if isinstance(ok, tuple):
                if type(l.obj).__name__ != 'NameNode':
                    raise EngineUnsupported('assignment to a field of %s' % type(l.obj).__name__)
                if l.obj.entry.scope.is_module_scope and self.locals is not None:
                    self.globals_used.add('%s__%s' % (l.obj.name, l.attribute))
                self.emit('%s__%s = %s' % (l.obj.name, l.attribute, src))
                return
            self.emit('%s.%s = %s' % (self.x(l.obj), l.attribute, src))
            return
        if tn in ('MemoryViewIndexNode', 'BufferIndexNode'):
            b, ix = self.bufindex(l)
            self.emit('_cy_.bset(%s, %s, %s)' % (b, ix, src))
            return
        if tn == 'IndexNode':
            self.emit('%s[%s] = %s' % (self.x(l.base), self.x(l.index), src))
            return
        if tn == 'MemoryViewSliceNode':
            self.emit('%s[...] = %s' % (self.x(l), src))
            return
        if tn == 'SliceIndexNode':
            self.emit('%s = %s' % (self.x(l), src))
            return
        raise EngineUnsupported('assignment to %s' % tn)

    s_dummy = None

    def mark_global(self, l):
        e = l.entry
        if self.locals is not None and e is not None and e.scope.is_module_scope:
            self.globals_used.add(l.name)

    # ------------------------------------------------------------ conversions
    def conv(self, n, t):
        """expression of node n converted to C type t"""
        s, c = self.xc(n)
        return self.conv_code(s, c, kind(t), t, n)

    def xc(self, n):
        """(expression, C type code of the expression as generated); Cython emits C integer
        expressions inline, so the arithmetic type follows C's rules and not the node's type"""
        tn = type(n).__name__
        if tn == 'IntNode' and kind(n.type) not in ('py',):
            s = self.x(n)
            return s, ('i32' if -2 ** 31 <= int(s) < 2 ** 31 and not n.is_c_literal_long() else 'i64') if hasattr(n, 'is_c_literal_long') else \
                ('i32' if -2 ** 31 <= int(s) < 2 ** 31 else 'i64')
        if tn in BINOPS and kind(n.type) not in ('py', 'buf', 'mv'):
            (a, ca), (b, cb) = self.xc(n.operand1), self.xc(n.operand2)
            return self.arith(n.operator, a, ca, b, cb, n)
        if tn == 'UnaryMinusNode' and kind(n.type) not in ('py',):
            s, c = self.xc(n.operand)
            if c[0] == 'f':
                return '(-%s)' % s, c
            try:
                return str(-int(s)), promote(c)
            except ValueError:
                pass
            c2 = promote(c)
            return '_cy_.isub(0, %s, %r)' % (self.conv_code(s, c, c2, None), c2), c2
        if tn in ('CloneNode', 'ProxyNode'):
            return self.xc(n.arg)
        if tn in ('CoerceToTempNode',):
            s, c = self.xc(n.arg)
            k = kind(n.type)
            return (self.conv_code(s, c, k, n.type) if c != k else s), k
        return self.x(n), kind(n.type)

    def conv_code(self, s, rk, lk, lt, n=None):
        if rk == lk or lk in ('void',):
            if lk == 'buf':
                return '_cy_.buffer(%s, %s, %d, False)' % (s, elem_desc(lt.dtype), lt.ndim)
            return s
        if lk == 'py':
            if rk in ('py', 'mv', 'buf'):
                return s
            return self.to_py(s, rk, None)
        if lk == 'buf':
            return '_cy_.buffer(%s, %s, %d, False)' % (s, elem_desc(lt.dtype), lt.ndim)
        if lk == 'mv':
            if rk == 'mv':
                return s
            return '_cy_.memview(%s, %s, %d, False)' % (s, elem_desc(lt.dtype), lt.ndim)
        if rk in ('py', 'buf', 'mv'):
            if isinstance(lk, tuple):
                return '_cy_.struct_from_py(%s, %r)' % (s, struct_fields(lt)[0])
            return '_cy_.from_py(%s, %r)' % (s, lk)
        if isinstance(rk, tuple) or isinstance(lk, tuple) or rk in ('cfunc', 'carr', 'void'):
            raise EngineUnsupported('conversion %s -> %s' % (rk, lk))
        try:
            v = int(s)
            if lk[0] == 'f':
                return s + '.0'
            if lk == 'bint':
                return s
            b, sg = cyrt.BITS[lk]
            v &= (1 << b) - 1
            if sg and v >> (b - 1):
                v -= 1 << b
            return str(v)
        except ValueError:
            pass
        if lk != 'bint' and lk[0] != 'f' and rk[0] != 'f' and rk != 'bint':
            (rb, rs), (lb, ls) = cyrt.BITS[rk], cyrt.BITS[lk]
            if (rs == ls and rb <= lb) or (not rs and ls and rb < lb):
                return s
        if rk == 'f32' and lk == 'f64':
            return s
        return '_cy_.cv(%s, %r, %r)' % (s, rk, lk)

    def to_py(self, s, rk, t):
        if isinstance(rk, tuple):
            return s
        if rk == 'bint':
            return '_cy_.bool_to_py(%s)' % s
        return '_cy_.to_py(%s, %r)' % (s, rk)

    # ------------------------------------------------------------ expressions
    def cond(self, n):
        k = kind(n.type)
        s = self.x(n)
        if k in ('py', 'bint', 'buf') or self.boolish(n):
            return s
        return '(%s != 0)' % s

    def boolish(self, n):
        tn = type(n).__name__
        if tn in ('PrimaryCmpNode', 'NotNode', 'CoerceToBooleanNode', 'CascadedCmpNode', 'BoolNode'):
            return True
        if tn in ('CoerceToTempNode', 'CloneNode', 'ProxyNode', 'BoolBinopResultNode'):
            return self.boolish(n.arg)
        if tn == 'BoolBinopNode':
            return self.boolish(n.operand1) and self.boolish(n.operand2)
        return False

    def x(self, n):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise EngineUnsupported('cython expression %s' % type(n).__name__)
        return m(n)

    def x_arg(self, n):
        return self.x(n.arg)
    x_CoerceToTempNode = x_CloneNode = x_ProxyNode = x_NoneCheckNode = x_BoolBinopResultNode = x_arg
    x_CoerceToComplexNode = None

    def x_CoerceToBooleanNode(self, n):
        k = kind(n.arg.type)
        s = self.x(n.arg)
        if k in ('py', 'buf', 'mv'):
            return '_cy_.truth(%s)' % s if kind(n.type) != 'py' else s
        if k == 'bint':
            return s
        return '(%s != 0)' % s

    def x_CoerceFromPyTypeNode(self, n):
        return self.conv_code(self.x(n.arg), 'py', kind(n.type), n.type)

    def x_CoerceToPyTypeNode(self, n):
        k = kind(n.arg.type)
        if isinstance(k, tuple):
            return '_cy_.struct_to_py(%s, %r)' % (self.x(n.arg), struct_fields(n.arg.type)[0])
        return self.conv_code(self.x(n.arg), k, 'py', None)

    x_CoerceIntToBytesNode = None

    def x_CoerceToMemViewSliceNode(self, n):
        return '_cy_.memview(%s, %s, %d, False)' % (self.x(n.arg), elem_desc(n.type.dtype), n.type.ndim)

    def x_PyTypeTestNode(self, n):
        if kind(n.type) == 'buf':
            return self.x(n.arg)
        return '_cy_.typetest(%s, %r)' % (self.x(n.arg), getattr(n.type, 'name', 'object'))

    def x_TypecastNode(self, n):
        lk = kind(n.type)
        s = self.x(n.operand)
        rk = kind(n.operand.type)
        if lk == 'py':
            if n.typecheck:
                return '_cy_.typetest(%s, %r)' % (self.conv_code(s, rk, 'py', None), getattr(n.type, 'name', 'object'))
            return self.conv_code(s, rk, 'py', None)
        if lk == rk:
            return s
        return self.conv_code(s, rk, lk, n.type)

    def x_NameNode(self, n):
        k = kind(n.type) if not (n.entry is not None and n.entry.is_type) else 'py'
        nm = n.name
        if isinstance(k, tuple):
            return '(%s,)' % ', '.join('%s__%s' % (nm, f) for f, c in struct_fields(n.type)[0])
        if k == 'cfunc':
            e = n.entry
            if e is not None and e.scope is not None and not e.scope.is_module_scope:
                pass
            return nm
        if n.entry is not None and n.entry.is_type and nm in cyrt.EXTTYPES:
            return '_cy_.%s' % nm
        return nm

    def x_IntNode(self, n):
        v = n.value
        if isinstance(v, str):
            v = v.rstrip('uUlL')
            v = int(v, 0) if not (len(v) > 1 and v[0] == '0' and v[1].isdigit()) else int(v, 8)
        return str(int(v))

    def x_FloatNode(self, n):
        return repr(float(n.value))

    def x_BoolNode(self, n):
        return 'True' if n.value else 'False'

    def x_NoneNode(self, n):
        return 'None'

    def x_UnicodeNode(self, n):
        return repr(str(n.value))
    x_IdentifierStringNode = x_StringNode = x_UnicodeNode

    def x_BytesNode(self, n):
        return repr(bytes(n.value))

    def x_EllipsisNode(self, n):
        return '...'

    def x_AttributeNode(self, n):
        ok = kind(n.obj.type) if getattr(n.obj, 'type', None) is not None else 'py'
        if isinstance(ok, tuple):
            if type(n.obj).__name__ == 'NameNode':
                return '%s__%s' % (n.obj.name, n.attribute)
            fs = [f for f, c in struct_fields(n.obj.type)[0]]
            return '%s[%d]' % (self.x(n.obj), fs.index(n.attribute))
        if getattr(n, 'is_py_attr', False) is False and n.entry is not None and getattr(n.entry, 'is_cfunction', False) and \
                getattr(n.obj, 'cython_attribute', None) is None and getattr(n, 'obj', None) is not None and \
                type(n.obj).__name__ == 'NameNode' and n.obj.entry is not None and getattr(n.obj.entry, 'as_module', None) is not None:
            return '_cy_.cfunction(%r, %r)' % (n.obj.name, n.attribute)
        return '%s.%s' % (self.x(n.obj), n.attribute)

    def args(self, n):
        if getattr(n, 'arg_tuple', None) is not None:
            t = n.arg_tuple
            if type(t).__name__ != 'TupleNode':
                return ['*%s' % self.x(t)]
            return [self.x(a) for a in t.args]
        return None

    def x_SimpleCallNode(self, n):
        f = n.function
        fk = kind(f.type) if getattr(f, 'type', None) is not None else 'py'
        if fk == 'cfunc':
            ft = f.type
            if getattr(ft, 'is_ptr', False):
                ft = ft.base_type
            a = []
            args = list(n.args)
            if type(f).__name__ == 'AttributeNode' and kind(f.obj.type) == 'py' and not (
                    type(f.obj).__name__ == 'NameNode' and f.obj.entry is not None and getattr(f.obj.entry, 'as_module', None)):
                if args and (len(args) == len(ft.args)):
                    args = args[1:]      # self
                    pts = ft.args[1:]
                else:
                    pts = ft.args
                a = [self.conv(x, p.type) for x, p in zip(args, pts)]
                return '%s.%s(%s)' % (self.x(f.obj), f.attribute, ', '.join(a))
            for x, p in zip(args, ft.args):
                a.append(self.conv(x, p.type))
            if type(f).__name__ == 'NameNode' and f.entry is not None:
                if f.name in self.own:
                    return '%s(%s)' % (f.name, ', '.join(a))
                return '_cy_.libcall(%r, [%s])' % (f.name, ', '.join(a))
            if type(f).__name__ == 'AttributeNode':
                return '_cy_.libcall(%r, [%s])' % (f.attribute, ', '.join(a))
            raise EngineUnsupported('call of %s' % type(f).__name__)
        a = self.args(n)
        if a is None:
            a = [self.conv_code(self.x(x), kind(x.type), 'py', None) for x in (n.args or [])]
        return '%s(%s)' % (self.x(f), ', '.join(a))

    x_PyMethodCallNode = x_SimpleCallNode

    def x_GeneralCallNode(self, n):
        pos = n.positional_args
        a = [self.x(p) for p in pos.args] if type(pos).__name__ == 'TupleNode' else ['*' + self.x(pos)]
        kw = n.keyword_args
        if kw is not None:
            if type(kw).__name__ == 'DictNode':
                for it in kw.key_value_pairs:
                    a.append('%s=%s' % (it.key.value, self.x(it.value)))
            else:
                a.append('**' + self.x(kw))
        return '%s(%s)' % (self.x(n.function), ', '.join(a))

    def seq(self, n, o, c):
        if getattr(n, 'mult_factor', None):
            raise EngineUnsupported('sequence multiplication')
        s = ', '.join(self.conv_code(self.x(a), kind(a.type), 'py', None) for a in n.args)
        if o == '(' and len(n.args) == 1:
            s += ','
        return o + s + c

    def x_TupleNode(self, n):
        return self.seq(n, '(', ')')

    def x_ListNode(self, n):
        return self.seq(n, '[', ']')

    def x_DictNode(self, n):
        return '{%s}' % ', '.join('%s: %s' % (self.x(i.key), self.x(i.value)) for i in n.key_value_pairs)

    def x_SliceNode(self, n):
        return 'slice(%s, %s, %s)' % (self.x(n.start), self.x(n.stop), self.x(n.step))

    def x_SliceIndexNode(self, n):
        return '%s[%s:%s]' % (self.x(n.base), self.x(n.start) if n.start is not None else '', self.x(n.stop) if n.stop is not None else '')

    def x_IndexNode(self, n):
        bk = kind(n.base.type) if getattr(n.base, 'type', None) is not None else 'py'
        i = self.x(n.index)
        if bk == 'carr' and type(n.base).__name__ == 'AttributeNode' and n.base.attribute == 'shape':
            return '%s.shape[%s]' % (self.x(n.base.obj), i)
        if bk == 'carr':
            raise EngineUnsupported('C array')
        return '%s[%s]' % (self.x(n.base), i)

    def bufindex(self, n):
        bc = self.directive('boundscheck', True)
        wa = self.directive('wraparound', True)
        ix = []
        for i in n.indices:
            k = kind(i.type)
            if k == 'py':
                ix.append("_cy_.from_py(%s, 'i64')" % self.x(i))
            else:
                ix.append(self.x(i))
        w = wa
        return self.x(n.base), '(%s,), %r, %r' % (', '.join(ix), bool(bc), bool(w))

    def x_MemoryViewIndexNode(self, n):
        b, ix = self.bufindex(n)
        k = kind(n.type)
        return '_cy_.bget(%s, %s)' % (b, ix)
    x_BufferIndexNode = x_MemoryViewIndexNode

    def x_MemoryViewSliceNode(self, n):
        return '%s[%s]' % (self.x(n.base), ', '.join(self.x(i) for i in n.indices))

    def x_MemoryCopyScalar(self, n):
        raise EngineUnsupported('memoryview scalar copy')

    # ---- operators
    def arith(self, op, a, ca, b, cb, n):
        """-> (expr, code)"""
        if 'carr' in (ca, cb) or isinstance(ca, tuple) or isinstance(cb, tuple):
            raise EngineUnsupported('operator %s on %s, %s' % (op, ca, cb))
        c = uac(ca, cb)
        if op in ('<<', '>>'):
            c = promote(ca)
        if op == '/' and c[0] != 'f':
            if getattr(n, 'truedivision', False) or self.directive('language_level', 3) in (3, '3', '3str'):
                c = 'f64'
        a = self.conv_code(a, ca, c, None)
        if op not in ('<<', '>>'):
            b = self.conv_code(b, cb, c, None)
        if c[0] == 'f':
            if op in ('+', '-', '*'):
                s = '(%s %s %s)' % (a, op, b)
            elif op == '/':
                s = '(%s / %s)' % (a, b)
                if self.directive('cdivision', False):
                    s = '_cy_.cfdiv(%s, %s)' % (a, b)
            elif op == '**':
                s = '(%s ** %s)' % (a, b)
            elif op == '%':
                s = '(%s %% %s)' % (a, b)
            elif op == '//':
                s = '(%s // %s)' % (a, b)
            else:
                raise EngineUnsupported('operator %s' % op)
            return ('_cy_.f32(%s)' % s if c == 'f32' else s), c
        names = {'+': 'iadd', '-': 'isub', '*': 'imul', '//': 'idiv', '/': 'idiv', '%': 'imod', '&': 'iand', '|': 'ior', '^': 'ixor', '<<': 'ishl', '>>': 'ishr', '**': 'ipow'}
        nm = names[op]
        if nm in ('idiv', 'imod') and self.directive('cdivision', False):
            nm = 'c' + nm
        return '_cy_.%s(%s, %s, %r)' % (nm, a, b, c), c

    def binop(self, n):
        k = kind(n.type)
        if k in ('py', 'buf', 'mv'):
            a, b = (self.conv_code(self.x(o), kind(o.type), 'py', None) for o in (n.operand1, n.operand2))
            return '(%s %s %s)' % (a, n.operator, b)
        s, c = self.xc(n)
        return self.conv_code(s, c, k, n.type) if c != k else s
    x_AddNode = x_SubNode = x_MulNode = x_DivNode = x_ModNode = x_PowNode = x_IntBinopNode = x_NumBinopNode = binop

    def x_UnaryMinusNode(self, n):
        k = kind(n.type)
        if k == 'py' or k[0] == 'f':
            return '(-%s)' % self.x(n.operand)
        s, c = self.xc(n)
        return s if c == k else self.conv_code(s, c, k, n.type)

    def x_UnaryPlusNode(self, n):
        return self.x(n.operand)

    def x_TildeNode(self, n):
        k = kind(n.type)
        if k == 'py':
            return '(~%s)' % self.x(n.operand)
        raise EngineUnsupported('~ on C ints')

    def x_NotNode(self, n):
        return '(not %s)' % self.cond(n.operand)

    def x_BoolBinopNode(self, n):
        return '(%s %s %s)' % (self.x(n.operand1), n.operator, self.x(n.operand2))

    def simple(self, n):
        tn = type(n).__name__
        if tn in ('IntNode', 'FloatNode', 'NameNode', 'BoolNode'):
            return True
        if tn in ('CoerceToTempNode', 'CloneNode', 'ProxyNode'):
            return self.simple(n.arg)
        if tn == 'AttributeNode':
            return isinstance(kind(n.obj.type), tuple) and self.simple(n.obj)
        if tn == 'ResultRefNode':
            return True
        return False

    def x_CondExprNode(self, n):
        k = kind(n.type)
        a = self.conv(n.true_val, n.type)
        b = self.conv(n.false_val, n.type)
        if k not in ('py', 'mv', 'buf') and not isinstance(k, tuple) and self.simple(n.true_val) and self.simple(n.false_val):
            return '_cy_.select(%s, %s, %s)' % (self.cond(n.condition), a, b)
        return '(%s if %s else %s)' % (a, self.cond(n.condition), b)

    def cmp1(self, op, a, ca, b, cb):
        if ca == 'py' or cb == 'py' or ca in ('buf', 'mv') or cb in ('buf', 'mv'):
            a = self.conv_code(a, ca, 'py', None)
            b = self.conv_code(b, cb, 'py', None)
            return '(%s %s %s)' % (a, op.replace('_', ' '), b)
        if isinstance(ca, tuple) or isinstance(cb, tuple):
            raise EngineUnsupported('struct comparison')
        c = uac(ca, cb)
        a, b = self.conv_code(a, ca, c, None), self.conv_code(b, cb, c, None)
        return '(%s %s %s)' % (a, op, b)

    def x_PrimaryCmpNode(self, n):
        op = {'is_not': 'is not', 'not_in': 'not in'}.get(n.operator, n.operator)
        parts = []
        l, r = n.operand1, n.operand2
        ls, lk = self.xc(l)
        c = n
        while c is not None:
            r = c.operand2
            rs, rk = self.xc(r)
            op = {'is_not': 'is not', 'not_in': 'not in', '<>': '!='}.get(c.operator, c.operator)
            if op in ('in', 'not in', 'is', 'is not'):
                parts.append('(%s %s %s)' % (self.conv_code(ls, lk, 'py', None), op, self.conv_code(rs, rk, 'py', None)))
            else:
                if c.cascade is not None and not self.simple(r):
                    t = self.tmp()
                    parts.append(self.cmp1(op, ls, lk, '(%s := %s)' % (t, rs), rk))
                    rs = t
                else:
                    parts.append(self.cmp1(op, ls, lk, rs, rk))
            ls, lk = rs, rk
            c = c.cascade
        s = parts[0] if len(parts) == 1 else '(%s)' % ' and '.join(parts)
        return s
    x_CascadedCmpNode = x_PrimaryCmpNode

    def x_NextNode(self, n):
        return self.rename['next']

    # ---- comprehensions
    def comp(self, loop):
        """[expr for ...] from a (nest of) loops ending in an append"""
        body = loop
        gens = []
        while True:
            tn = type(body).__name__
            if tn == 'StatListNode' and len(body.stats) == 1:
                body = body.stats[0]
            elif tn == 'ForInStatNode':
                seq = body.iterator.sequence if type(body.iterator).__name__ == 'IteratorNode' else body.iterator
                if type(body.target).__name__ != 'NameNode':
                    raise EngineUnsupported('comprehension target')
                k = kind(body.target.type)
                gens.append('for %s in %s' % (body.target.name, self.x(seq)))
                if k != 'py':
                    gens.append('for %s in (_cy_.from_py(%s, %r),)' % (body.target.name, body.target.name, k))
                body = body.body
            elif tn == 'IfStatNode' and len(body.if_clauses) == 1 and body.else_clause is None:
                gens.append('if %s' % self.cond(body.if_clauses[0].condition))
                body = body.if_clauses[0].body
            elif tn == 'ComprehensionAppendNode':
                e = self.conv_code(self.x(body.expr), kind(body.expr.type), 'py', None)
                return e, ' '.join(gens)
            elif tn == 'ExprStatNode' and type(body.expr).__name__ in ('YieldExprNode', 'ComprehensionAppendNode'):
                ex = body.expr
                v = ex.arg if hasattr(ex, 'arg') else ex.expr
                return self.conv_code(self.x(v), kind(v.type), 'py', None), ' '.join(gens)
            else:
                raise EngineUnsupported('comprehension body %s' % tn)

    def x_ComprehensionNode(self, n):
        e, g = self.comp(n.loop)
        nm = getattr(n.type, 'name', 'list')
        return ('[%s %s]' if nm == 'list' else '{%s %s}') % (e, g)

    def x_InlinedGeneratorExpressionNode(self, n):
        g = n.gen
        loop = getattr(g, 'loop', None)
        if loop is None:
            loop = g.def_node.gbody.body
        e, gs = self.comp(loop)
        f = getattr(n, 'orig_func', None) or getattr(n.type, 'name', None)
        if f in ('sum', 'all', 'any', 'sorted', 'set', 'tuple', 'list', 'dict', 'max', 'min', 'frozenset'):
            return '%s([%s %s])' % (f, e, gs)
        return '[%s %s]' % (e, gs)

    def x_GeneratorExpressionNode(self, n):
        loop = getattr(n, 'loop', None)
        if loop is None:
            loop = n.def_node.gbody.body
        e, gs = self.comp(loop)
        return '[%s %s]' % (e, gs)

    def x_EvalWithTempExprNode(self, n):
        t = self.tmp()
        key = id(n.lazy_temp)
        src = self.x(n.lazy_temp.expression)
        self.rename[key] = t
        return '((%s := %s), %s)[1]' % (t, src, self.x(n.subexpression))

    def x_ResultRefNode(self, n):
        t = self.rename.get(id(n))
        if t is None:
            if n.expression is not None:
                return self.x(n.expression)
            raise EngineUnsupported('result reference')
        return t

    def x_DefaultLiteralArgNode(self, n):
        return self.x(n.arg)

    def x_FormattedValueNode(self, n):
        return 'format(%s)' % self.conv_code(self.x(n.value), kind(n.value.type), 'py', None)

    def x_JoinedStrNode(self, n):
        return "''.join([%s])" % ', '.join(self.x(v) for v in n.values)


def translate(path, modname, root):
    t = typed_tree(path, modname, root)
    g = Gen()
    src = g.module(t)
    return src, g.functions


def load(path, modname, root, package):
    """Translate and execute; returns (module, source, functions)."""
    src, fns = translate(path, modname, root)
    m = types.ModuleType(modname)
    m.__package__ = package
    m.__file__ = os.path.join(root, path) + '.translated.py'
    code = compile(src, m.__file__, 'exec')
    exec(code, m.__dict__)
    return m, src, fns
