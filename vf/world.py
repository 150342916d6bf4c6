"""Closed-program contracts: executing the module's table initialisation and lookup code with the Python C API modelled."""
import re, os, glob
import z3
from .poly import Poly
from . import ir, kern
from .ex import Ex, State, Ptr, Vec, Undef, Undecided, Fork, Cells, Agg, C0, TRUE, FALSE, ccmp

class GCells(Cells):
    """a mutable global: initialiser overlaid with stores"""
    def __init__(self, name, ty, init):
        Cells.__init__(self, name, ir.size(ty), {})
        self.g = kern.GConst(name, ty, init)
    def missing(self, ex, st, o, ty):
        if self.g.init is None: raise Undecided('external global %s' % self.name)
        if self.g.init == ('zero',):
            if ty == 'ptr': return Ptr(None, C0)
            if ty[0] == 'i': return FALSE if ty[1] == 1 else C0
            return ex.const(ty, ('zero',), st)
        r = self.g.elem(ex, st, self.g.ty, self.g.init, o, ty)
        if r is None:
            # scalars of another width inside integer arrays
            if isinstance(ty, tuple) and ty[0] == 'i':
                by = []
                for i in range(ty[1]//8):
                    v = self.byte(ex, st, o + i)
                    by.append(v)
                return ex.frombits(kern.cat(by), ty)
            raise Undecided('global %s at %d' % (self.name, o))
        return r
    def byte(self, ex, st, o):
        for w in (8, 4, 2, 1):
            b = o//w*w
            try: v = self.g.elem(ex, st, self.g.ty, self.g.init, b, ('i', w*8))
            except Exception: v = None
            if isinstance(v, Poly): return z3.BitVecVal((v.cval() >> (8*(o-b))) & 255, 8)
        raise Undecided('byte of global')
    def store(self, ex, st, off, ty, v, x):
        Cells.store(self, ex, st, off, ty, v, x)

class PyObj:
    """an opaque Python object: immortal reference count"""
    def __init__(self, name): self.name = name
    def load(self, ex, st, off, ty, x):
        if off.isconst() and off.cval() in (0, 4) and ty[0] == 'i': return Poly.const(-1)
        if off.isconst() and off.cval() == 8 and ty == 'ptr': return Ptr('py:type', C0)
        if off.isconst() and ty[0] == 'i': return C0
        raise Undecided('field %s of python object %s' % (off, self.name))
    def store(self, ex, st, off, ty, v, x):
        if off.isconst() and off.cval() == 0: return
        raise Undecided('store to python object')
class ApiTable:
    def __init__(self, kind): self.kind = kind
    def load(self, ex, st, off, ty, x):
        return Ptr('@%s#%d' % (self.kind, off.cval()//8), C0)
    def store(self, *a): raise Undecided('store to API table')

class World(kern.Base):
    def __init__(self): self.over = {}
    def gvar(self, ex, st, n, g):
        if n in ('_ZL11PyUFunc_API', 'PyUFunc_API'): return GP(Ptr('uf#', C0))
        if n in ('_ZL11PyArray_API', 'PyArray_API'): return GP(Ptr('ar#', C0))
        if n in self.over: return self.over[n]
        if g is None or g.get('init') is None:
            if n.endswith(('Struct', '_Type')): return PyObj(n)
            if n.startswith(('Py', '_Py')): return GP(Ptr('py:' + n, C0))
            return None
        o = GCells('@' + n, g['ty'], g['init'])
        return o
    def obj(self, ex, st, p):
        b = p.b
        if b == 'uf#': return ApiTable('ufunc')
        if b == 'ar#': return ApiTable('array')
        if b and b.startswith('py:') and b not in st.mem: return PyObj(b)
        return kern.Base.obj(self, ex, st, p)
    def ptr_eq(self, ex, st, a, b):
        if a.b is None and a.o == C0 and b.b is not None: return FALSE
        if b.b is None and b.o == C0 and a.b is not None: return FALSE
        if a.b is not None and b.b is not None and a.b != b.b: return FALSE
        return None
class GP:
    """global holding one pointer that never changes"""
    def __init__(self, p): self.p = p
    def load(self, ex, st, off, ty, x): return self.p
    def store(self, ex, st, off, ty, v, x): pass

def api_index(incs):
    """C API function name -> '@ufunc#k' / '@array#k'"""
    out = {}
    for inc in incs:
        d = inc[2:] if inc.startswith('-I') else inc
        for f, kind, tab in (('__ufunc_api.h', 'ufunc', 'PyUFunc_API'), ('__multiarray_api.h', 'array', 'PyArray_API')):
            for p in glob.glob(os.path.join(d, 'numpy', f)) + glob.glob(os.path.join(d, '**', f), recursive=False):
                t = open(p).read()
                for m in re.finditer(r'#define (\w+) \\\s*\n\s*\(\*\(.*?\)\s*\\?\s*\n?\s*%s\[(\d+)\]\)' % tab, t, re.S):
                    if m.group(0).count('#define') == 1: out.setdefault(m.group(1), '%s#%s' % (kind, m.group(2)))
    return out

def start(ex, fname, args, mod=None, mem=None):
    mod = mod or ex.mods[0]
    f = mod.func(fname)
    if f is None: raise Undecided('no function ' + fname)
    st = State()
    st.env = {}; st.fn = f; st.mod = mod; st.prev = None; st.ip = 0; st.facts = []; st.data = []; st.sub = {}
    st.mem = dict(mem or {}); st.g = {}; st.trace = None; st.frame = fname; st.blk = f.order[0]
    if len(args) != len(f.params): raise Undecided('signature of ' + fname)
    for (t, n), a in zip(f.params, args): st.env[n] = a
    return st

def cstr(ex, st, p):
    """the C string at a pointer to constant data"""
    out = b''
    o = ex.obj(st, p)
    off = p.o
    while True:
        v = o.load(ex, st, off, ('i', 8), None)
        if not v.isconst(): raise Undecided('string')
        c = v.cval() & 255
        if c == 0: return out.decode()
        out += bytes([c]); off = off + 1

class Install:
    """newinit executed: what is registered with NumPy, and the function tables it leaves behind"""
    def __init__(self, mods, incs, deadline=120):
        import time
        self.mods = mods
        api = api_index(incs)
        self.api = api
        self.loops = []         # (ufunc name, loop symbol, signature)
        self.desc = []          # (descr type, slot, offset, symbol)
        self.dict = []
        w = World(); ex = Ex(mods, w, 'newinit')
        ex.concrete = True; ex.params = frozenset(); ex.deadline = time.time() + deadline
        n = [0]
        def py(tag):
            n[0] += 1
            return Ptr('py:%s' % tag, C0)
        H = ex.hooks
        H['PyImport_ImportModule'] = lambda ex, s, a, i: py('mod:' + cstr(ex, s, a[0]))
        H['PyObject_GetAttrString'] = lambda ex, s, a, i: py('attr:' + cstr(ex, s, a[1]))
        H['PyTuple_New'] = lambda ex, s, a, i: py('tuple%d' % n[0])
        H['PyTuple_SetItem'] = lambda ex, s, a, i: C0
        H['PyList_SetItem'] = lambda ex, s, a, i: C0
        H['PyLong_FromLongLong'] = lambda ex, s, a, i: py('int%d' % n[0])
        H['PyLong_FromLong'] = H['PyLong_FromSsize_t'] = H['PyLong_FromVoidPtr'] = H['PyLong_FromLongLong']
        H['PyUnicode_FromString'] = lambda ex, s, a, i: py('str:' + cstr(ex, s, a[0]))
        H['PyDict_New'] = lambda ex, s, a, i: py('dict')
        H['PyDict_SetItem'] = lambda ex, s, a, i: C0
        H['PyCallable_Check'] = lambda ex, s, a, i: Poly.const(1)
        H['PyObject_CallObject'] = H['PyObject_Call'] = lambda ex, s, a, i: py('result%d' % n[0])
        H['PyObject_TypeCheck'] = lambda ex, s, a, i: Poly.const(1)
        H['PyType_IsSubtype'] = lambda ex, s, a, i: Poly.const(1)
        for k in ('_Py_Dealloc', 'Py_DecRef', 'Py_IncRef'): H[k] = lambda ex, s, a, i: None
        for k in ('printf', 'puts', 'putchar', 'fflush'): H[k] = lambda ex, s, a, i: C0
        def imp(ex, s, a, i): return C0
        for m in mods:
            for f in list(m.ftext) + list(m.decls):
                if re.search(r'_?import_(umath|array)', f): H[f] = imp
        def err(ex, s, a, i):
            raise Undecided('initialisation takes an error path')
        for k in ('PyErr_Format', 'PyErr_SetString'): H[k] = err
        H['PyErr_Print'] = err
        def alloc(ex, s, a, i):
            t = a[2]
            if not isinstance(t, Poly) or not t.isconst(): raise Undecided('array type')
            return Ptr('arr:%d' % t.cval(), C0)
        for m in mods:
            for f in list(m.ftext) + list(m.decls):
                if 'AllocateNumpyArray' in f: H[f] = alloc
        def repl(ex, s, a, i):
            u, fn, sig, old = a
            if not u.b.startswith('py:attr:'): raise Undecided('ufunc object')
            sg = []
            nin = None
            for k in range(3):
                v = ex.load(s, ('i', 32), Ptr(sig.b, sig.o + 4*k), None)
                sg.append(v.cval() if isinstance(v, Poly) and v.isconst() else None)
            name = u.b[8:]
            self.loops.append((name, fn.b[1:] if fn.b else None, sg))
            ex.store(s, 'ptr', Ptr('@old:%s:%d' % (name, sg[0]), C0), old, None)
            return C0
        H[api['PyUFunc_ReplaceLoopBySignature']] = repl
        H[api.get('PyArray_DescrFromType', 'x#')] = lambda ex, s, a, i: Ptr('descr:%d' % a[0].cval(), C0)
        base = w.obj
        me = self
        class Arrobj:
            def __init__(s, t): s.t = t
            def load(s, ex, st, off, ty, x):
                o = off.cval()
                if o == 56: return Ptr('descr:%s' % s.t, C0)
                if o in (0, 4) and ty[0] == 'i': return Poly.const(-1)
                raise Undecided('array field %d' % o)
            def store(s, *a): raise Undecided('store to array object')
        class Descr:
            def __init__(s, t): s.t = t
            def load(s, ex, st, off, ty, x):
                o = off.cval()
                if o == 64: return Ptr('funcs:%s' % s.t, C0)
                if o in (0, 4) and ty[0] == 'i': return Poly.const(-1)
                raise Undecided('descr field %d' % o)
            def store(s, *a): raise Undecided('store to descr')
        class Funcs:
            def __init__(s, t, c): s.t = t; s.c = c
            def load(s, ex, st, off, ty, x):
                o = off.cval()
                return s.c.get(o) or Ptr('@oldf:%s:%d' % (s.t, o), C0)
            def store(s, ex, st, off, ty, v, x):
                c = dict(s.c); c[off.cval()] = v
                st.mem['funcs:%s' % s.t] = Funcs(s.t, c)
                me.desc.append((int(s.t), off.cval(), v.b[1:] if v.b else None))
        def obj(ex, st, p):
            b = p.b
            if b in st.mem: return st.mem[b]
            if b and b.startswith('arr:'): return Arrobj(b[4:])
            if b and b.startswith('descr:'): return Descr(b[6:])
            if b and b.startswith('funcs:'): return Funcs(b[6:], {})
            return base(ex, st, p)
        w.obj = obj
        def set_avx(s): s.mem['@g_avx2'] = Cells('@g_avx2', 4, {0: (4, Poly.const(1), ('i', 32))})
        st = start(ex, 'newinit', [Ptr('py:self', C0), Ptr('py:args', C0), Ptr('py:kw', C0)])
        set_avx(st)
        res = [r for r in ex.explore(st, None) if r[0] == 'ret']
        if len(res) != 1: raise Undecided('initialisation returns on %d paths' % len(res))
        self.ex = ex; self.st = res[0][1]; self.ret = res[0][2]
        self.w = w
    def rd(self, table, off, ty):
        return self.ex.load(self.st, ty, Ptr('@' + table, Poly.const(off)), None)
