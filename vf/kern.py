"""Contracts of the array kernels and the memory model they are verified in.

Contract of an elementwise kernel f(in1,in2,out,n,s1,s2,so):
  requires n>=1; each array is addressed at base+i*stride, i<n; base aligned to the element size; out does not
           overlap an input unless it has the same base and stride; elements of out do not overlap each other
  ensures  for all 0<=i<n: out[i] == op(in1[i], in2[i])   (old values), nothing else written,
           every access inside the arrays, every access that requires 32 byte alignment aligned
Ghost state: done = number of output elements written so far (a prefix); pend = elements written ahead of it.
"""
import z3
from .poly import Poly
from . import fp, ir
from .ex import (Ex, State, Ptr, Vec, Undef, Undecided, Fork, Cells, Agg, C0, TRUE, FALSE, bz, ccmp, csubst, bnot, cat, split, ext, ety, isdata, zdata)

BOOL, I8, U8, I16, U16, I32, U32, I64, U64 = range(9)
HALF, FLOAT, DOUBLE, LONGDOUBLE = 11, 12, 13, 14
SIZE = {BOOL: 1, I8: 1, U8: 1, I16: 2, U16: 2, I32: 4, U32: 4, I64: 8, U64: 8, HALF: 2, FLOAT: 4, DOUBLE: 8, LONGDOUBLE: 16}
TNAME = {BOOL: 'bool', I8: 'int8', U8: 'uint8', I16: 'int16', U16: 'uint16', I32: 'int32', U32: 'uint32', I64: 'int64', U64: 'uint64', HALF: 'float16', FLOAT: 'float32', DOUBLE: 'float64', LONGDOUBLE: 'longdouble'}
ISF = {HALF, FLOAT, DOUBLE, LONGDOUBLE}
SIGNED = {I8, I16, I32, I64}

def zconsts(e, cache):
    """free constants of a z3 term"""
    k = e.get_id()
    if k in cache: return cache[k][1]
    out = []; seen = set(); st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        else: st.extend(x.children())
    cache[k] = (e, out)
    return out

class GConst:
    """constant global: bytes from its initialiser"""
    def __init__(self, name, ty, init):
        self.name = name; self.ty = ty; self.init = init
    def elem(self, ex, st, ty, init, o, want):
        """value of type `want` at byte offset o"""
        if ty == want and o == 0: return ex.const(ty, init, st)
        if isinstance(ty, tuple) and ty[0] == 'a':
            es = ir.size(ty[2]); i = o//es
            if i >= ty[1]: return None
            if init[0] == 'zero': return self.elem(ex, st, ty[2], ('zero',), o - i*es, want)
            if init[0] == 'str':
                return Poly.const(init[1][i] - 256 if init[1][i] > 127 else init[1][i])
            if init[0] == 'agg':
                t, v = init[1][i]
                return self.elem(ex, st, t, v, o - i*es, want)
        if isinstance(ty, tuple) and ty[0] == 's':
            for i in range(len(ty[1])):
                off = ir.offset(ty, i)
                if off <= o < off + ir.size(ty[1][i]):
                    v = ('zero',) if init[0] == 'zero' else init[1][i][1]
                    return self.elem(ex, st, ty[1][i], v, o - off, want)
        if isinstance(ty, tuple) and isinstance(want, tuple) and ir.size(want) == ir.size(ty) and o == 0:
            return ex.retype(st, ex.const(ty, init, st), ty, want)
        if isinstance(ty, tuple) and ty[0] == 'v' and o % ir.size(ty[2]) == 0 and want == ty[2]:
            v = ex.const(ty, init, st)
            return ex.lanes(v, ety(ty), ty[1])[o//ir.size(ty[2])]
        return None
    def load(self, ex, st, off, ty, x):
        if not off.isconst():
            return self.symload(ex, st, off, ty)
        r = self.elem(ex, st, self.ty, self.init, off.cval(), ty)
        if r is None: raise Undecided('global %s at %s' % (self.name, off))
        if r.__class__ is tuple and ty != ('i', 1): pass
        return r
    def symload(self, ex, st, off, ty):
        """table of scalars indexed by a symbolic (bounded) index: split on the index"""
        if not (isinstance(self.ty, tuple) and self.ty[0] == 'a'): raise Undecided('symbolic index into ' + self.name)
        es = ir.size(self.ty[2])
        idx = off.divexact(es)
        if idx is None: raise Undecided('unaligned symbolic index')
        # contents must be the index range: case split
        for i in range(min(self.ty[1], 64)):
            e = ccmp('==', idx - i)
            if ex.feasible(st, e):
                if ex.feasible(st, bnot(e)): raise Fork(e)
                return self.load(ex, st, Poly.const(i*es), ty, None)
        raise Undecided('symbolic index into ' + self.name)
    def store(self, ex, st, off, ty, v, x):
        ex.oblige('frame', False, 'write to constant ' + self.name)

class LutObj:
    """boolean expansion tables: entry i has byte b == bit b of i (or its complement); contents proven from atop_init (property I01)"""
    def __init__(self, name, es, inv): self.name = name; self.es = es; self.inv = inv
    def load(self, ex, st, off, ty, x):
        nb = self.es
        if ir.size(ty) != nb: raise Undecided('LUT load width')
        if off.isconst():
            i = z3.BitVecVal(off.cval()//nb, nb)
        else:
            q = off.divexact(nb)
            if q is None or len(q.m) != 1: raise Undecided('LUT index')
            (m, c), = q.m.items()
            src = None
            for a, v in ex.bvint.values():
                if m == (a,) and c == 1: src = v
            if src is None: raise Undecided('LUT index source')
            i = ext(src, nb-1, 0) if src.size() > nb else z3.ZeroExt(nb-src.size(), src) if src.size() < nb else src
            # in range
            if not ex.dry and src.size() > nb:
                s = z3.Solver(); s.add(z3.UGE(src, 1 << nb))
                ex.oblige('bounds', True if s.check() == z3.unsat else False, 'index into %s' % self.name)
        lanes = []
        for b in range(nb):
            t = z3.Extract(b, b, i)
            if self.inv: t = ~t
            lanes.append(z3.ZeroExt(7, t))
        return ex.frombits(cat(lanes), ty)
    def store(self, ex, st, off, ty, v, x): ex.oblige('frame', False, 'write to ' + self.name)

LUTS = {'gBooleanLUT64': (8, False), 'gBooleanLUT32': (4, False), 'gBooleanLUT64Inverse': (8, True), 'gBooleanLUT32Inverse': (4, True)}

class Base:
    """memory objects shared by all specs"""
    def obj(self, ex, st, p):
        b = p.b
        o = st.mem.get(b)
        if o is not None: return o
        if b and b[0] == '@':
            n = b[1:]
            if n in LUTS:
                return LutObj(n, *LUTS[n])
            for m in [st.mod] + ex.mods:
                g = m.glob(n)
                if g and g.get('init') is not None:
                    if g['const']: return GConst(n, g['ty'], g['init'])
                    r = self.gvar(ex, st, n, g)
                    if r is not None: return r
            r = self.gvar(ex, st, n, None)
            if r is not None: return r
        return None
    def gvar(self, ex, st, n, g): return None
    def ptr_eq(self, ex, st, a, b): return None
    def term(self, ex, key, paths): return False
    def loop_enter(self, ex, s): pass
    def loop_havoc(self, ex, st, k, T): pass
    def loop_progress(self, ex, g0, backs): return None
    def loop_start(self, *a): pass
    def loop_back(self, *a): pass
    def loop_exit(self, *a): pass

class StaticVec:
    pass

class Arr:
    """a strided array; name, element size, strides it may be addressed with"""
    def __init__(self, spec, name, es, strides, writable, label):
        self.spec = spec; self.name = name; self.es = es; self.strides = strides; self.w = writable; self.label = label
    def index(self, ex, st, off):
        """(stride, j) with off == j*stride"""
        for s in self.strides:
            s = ex.norm(st, s)
            if s.isconst():
                c = s.cval()
                if c == 0:
                    if off.m == {}: return s, C0
                    continue
                j = off.divexact(c)
                if j is not None: return s, j
            else:
                if off.m == {}: return s, C0
                ats = list(s.atoms())
                if len(ats) == 1 and s == Poly.atom(ats[0]):
                    j = off.divatom(ats[0])
                    if j is not None: return s, j
        return None, None
    def load(self, ex, st, off, ty, x):
        n = ty[1]//8 if ty[0] == 'i' and ty[1] >= 8 and ty[1] % 8 == 0 else ir.size(ty); es = self.es
        sub = None
        if n < es:
            r = off.cval() % es
            sub = r; off = off - r
            L = 1
        else:
            if n % es: raise Undecided('load of %d bytes from %d byte elements' % (n, es))
            L = n//es
        sp = self.spec
        s, j = self.index(ex, st, off)
        if not ex.dry:
            ok = True; why = ''
            if j is None:
                ok = None
                for s_ in self.strides:
                    s_ = ex.norm(st, s_)
                    d = off.divexact(es)
                    if d is not None and ex.proves(st, ccmp('==', s_ - es)) is True: s, j, ok = s_, d, True; break
                if ok is None:
                    ok = False; why = 'not an element address'
            if ok and L > 1:
                if not (s.isconst() and s.cval() == es) and ex.proves(st, ccmp('==', s - es)) is not True:
                    ok = False; why = 'vector access to a strided array'
            if ok:
                a = ex.proves(st, ccmp('<=', -j)); b = ex.proves(st, ccmp('<=', j + L - sp.n))
                ok = a and b
                if not ok: why = 'index range'
            ex.oblige('bounds', ok, 'load %s[%s] +%d %s' % (self.label, j if j is not None else off, L, why))
            if ok and self.w and sp.inplace_checked:
                d = st.g['done']
                lo = ex.proves(st, ccmp('<=', ex.norm(st, d) - j))
                ex.oblige('inplace', lo, 'load %s[%s] must not see an element already overwritten (%s written)' % (self.label, j, d))
            self.aligned(ex, st, off, x, n)
        if isinstance(ty, tuple) and ty[0] == 'v':
            return Vec([sp.elem(self, ex, st, off + l*es) for l in range(L)], es*8)
        if L == 1:
            v = sp.elem(self, ex, st, off)
            if sub is not None: v = ext(v, sub*8 + n*8 - 1, sub*8)
            if sp.isint(self, ty): return ex.toint(st, v, n*8)
            return v
        return cat([sp.elem(self, ex, st, off + l*es) for l in range(L)])
    def aligned(self, ex, st, off, x, n):
        al = x['align'] if x else 1
        if al >= 16 and not ex.dry:
            p = Poly.atom(ex.addr(self.name)) + off
            p = ex.norm(st, p)
            r = ex.rem(st, p, al)
            ex.oblige('align', ex.proves(st, ccmp('==', r)), '%d byte aligned access to %s at %s' % (al, self.label, off))
    def store(self, ex, st, off, ty, v, x):
        if not self.w:
            ex.oblige('frame', False, 'write to input %s' % self.label); return
        self.spec.stored(self, ex, st, off, ty, v, x)

    def bulkset(self, ex, st, off, v, n):
        if not self.w:
            ex.oblige('frame', False, 'write to input %s' % self.label); return
        self.spec.bulk(self, ex, st, off, n, lambda q, t: cat([v]*self.spec.oes))
    def bulkcopy(self, ex, st, off, src, soff, n):
        if not self.w:
            ex.oblige('frame', False, 'write to input %s' % self.label); return
        if not isinstance(src, Arr) or src.es != self.spec.oes: raise Undecided('block copy between element sizes')
        sp = self.spec
        def val(q, t):
            src.load(ex, t, ex.norm(t, soff + q*src.es), ('i', src.es*8), None)
            return sp.elem(src, ex, t, soff + q*src.es)
        sp.bulk(self, ex, st, off, n, val)

class KSpec(Base):
    """elementwise kernel"""
    inplace_checked = True
    def __init__(self, op, tys, outty, fn, alias, valuespec, tolerant=False, boolin=False):
        """tys: input types; fn(*elements)->z3 value; alias: tuple of object name per input + output"""
        self.op = op; self.tys = tys; self.outty = outty; self.fn = fn; self.alias = alias
        self.n = Poly.atom('n')
        self.el = {}
        self.cc = {}
        self.vc = {}
        self.exact = True
        self.zero_tol = tolerant
        self.keep = []
    def isint(self, arr, ty): return False
    def setup(self, ex, f):
        st = State()
        st.env = {}; st.fn = f; st.mod = ex.mods[0]; st.prev = None; st.ip = 0; st.facts = []; st.data = []; st.sub = {}
        st.mem = {}; st.g = {'done': C0, 'pend': ()}; st.trace = None; st.frame = f.name; st.blk = f.order[0]
        k = len(self.tys)
        names = self.alias
        self.strides = [Poly.atom('s%d' % (i+1)) for i in range(k)] + [Poly.atom('so')]
        if names[-1] in names[:-1]:
            # exact alias: same base, same stride
            for i in range(k):
                if names[i] == names[-1]: self.strides[i] = self.strides[-1]
        sizes = [SIZE[t] for t in self.tys] + [SIZE[self.outty]]
        self.arr = {}
        for i, nm in enumerate(names):
            out = i == k
            if nm not in self.arr:
                self.arr[nm] = Arr(self, nm, sizes[i], [self.strides[i]], False, nm)
            a = self.arr[nm]
            if self.strides[i] not in a.strides: a.strides.append(self.strides[i])
            if out: a.w = True
        for nm, a in self.arr.items():
            st.mem[nm] = a
            ad = ex.addr(nm)
            z = z3.Int(ad); q = z3.Int('q.' + ad)
            ex.ax[ad] = ([z == a.es*q, z > 0], set())
        self.out = self.arr[names[-1]]; self.oes = sizes[-1]; self.so = self.strides[-1]
        args = [Ptr(nm, C0) for nm in names] + [self.n] + self.strides
        for (t, pn), v in zip(f.params, args): st.env[pn] = v
        if len(f.params) != len(args): raise Undecided('kernel signature')
        st.facts.append(ccmp('<=', Poly.const(1) - self.n))
        ex.params = frozenset(['n'] + [a for s in self.strides for a in s.atoms()])
        if len(self.tys) == 1: st.facts.append(ccmp('!=', self.strides[-1]))     # established by the unary hook (property D01)
        return st
    def ptr_eq(self, ex, st, a, b):
        if a.b is None or b.b is None:
            p = a if b.b is None else b; q = b if b.b is None else a
            if q.o == C0: return FALSE
        if a.b in self.arr and b.b in self.arr and a.b != b.b:
            return FALSE
        return None
    def elem(self, arr, ex, st, off):
        off = ex.norm(st, off)
        nm = '%s[%r]' % (arr.name, off)
        if nm not in self.el: self.el[nm] = (arr, off)
        return z3.BitVec(nm, arr.es*8)
    # ---- stores
    def stored(self, arr, ex, st, off, ty, v, x):
        n = ir.size(ty); es = self.oes
        if n % es: raise Undecided('store of %d bytes to %d byte elements' % (n, es))
        L = n//es
        if ex.dry:
            st.g['done'] = st.g['done'] + L
            return
        so = ex.norm(st, self.so)
        done = ex.norm(st, st.g['done'])
        if L > 1:
            ok = True if so == Poly.const(es) else ex.proves(st, ccmp('==', so - es))
            ex.oblige('frame', ok, 'vector store to a strided output')
        d = ex.norm(st, off - done*so)
        j = None
        if d.m == {} : j = done
        else:
            r = ex.proves(st, ccmp('==', d))
            if r is True: j = done
            else:
                s, j = arr.index(ex, st, off)
                if j is None:
                    ex.oblige('coverage', r, 'store at %s, expected element %s' % (off, done)); return
        arr.aligned(ex, st, off, x, n)
        b = ex.proves(st, ccmp('<=', j + L - self.n))
        ex.oblige('bounds', b, 'store out[%s] +%d' % (j, L))
        bits = ex.tobits(st, v, ty)
        for l, lane in enumerate(split(bits, es*8) if L > 1 else [bits]):
            self.value(ex, st, lane, j + l)
        if j is done or j == done:
            st.g['done'] = done + L
        else:
            st.g['pend'] = st.g['pend'] + ((j, L),)
        ch = True
        while ch and st.g['pend']:
            ch = False
            for p in st.g['pend']:
                if ex.norm(st, p[0] - st.g['done']).m == {}:
                    st.g['done'] = p[0] + p[1]
                    st.g['pend'] = tuple(q for q in st.g['pend'] if q is not p); ch = True; break
    def bulk(self, arr, ex, st, off, n, val):
        es = self.oes
        L = n.divexact(es)
        if L is None: raise Undecided('block write of %s bytes' % n)
        if ex.dry:
            st.g['done'] = st.g['done'] + L; return
        so = ex.norm(st, self.so)
        done = ex.norm(st, st.g['done'])
        one = ex.proves(st, ccmp('==', L - 1)) is True
        if not one: ex.oblige('frame', True if so == Poly.const(es) else ex.proves(st, ccmp('==', so - es)), 'block write to a strided output')
        ex.oblige('coverage', ex.proves(st, ccmp('==', ex.norm(st, off - done*so))), 'block write starts at element %s' % done)
        ex.oblige('bounds', ex.proves(st, ccmp('<=', done + L - self.n)), 'block write out[%s] +%s' % (done, L))
        ex.oblige('bounds', ex.proves(st, ccmp('<=', -L)), 'block length not negative')
        q = ex.fresh('q')
        t = st.copy()
        t.facts = t.facts + [('c', '<=', -Poly.atom(q)), ccmp('<=', Poly.atom(q) + 1 - L)]
        ex2st = t
        v = val(Poly.atom(q) if not one else C0, t)
        self.value(ex, t, v, done + (Poly.atom(q) if not one else C0))
        st.g['done'] = done + L
    def operands(self, ex, st, j):
        out = []
        for i, t in enumerate(self.tys):
            a = self.arr[self.alias[i]]
            out.append((a, ex.norm(st, j*self.strides[i])))
        return out
    def value(self, ex, st, lane, j):
        ops = self.operands(ex, st, j)
        AB = []
        for i, (a, off) in enumerate(ops):
            k = i
            for i2 in range(i):
                if ops[i2][0] is a and ops[i2][1] == off: k = i2
            AB.append(z3.BitVec('AB'[k], a.es*8))
        terms = [lane] + list(st.data)
        sub = []
        for t in terms:
            for c in zconsts(t, self.cc):
                nm = c.decl().name()
                if nm in self.el:
                    a, p = self.el[nm]
                    p = ex.norm(st, p)
                    for i, (b, off) in enumerate(ops):
                        if a is b:
                            if p == off or ex.proves(st, ccmp('==', p - off)) is True:
                                sub.append((c, AB[i])); break
        e = z3.substitute(lane, *sub) if sub else lane
        ds = [z3.substitute(t, *sub) if sub else t for t in st.data]
        key = (e.get_id(),) + tuple(d.get_id() for d in ds)
        if key in self.vc: ok, m = self.vc[key]
        else:
            ok, m = self.decide(e, AB, ds)
            self.vc[key] = (ok, m); self.keep.append((e, ds))
        ex.oblige('value', ok, 'out[%s] == %s' % (j, self.op) + ('' if ok else ' got %s' % str(z3.simplify(e))[:300]), m)
    def decide(self, e, AB, ds):
        want = self.fn(*AB)
        return equal(e, want, AB, self.tys, self.outty, ds, self.zero_tol)
    # ---- loops
    def loop_havoc(self, ex, st, k, T):
        if k is None:
            st.g['done'] = Poly.atom(ex.fresh('gd'))
        elif T is not None:
            st.g['done'] = st.g['done'] + k*T
    def loop_progress(self, ex, g0, backs):
        T = None
        for t in backs:
            d = t.g['done'] - g0['done']
            if any(a.startswith(('gd.', 'phi.', 'bv.', 'k.')) for a in d.atoms()): raise Undecided('output progress per iteration is not constant')
            if T is None: T = d
            elif T != d: raise Undecided('output progress differs between paths')
        return T if T is not None else C0
    def loop_back(self, ex, t, k, T, s, phis, init, steps, H):
        if ex.dry: return
        want = s.g['done'] + (k+1)*T
        ex.oblige('inv:done', True if ex.norm(t, t.g['done'] - want).m == {} else False, 'iteration writes %s elements in order' % T)
        if t.g['pend']: ex.oblige('coverage', False, 'elements skipped in an iteration')
    def finish(self, ex, outs):
        n = 0
        for kind, t, v in outs:
            if kind != 'ret': continue
            n += 1
            d = ex.norm(t, t.g['done'] - self.n)
            ok = True if d.m == {} else ex.proves(t, ccmp('==', d))
            ex.oblige('coverage', ok, 'all n elements written at return (%s)' % t.g['done'])
            if t.g['pend']: ex.oblige('coverage', False, 'elements skipped')
        ex.oblige('reach', True if n else False, 'the function returns under its precondition')
        return n

UFNAMES = set()
def has_uf(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0: return True
        st.extend(x.children())
    return False
def free_undef(e):
    return any(c.decl().name().startswith(('undef',)) for c in zconsts(e, {}))

def equal(e, want, AB, tys, outty, ds, tol=False, timeout=20000):
    """(True/False/None, model)"""
    if e.eq(want): return True, None
    e = fp.canon(e); want = fp.canon(want)
    if e.eq(want): return True, None
    pre = []
    for a, t in zip(AB, tys):
        if t == BOOL: pre.append(z3.ULE(a, 1))
    r = None
    eq = e == want
    if outty in ISF:
        eq = z3.Or(eq, z3.And(fp.isnan(e), fp.isnan(want)))
        if tol: eq = z3.Or(eq, z3.And(fp.iszero(e), fp.iszero(want)))
    if tys[0] in (I64, U64) and not has_uf(e) and (z3.is_app_of(want, z3.Z3_OP_BMUL)):
        from . import bvpoly
        r = bvpoly.equal(e, want)
        if r: return True, None
    s = z3.Solver(); s.set('timeout', timeout)
    s.add(*pre); s.add(*ds); s.add(z3.Not(eq))
    c = s.check()
    if c == z3.unsat: return True, None
    if c == z3.sat:
        uf = has_uf(e) or has_uf(want)
        m = s.model()
        mod = {str(d): m[d] for d in m.decls() if d.arity() == 0}
        return (None if uf else False), mod
    return None, None

# ---------------------------------------------------------------- run
def verify(mod, fname, spec, deadline=60, hooks=None):
    """run the VC generator for one kernel under one alias configuration"""
    import time
    f = mod.func(fname)
    if f is None: raise Undecided('no function ' + fname)
    ex = Ex(mod, spec, fname)
    ex.loopatoms = set()
    ex.deadline = time.time() + deadline
    if hooks: ex.hooks.update(hooks)
    st = spec.setup(ex, f)
    try:
        outs = ex.explore(st, None)
        spec.finish(ex, outs)
        return ex, None
    except Undecided as u:
        return ex, str(u)
