"""Indexing by integers and by booleans under contract."""
import re, time, traceback, z3
from . import ir, kern, regs
from .poly import Poly
from .ex import Ex, Ptr, Vec, Cells, Undecided, C0, FALSE, ccmp, band, bor, ext, split
from .world import start, GP
from .hookrun import HSpec, ev, A_, c_
ISZ = {'a': (1, 1), 's': (2, 1), 'i': (4, 1), 'l': (8, 1), 'x': (8, 1), 'h': (1, 0), 't': (2, 0), 'j': (4, 0), 'm': (8, 0), 'y': (8, 0)}
def word(ex, st, off, n, name, reg):
    """n bytes at an offset, as an uninterpreted word"""
    nm = '%s[%r]:%d' % (name, off, n)
    reg[nm] = (name, off, n)
    return z3.BitVec(nm, n*8)
def isbits(ty): return isinstance(ty, tuple) and ty[0] in ('i', 'f') and ty[1] >= 8
class Values:
    """the values: a load must stay inside one element of the array"""
    def load(self, ex, st, off, ty, x):
        sp = ex.spec; n = ir.size(ty); off = ex.norm(st, off)
        if not ex.dry:
            if x and x['align'] >= 16 and isinstance(ty, tuple): ex.oblige('align', False if ty[0] == 'v' else None, 'access to the values which requires %d byte alignment' % x['align'])
            r = sp.element(ex, st, off)
            if r is None: ex.oblige('bounds', None, 'load of the values at %s' % off); raise Undecided('address of a value %s' % off)
            e, b = r
            ok = ex.proves(st, band(ccmp('<=', -e), ccmp('<=', e + 1 - sp.n)))
            ex.oblige('bounds', ok, 'element %s of the values' % e)
            ex.oblige('bounds', ex.proves(st, band(ccmp('<=', -b), ccmp('<=', b + n - ex.norm(st, sp.es)))), 'bytes %s +%d of the element' % (b, n))
        return value(ex, st, off, ty, n, 'V')
    def store(self, ex, st, off, ty, v, x): ex.oblige('frame', False, 'the values are written')
def value(ex, st, off, ty, n, name):
    sp = ex.spec
    if isinstance(ty, tuple) and ty[0] == 'v':
        w = ir.size(ty[2]); return Vec([word(ex, st, off + l*w, w, name, sp.el) for l in range(ty[1])], w*8)
    if not isbits(ty): raise Undecided('load of %s' % (ty,))
    return word(ex, st, off, n, name, sp.el)
class Default:
    def load(self, ex, st, off, ty, x):
        n = ir.size(ty); off = ex.norm(st, off)
        if not ex.dry: ex.oblige('bounds', ex.proves(st, band(ccmp('<=', -off), ccmp('<=', off + n - ex.norm(st, ex.spec.es)))), 'bytes %s +%d of the default' % (off, n))
        return value(ex, st, off, ty, n, 'D')
    def store(self, ex, st, off, ty, v, x): ex.oblige('frame', False, 'the default is written')
class Index:
    def load(self, ex, st, off, ty, x):
        sp = ex.spec; n = ir.size(ty)
        if n != sp.iw or not isbits(ty) or ty[0] != 'i': raise Undecided('load of %s from the index' % (ty,))
        off = ex.norm(st, off); si = ex.norm(st, sp.si)
        j = byidx(off, si)
        if j is None:
            if ex.dry: j = off
            else: ex.oblige('bounds', None, 'load of the index at %s' % off); raise Undecided('address of an index %s' % off)
        if not ex.dry: ex.oblige('bounds', ex.proves(st, band(ccmp('<=', -j), ccmp('<=', j + 1 - sp.len))), 'index %s' % j)
        return sp.ix(ex, j)
    def store(self, ex, st, off, ty, v, x): ex.oblige('frame', False, 'the index is written')
def byidx(off, s):
    """j with off == j*s"""
    if off.m == {}: return C0
    if s.isconst(): return off.divexact(s.cval()) if s.cval() else None
    a = list(s.atoms())
    return off.divatom(a[0]) if len(a) == 1 and s == A_(a[0]) else None
class Rows(kern.Base):
    """an output written row by row, byte by byte, in order: done rows, byt bytes of the next one"""
    guess = False
    def __init__(self): self.el = {}
    def gvar(self, ex, st, n, g): return None
    def ptr_eq(self, ex, st, a, b): return None
    def full(self, ex, t):
        """a complete element counts as a row"""
        if t.g['byt'] == C0 or t.g['pend']: return
        es = ex.norm(t, self.es); d = ex.norm(t, t.g['byt'] - es)
        if d.m == {} or (not d.isconst() and ex.proves(t, ccmp('==', d)) is True):
            for a in d.atoms():
                if a.startswith('k.') and abs(d.m.get((a,), 0)) == 1 and sum(1 for m in d.m if a in m) == 1:
                    v = d.m[(a,)]; t.sub = {x: p.subst({a: A_(a) - d*v}) for x, p in t.sub.items()}; t.sub[a] = A_(a) - d*v; break
            t.g['done'] = ex.norm(t, t.g['done'] + 1); t.g['byt'] = C0
    def put(self, ex, st, off, ty, v):
        n = ir.size(ty); self.full(ex, st)
        done, byt, es = st.g['done'], st.g['byt'], ex.norm(st, self.es)
        ex_n = es.cval() if es.isconst() else None
        if ex.dry:
            st.g['byt'] = byt + n; self.full(ex, st); return
        d = ex.norm(st, off - done*es - byt)
        if d.m != {} and not (d.isconst() and d.cval() > 0):
            r = ex.proves(st, ccmp('==', d))
            ex.oblige('coverage', True if r is True else False if d.isconst() or r is False else None, 'store at %s, expected row %s byte %s' % (off, done, byt))
            if r is not True: raise Undecided('store out of order')
            d = C0
        b = ex.norm(st, byt + d)
        ex.oblige('bounds', self.room(ex, st, done), 'row %s of the output' % done)
        ex.oblige('bounds', ex.proves(st, ccmp('<=', b + n - es)), 'bytes %s +%d of the row' % (b, n))
        bits = ex.tobits(st, v, ty)
        self.check(ex, st, done, b, bits, n)
        if d.m != {}: st.g['pend'] = st.g['pend'] + ((b, n),); return
        st.g['byt'] = b + n
        ch = True
        while ch:
            ch = False
            for p in st.g['pend']:
                if p[0] == st.g['byt']: st.g['byt'] = p[0] + p[1]; st.g['pend'] = tuple(q for q in st.g['pend'] if q is not p); ch = True; break
        self.full(ex, st)
    def words(self, bits):
        """[(first byte, term)] the words a stored value consists of"""
        bits = z3.simplify(bits)
        if z3.is_app(bits) and bits.decl().kind() == z3.Z3_OP_CONCAT:
            out = []; p = 0
            for c in reversed(bits.children()): out += [(p + q, t) for q, t in self.words(c)]; p += c.size()//8
            return out
        return [(0, bits)]
    def loop_havoc(self, ex, st, k, T):
        if k is None or T is None: return
        st.g['done'] = st.g['done'] + k*T[0]; st.g['byt'] = st.g['byt'] + k*T[1]
    def loop_progress(self, ex, g0, backs):
        Ts = []
        for t in backs:
            self.full(ex, t)
            T = (ex.norm(t, t.g['done'] - g0['done']), ex.norm(t, t.g['byt'] - g0['byt']))
            if any(not x.isconst() for x in T): raise Undecided('progress of an iteration is not constant')
            Ts.append(T)
        if not Ts: return (C0, C0)
        if any(T != Ts[0] for T in Ts): raise Undecided('progress differs between paths')
        return Ts[0]
    def loop_back(self, ex, t, k, T, s, phis, init, steps, H):
        if T is None: return
        self.full(ex, t)
        for a, b in ((t.g['done'], s.g['done'] + (k + 1)*T[0]), (t.g['byt'], s.g['byt'] + (k + 1)*T[1])):
            ex.oblige('inv:done', True if ex.norm(t, a - b).m == {} else None, 'an iteration fills %s rows, %s bytes' % T)
        if t.g['pend']: ex.oblige('coverage', None, 'bytes skipped in an iteration')
    def loop_exit(self, ex, t, k, T, s): self.full(ex, t)
class Out:
    def load(self, ex, st, off, ty, x): raise Undecided('the output is read')
    def store(self, ex, st, off, ty, v, x): ex.spec.put(ex, st, off, ty, v)
    def bulkcopy(self, ex, st, off, src, so, n):
        sp = ex.spec; es = ex.norm(st, sp.es)
        if n.isconst():
            c = n.cval(); i = 0
            if c > 256: raise Undecided('memcpy of %s bytes' % n)
            while i < c:
                w = next(w for w in (8, 4, 2, 1) if c - i >= w)
                sp.put(ex, st, off + i, ('i', w*8), src.load(ex, st, so + i, ('i', w*8), None)); i += w
            return
        sp.full(ex, st)
        if not ex.dry:
            if n != es and ex.proves(st, ccmp('==', n - es)) is not True: raise Undecided('memcpy of %s bytes' % n)
            sp.whole(ex, st, off, src, so)
        if st.g['byt'] != C0 or st.g['pend']: raise Undecided('memcpy inside an element')
        st.g['done'] = st.g['done'] + 1
class GetSpec(Rows):
    """out[j] is V[ix[j]] (negative indices count from the end) or the default"""
    def __init__(self, es, iw, signed):
        Rows.__init__(self); self.iw = iw; self.signed = signed; self.es = c_(es) if es is not None else A_('es')
        self.n, self.len, self.si, self.sv = A_('n'), A_('len'), A_('si'), A_('sv')
    def obj(self, ex, st, p):
        o = {'V': Values, 'X': Index, 'O': Out, 'D': Default}.get(p.b)
        return o() if o else kern.Base.obj(self, ex, st, p)
    def ix(self, ex, j):
        nm = 'ix{%r}' % j
        if nm not in ex.ax:
            z = z3.Int(nm); h = 1 << (self.iw*8 - 1)
            ex.ax[nm] = ([z >= -h, z < h], j.atoms())
        return A_(nm)
    def element(self, ex, st, off):
        """(element, byte) of an offset into the values"""
        sv = ex.norm(st, self.sv)
        for e in self.targets(ex, st.g['done']):
            b = ex.norm(st, off - e[1]*sv)
            if any(a.startswith('ix{') or a == 'n' or a in sv.atoms() for m in b.m for a in m): continue
            if b.isconst() and (b.cval() < 0 or (self.es.isconst() and b.cval() >= self.es.cval())): continue
            return e[1], b
        if sv.isconst():
            c = sv.cval()
            if not c: return None
            b = off.cval() % abs(c); e = (off - b).divexact(c)
            return None if e is None else (e, c_(b))
        a = list(sv.atoms())
        if len(a) != 1 or sv != A_(a[0]): return None
        w = Poly({m: v for m, v in off.m.items() if a[0] in m})
        return (w.divatom(a[0]) if w.m else C0), off - w
    def targets(self, ex, j):
        """[(condition, element)]"""
        x = self.ix(ex, j)
        if self.signed: return [(band(ccmp('<=', -x), ccmp('<=', x + 1 - self.n)), x), (band(ccmp('<=', x + 1), ccmp('<=', -x - self.n)), x + self.n)]
        u = x + (1 << self.iw*8)
        return [(band(ccmp('<=', -x), ccmp('<=', x + 1 - self.n)), x), (band(ccmp('<=', x + 1), ccmp('<=', u + 1 - self.n)), u)]
    def room(self, ex, st, j): return ex.proves(st, ccmp('<=', j + 1 - self.len))
    def whole(self, ex, st, off, src, so):
        """one element copied as a block"""
        es = ex.norm(st, self.es); done = st.g['done']; so = ex.norm(st, so)
        ex.oblige('coverage', ex.proves(st, ccmp('==', ex.norm(st, off - done*es))), 'block written at %s, expected row %s' % (off, done))
        ex.oblige('bounds', self.room(ex, st, done), 'row %s of the output' % done)
        if isinstance(src, Values):
            r = self.element(ex, st, so)
            if r is None: ex.oblige('bounds', None, 'block from the values at %s' % so); return
            ex.oblige('bounds', ex.proves(st, band(ccmp('<=', -r[0]), ccmp('<=', r[0] + 1 - self.n))), 'element %s of the values' % r[0])
            ex.oblige('bounds', ex.proves(st, ccmp('==', r[1])), 'the block starts at byte %s of the element' % r[1])
        elif not isinstance(src, Default): raise Undecided('block from elsewhere')
        w = z3.BitVec('blk[%r]' % so, 8); self.el['blk[%r]' % so] = ('V' if isinstance(src, Values) else 'D', so, 0)
        self.check(ex, st, done, C0, w, 1)
    def check(self, ex, st, j, b, bits, n):
        sv = ex.norm(st, self.sv)
        for p, w in self.words(bits):
            src = self.el.get(w.decl().name()) if z3.is_const(w) else None
            if src is None: ex.oblige('value', False if z3.is_bv_value(w) else None, 'row %s is %s' % (j, str(w)[:60])); continue
            nm, off, k = src; at = b + p; T = self.targets(ex, ex.norm(st, j))
            if nm == 'D':
                ok = True if ex.norm(st, off - at).m == {} else False
                if ok:
                    for c, _ in T:
                        r = ex.feasible(st, c)
                        if r: ok = False if ex.check(st, [c])[0] == 'sat' else None
                ex.oblige('value', ok, 'row %s is the default although the index is in range' % j)
            else:
                ok = False
                for c, e in T:
                    if ex.norm(st, off - e*sv - at).m == {}: ok = ex.proves(st, c); break
                ex.oblige('value', ok, 'row %s byte %s is the byte at %s of the values' % (j, at, off))
    def setup(self, ex, f):
        st = start(ex, f.name, [Ptr('V', C0), Ptr('X', C0), Ptr('O', C0), self.n, self.es, self.len, self.si, self.sv, Ptr('D', C0)], mod=ex.mods[0], mem={})
        st.g.update(done=C0, byt=C0, pend=())
        st.facts += [ccmp('<=', -self.n), ccmp('<=', self.n - 2**44), ccmp('<=', -self.len), ccmp('<=', self.len - 2**44)]
        if not self.es.isconst(): st.facts += [ccmp('<=', c_(1) - self.es), ccmp('<=', self.es - 2**31)]
        ex.params = frozenset(['n', 'len', 'si', 'sv', 'es'])
        return st
    def finish(self, ex, outs):
        n = 0
        for kd, t, v in outs:
            if kd != 'ret': continue
            n += 1; self.full(ex, t)
            ex.oblige('coverage', ex.proves(t, ccmp('==', t.g['done'] - self.len)), 'every row is written at return (%s)' % t.g['done'])
            ex.oblige('coverage', True if t.g['byt'] == C0 and not t.g['pend'] else None, 'the last row is complete (%s)' % t.g['byt'])
        ex.oblige('reach', True if n else False, 'the function returns under its precondition')
def kernels(mod):
    """[(symbol, element size or None, index width, signed)]"""
    out = []
    for n in mod.ftext:
        m = re.match(r'^_ZL1\dGetItem(U?)IntI(6ITEM16|Dv2_x|Dv4_f|[asilx])([asilxhtjmy])E', n)
        if m: out.append((n, 16 if len(m.group(2)) > 1 else ISZ[m.group(2)][0], ISZ[m.group(3)][0], not m.group(1))); continue
        m = re.match(r'^_ZL1\dGetItem(U?)IntVariableI([asilxhtjmy])E', n)
        if m: out.append((n, None, ISZ[m.group(2)][0], not m.group(1)))
    return out
class Get:
    def __init__(self, mod, k): self.mod = mod; self.sym, self.esz, self.iw, self.signed = k; self.obls = []
    def run(self, deadline=60):
        sp = GetSpec(self.esz, self.iw, self.signed)
        self.ex, und = kern.verify(self.mod, self.sym, sp, deadline, {})
        self.obls = [(o[0], o[1], o[2]) for o in self.ex.obls]
        if und: raise Undecided(und)
        return self
# ------------------------------------------------------------------ selection by a boolean mask
class Mask:
    """the mask: element j is the byte m{j}"""
    def load(self, ex, st, off, ty, x):
        sp = ex.spec; n = ir.size(ty)
        if isinstance(ty, tuple) and ty[0] == 'v': tot = n
        elif not isbits(ty): raise Undecided('load of %s from the mask' % (ty,))
        sb = ex.norm(st, sp.sb); off = ex.norm(st, off)
        out = []
        for l in range(n):
            if l and sb != c_(1): raise Undecided('several bytes of a strided mask')
            j = byidx(off + l, sb)
            if j is None:
                if ex.dry: j = off + l
                else: ex.oblige('bounds', None, 'load of the mask at %s' % off); raise Undecided('address of the mask %s' % off)
            nm = 'm{%r}' % j; sp.el[nm] = ('M', j, 1); out.append(z3.BitVec(nm, 8))
            if not ex.dry and l in (0, n - 1): ex.oblige('bounds', ex.proves(st, band(ccmp('<=', sp.first(ex, st) - j), ccmp('<=', j + 1 - sp.first(ex, st) - sp.len))), 'mask element %s' % j)
        bits = kern.cat(out)
        if isinstance(ty, tuple) and ty[0] == 'v':
            w = ir.size(ty[2])*8; return Vec([ext(bits, (l + 1)*w - 1, l*w) for l in range(ty[1])], w)
        return bits
    def store(self, ex, st, off, ty, v, x): ex.oblige('frame', False, 'the mask is written')
class Counts:
    """the output position of every chunk"""
    def load(self, ex, st, off, ty, x):
        sp = ex.spec
        if ty != ('i', 64): raise Undecided('load of %s from the counts' % (ty,))
        d = ex.norm(st, off - sp.c*8)
        if not ex.dry: ex.oblige('bounds', True if d.m == {} else ex.proves(st, ccmp('==', d)), 'count at %s, the chunk is %s' % (off, sp.c))
        return sp.K
    def store(self, ex, st, off, ty, v, x): ex.oblige('frame', False, 'the counts are written')
class SelSpec(Rows):
    """rows K, K+1, .. of the output are the values of the true mask elements of the chunk, in order"""
    TEXT = 'requires start = c*CHUNK, length >= 0, counts[c] is the number of true mask elements before start, and the output has a row for every true element; ensures the true elements of mask[start..start+length) select their values in order into rows counts[c], counts[c]+1, ..: every one exactly once, no other row is touched; reads only those mask elements and the selected values'
    guess = False
    def __init__(self, es): Rows.__init__(self); self.es = c_(es) if es is not None else A_('es'); self.c, self.K, self.sb, self.sv, self.len = A_('c'), A_('K'), A_('sb'), A_('sv'), A_('len'); self.start = self.c*0x4000
    def first(self, ex, st): return ex.norm(st, self.start)
    def obj(self, ex, st, p):
        o = {'V': Values, 'M': Mask, 'O': Out, 'K': Counts}.get(p.b)
        return o() if o else kern.Base.obj(self, ex, st, p)
    def element(self, ex, st, off):
        sv = ex.norm(st, self.sv)
        w = ex.norm(st, off - self.start*sv)
        if sv.isconst(): return None
        a = list(sv.atoms())
        if len(a) != 1 or sv != A_(a[0]): return None
        v = Poly({m: x for m, x in w.m.items() if a[0] in m})
        return (v.divatom(a[0]) if v.m else C0) + self.first(ex, st), w - v
    @property
    def n(self): return self.start + self.len
    def true(self, ex, st, j, want=True):
        """the mask element j is true (or false) on this path"""
        j = ex.norm(st, j); nm = 'm{%r}' % j
        if nm not in self.el:
            nm = None
            for x in kern.zconsts(z3.And(*st.data), {}) if st.data else ():
                y = self.el.get(x.decl().name())
                if y and y[0] == 'M' and ex.proves(st, ccmp('==', y[1] - j)) is True: nm = x.decl().name(); break
            if nm is None: return None
        z = z3.Solver(); z.set('timeout', 2000); z.add(*st.data); b = z3.BitVec(nm, 8); t0 = time.time()
        r = z.check((b == 0) if want else (b != 0)); ex.solver_s += time.time() - t0
        return True if r == z3.unsat else False if r == z3.sat else None
    def settle(self, ex, st):
        """elements known to be false need no row"""
        if ex.dry or st.g['byt'] != C0 or st.g['pend']: return
        for _ in range(64):
            if self.true(ex, st, st.g['seen'], False) is not True: break
            st.g['seen'] = ex.norm(st, st.g['seen'] + 1)
    def full(self, ex, t):
        d0 = t.g['done']; Rows.full(self, ex, t)
        if t.g['done'] is not d0 and t.g['done'] != d0: t.g['seen'] = ex.norm(t, t.g['seen'] + 1)
    def room(self, ex, st, j): return True      # the number of true elements before a true element is less than their total
    def put(self, ex, st, off, ty, v):
        Rows.put(self, ex, st, ex.norm(st, off - self.K*self.es), ty, v)
    def whole(self, ex, st, off, src, so):
        es = ex.norm(st, self.es); done = st.g['done']; so = ex.norm(st, so)
        ex.oblige('coverage', ex.proves(st, ccmp('==', ex.norm(st, off - (self.K + done)*es))), 'block written at %s, expected row K + %s' % (off, done))
        if not isinstance(src, Values): raise Undecided('block from elsewhere')
        r = self.element(ex, st, so)
        if r is None: ex.oblige('bounds', None, 'block from the values at %s' % so); return
        w = z3.BitVec('blk[%r]' % so, 8); self.el['blk[%r]' % so] = ('V', so, 0)
        self.check(ex, st, done, C0, w, 1)
        st.g['seen'] = ex.norm(st, st.g['seen'] + 1)
    def check(self, ex, st, done, b, bits, n):
        for p, w in self.words(bits):
            src = self.el.get(w.decl().name()) if z3.is_const(w) else None
            if src is None or src[0] != 'V': ex.oblige('value', False if z3.is_bv_value(w) else None, 'row %s is %s' % (done, str(w)[:60])); continue
            off, at = src[1], b + p
            r = self.element(ex, st, ex.norm(st, off))
            if r is None: ex.oblige('value', None, 'row %s comes from %s' % (done, off)); continue
            j = r[0]; ex.oblige('value', True if ex.norm(st, r[1] - at).m == {} else False, 'byte %s is byte %s of the element' % (at, r[1]))
            d = ex.norm(st, j - st.g['seen'])
            if d.isconst() and 0 <= d.cval() <= 64:
                for _ in range(d.cval()):
                    ok = self.true(ex, st, st.g['seen'], False)
                    ex.oblige('coverage', ok, 'mask element %s is passed over and false' % st.g['seen']); st.g['seen'] = ex.norm(st, st.g['seen'] + 1)
            elif d.m != {}: ex.oblige('value', False if d.isconst() else None, 'element %s is selected, the next is %s' % (j, st.g['seen'])); continue
            ex.oblige('value', self.true(ex, st, j), 'the mask element %s selects a row' % j)
    # ---- loops
    def loop_progress(self, ex, g0, backs):
        s, phis, init = ex.linfo[-1]
        best = None
        for i in phis:
            v = init[i.d]; T = None
            if not isinstance(v, (Ptr, Poly)): continue
            for t in backs:
                try: nv = ex.phiback(t, i, t.blk)
                except Undecided: nv = None
                h = t.env.get(i.d)
                if type(nv) is not type(v) or type(h) is not type(v): T = None; break
                d = ex.norm(t, nv.o - h.o if isinstance(v, Ptr) else nv - h)
                if isinstance(v, Ptr): d = byidx(d, ex.norm(t, self.sb)) if v.b == 'M' else byidx(d, ex.norm(t, self.sv)) if v.b == 'V' else None
                if d is None or not d.isconst() or d.cval() <= 0 or (T is not None and T != d): T = None; break
                T = d
            if T is None: continue
            rank = 2 if isinstance(v, Ptr) else 1
            if best is None or rank > best[0]: best = (rank, T)
        if best is None: raise Undecided('a loop without progress over the mask')
        return best[1]
    def loop_havoc(self, ex, r, k, T):
        if k is None or T is None: return
        s, phis, init = ex.linfo[-1]
        self.settle(ex, s)
        if s.g['byt'] != C0 or s.g['pend']: raise Undecided('a loop inside an element')
        r.g['seen'] = ex.norm(r, s.g['seen'] + k*T); d = A_(ex.fresh('done'))
        es = ex.norm(s, self.es); self.link = getattr(self, 'link', {}); lk = []
        for i in phis:
            v = init[i.d]
            if isinstance(v, Ptr) and v.b == 'O':
                e = ex.norm(s, v.o - (self.K + s.g['done'])*es)
                if e.isconst(): r.env[i.d] = Ptr('O', (self.K + d)*es + e); lk.append((i, e))
            elif isinstance(v, Poly) and r.env.get(i.d) is not None and isinstance(r.env[i.d], Poly) and any(a.startswith('phi.') for a in r.env[i.d].atoms()):
                e = ex.norm(s, v - s.g['done'])
                if e.isconst() or e == self.K: r.env[i.d] = d + e; lk.append((i, e))
        r.g['done'] = d; self.link[len(ex.active)] = lk
    def loop_start(self, ex, h, s, phis, init, steps, k, T): pass
    def loop_back(self, ex, t, k, T, s, phis, init, steps, H):
        if T is None: return
        self.settle(ex, t)
        d = ex.norm(t, t.g['seen'] - s.g['seen'] - (k + 1)*T)
        if d.m != {}:
            ok = None
            if d.isconst() and d.cval() < 0: ok = False if self.true(ex, t, t.g['seen'], False) is False else None
            ex.oblige('coverage', ok, 'mask element %s is passed over and false' % t.g['seen'])
        ex.oblige('coverage', True if t.g['byt'] == C0 and not t.g['pend'] else None, 'rows are complete after an iteration')
        es = ex.norm(t, self.es)
        for i, e in self.link[len(ex.active)]:
            nv = ex.phiback(t, i, H)
            w = (self.K + t.g['done'])*es + e if isinstance(nv, Ptr) else t.g['done'] + e
            ex.oblige('inv:out', True if ex.norm(t, (nv.o if isinstance(nv, Ptr) else nv) - w).m == {} else None, 'the output position follows the rows written')
    def loop_exit(self, ex, t, k, T, s): self.settle(ex, t)
    def merge(self, ex, states):
        """paths which differ only in the rows written so far"""
        if ex.dry or len(states) < 2: return states
        for t in states: self.settle(ex, t)
        gr = {}
        for t in states: gr.setdefault((t.prev, t.blk, t.ip, repr(t.g['seen']), repr(t.g['byt']), repr(sorted((a, repr(b)) for a, b in t.sub.items())), tuple(sorted((a, id(b)) for a, b in t.mem.items()))), []).append(t)
        out = []
        for ts in gr.values():
            if len(ts) == 1: out += ts; continue
            r = ts[0].copy(); es = ex.norm(r, self.es); d = A_(ex.fresh('done'))
            ids = [{x.get_id() for x in t.data} for t in ts]
            r.data = [x for x in r.data if all(x.get_id() in s for s in ids)]
            fs = [set(map(repr, t.facts)) for t in ts]
            r.facts = [f for f in r.facts if all(repr(f) in s for s in fs)]
            for v in list(r.env):
                xs = [t.env.get(v) for t in ts]; x = xs[0]
                if all(same(x, y) for y in xs[1:]): continue
                if all(isinstance(y, Ptr) and y.b == 'O' for y in xs):
                    o = [ex.norm(t, y.o - (self.K + t.g['done'])*es) for t, y in zip(ts, xs)]
                    if all(e == o[0] for e in o): r.env[v] = Ptr('O', (self.K + d)*es + o[0]); continue
                elif all(isinstance(y, Poly) for y in xs):
                    o = [ex.norm(t, y - t.g['done']) for t, y in zip(ts, xs)]
                    if all(e == o[0] for e in o): r.env[v] = d + o[0]; continue
                del r.env[v]
            r.g['done'] = d; out.append(r)
        return out
    def setup(self, ex, f):
        L = self.lay; i64 = ('i', 64); mem = {}; ex.unroll_multi = True
        cell = {L['pChunkCount']: (8, Ptr('K', C0), 'ptr'), L['pBooleanMask']: (8, Ptr('M', C0), 'ptr'), L['strideBoolean']: (8, self.sb, i64), L['pValuesIn']: (8, Ptr('V', C0), 'ptr'), L['strideValues']: (8, self.sv, i64), L['pValuesOut']: (8, Ptr('O', C0), 'ptr'), L['itemSize']: (8, self.es, i64)}
        mem['cb'] = Cells('cb', 56, cell)
        a = [Ptr('cb', C0), A_('core'), self.start, self.len]
        if len(f.params) == 3: a = [a[0], a[2], a[3]]
        st = start(ex, f.name, a, mod=ex.mods[0], mem=mem)
        st.g.update(seen=self.start, done=C0, byt=C0, pend=())
        st.facts += [ccmp('<=', -self.c), ccmp('<=', self.c - 2**30), ccmp('<=', -self.len), ccmp('<=', self.len - 2**44), ccmp('<=', -self.K)]
        if not self.es.isconst(): st.facts += [ccmp('<=', -self.es), ccmp('<=', self.es - 2**31)] + [ccmp('!=', self.es - k) for k in (1, 2, 4, 8)]
        ex.params = frozenset(['len', 'sb', 'sv', 'es', 'c'])
        return st
    def finish(self, ex, outs):
        n = 0
        for kd, t, v in outs:
            if kd != 'ret': continue
            n += 1; self.full(ex, t); self.settle(ex, t)
            ex.oblige('coverage', ex.proves(t, ccmp('==', t.g['seen'] - self.start - self.len)), 'every mask element is handled at return (%s)' % t.g['seen'])
            ex.oblige('coverage', True if t.g['byt'] == C0 and not t.g['pend'] else None, 'the last row is complete')
        ex.oblige('reach', True if n else False, 'the function returns under its precondition')
def same(x, y):
    if x is y: return True
    if type(x) is not type(y): return False
    if isinstance(x, z3.ExprRef): return x.eq(y)
    if isinstance(x, Ptr): return x.b == y.b and x.o == y.o
    if isinstance(x, Poly): return x == y
    if isinstance(x, Vec): return x.w == y.w and len(x.l) == len(y.l) and all(same(a, b) for a, b in zip(x.l, y.l))
    return x == y
BIC = dict(pChunkCount=0, pBooleanMask=8, strideBoolean=16, pValuesIn=24, strideValues=32, pValuesOut=40, itemSize=48)
class Select:
    """the callback of BooleanIndexInternal for one element size (None: any other)"""
    def __init__(self, mod, sym, es): self.mod = mod; self.sym = sym; self.esz = es; self.obls = []
    def run(self, deadline=60):
        sp = SelSpec(self.esz); sp.lay = BIC
        self.ex, und = kern.verify(self.mod, self.sym, sp, deadline, {})
        self.obls = [(o[0], o[1], o[2]) for o in self.ex.obls]
        if und: raise Undecided(und)
        return self
# ------------------------------------------------------------------ the callers
KSIG = ['ptr', 'ptr', 'ptr', ('i', 64), ('i', 64), ('i', 64), ('i', 64), ('i', 64), 'ptr']
INDEX = {1: (1, 1), 2: (1, 0), 3: (2, 1), 4: (2, 0), 5: (4, 1), 6: (4, 0), 7: (8, 1), 8: (8, 0), 9: (8, 1), 10: (8, 0)}
def swide(mods):
    """the functions with the signature of a kernel"""
    out = []
    for m in mods:
        for n in m.ftext:
            f = None
            h = m.ftext[n][0]
            if h.count('ptr') < 4: continue
            try: f = m.func(n)
            except Exception: continue
            if f and [p[0] for p in f.params] == KSIG: out.append(n)
    return out
def array(mem, nm, typ, data, dims, strides, es, order='=', flags=0x501, dflags=0):
    """a NumPy array object"""
    i32, i64, i8 = ('i', 32), ('i', 64), ('i', 8)
    mem[nm] = Cells(nm, 96, {0: (8, c_(1 << 30), i64), 8: (8, Ptr('py:arraytype', C0), 'ptr'), 16: (8, data, 'ptr'), 24: (4, c_(len(dims)), i32), 32: (8, Ptr(nm + '.dims', C0), 'ptr'), 40: (8, Ptr(nm + '.strides', C0), 'ptr'), 48: (8, Ptr(None, C0), 'ptr'), 56: (8, Ptr(nm + '.descr', C0), 'ptr'), 64: (4, c_(flags), i32)})
    mem[nm + '.dims'] = Cells(nm + '.dims', 8*len(dims), {8*i: (8, d, i64) for i, d in enumerate(dims)})
    mem[nm + '.strides'] = Cells(nm + '.strides', 8*len(dims), {8*i: (8, d, i64) for i, d in enumerate(strides)})
    mem[nm + '.descr'] = Cells(nm + '.descr', 128, {0: (8, c_(1 << 30), i64), 26: (1, c_(ord(order)), i8), 27: (1, c_(dflags), i8), 28: (4, c_(typ), i32), 32: (4, es, i32), 36: (4, c_(1), i32), 64: (8, Ptr('py:funcs', C0), 'ptr')})
    return Ptr(nm, C0)
class CallSpec(HSpec):
    def obj(self, ex, st, p):
        if p.b in ('V', 'X', 'O', 'M'): raise Undecided('elements of %s are accessed outside a kernel' % p.b)
        return HSpec.obj(self, ex, st, p)
    def ptr_eq(self, ex, st, a, b):
        if a.b != b.b: return FALSE
        return None
class Caller:
    """shared parts: the world of NumPy arrays, work items and workspace memory around an entry point"""
    def ob(self, k, ok, t): self.obls.append((k, ok, t))
    def eq(self, t, a, b):
        if isinstance(b, Ptr):
            if not isinstance(a, Ptr): return None
            if a.b != b.b: return False
            a, b = a.o, b.o
        if not isinstance(a, Poly): return None
        d = self.ex.norm(t, a - b)
        if d.m == {}: return True
        return self.ex.proves(t, ccmp('==', d))
    def hk(self, pat, f, must=True):
        ns = [n for m in self.mods for n in list(m.ftext) + list(m.decls) if re.search(pat, n)]
        if not ns and must: raise Undecided('no function ' + pat)
        for n in ns: self.ex.hooks[n] = f
        return bool(ns)
    def world(self, deadline):
        sp = CallSpec(); sp.over['pPyArray_Type'] = GP(Ptr('py:arraytype', C0)); ex = Ex(self.mods, sp, self.sym); self.ex = ex; ex.deadline = time.time() + deadline; ex.canfork = lambda x: True; ex.unroll_multi = True
        def err(ex, s, a, i): ev(s, ('err',)); return Ptr(None, C0) if i.ty == 'ptr' else None if i.ty == 'void' else C0
        for k in ('PyErr_Format', 'PyErr_SetString'): ex.hooks[k] = err
        for k in ('_Py_Dealloc', 'Py_DecRef', 'Py_IncRef'): ex.hooks[k] = lambda ex, s, a, i: None
        def alloc(ex, s, a, i):
            b = ex.fresh('heap'); x = s.copy(); x.g['buf:' + b] = a[0]; ev(x, ('alloc', b, a[0])); y = s.copy(); ev(y, ('oom',))
            return [(x, Ptr(b, C0)), (y, Ptr(None, C0))]
        if not self.hk(r'^_Z7FmAllocm$', alloc, False): ex.hooks['malloc'] = alloc
        if not self.hk(r'^_Z6FmFreePv$', lambda ex, s, a, i: ev(s, ('free', a[0])), False): ex.hooks['free'] = lambda ex, s, a, i: ev(s, ('free', a[0]))
        return sp, ex
    def threads(self):
        ex, sp = self.ex, self.ex.spec
        def getwork(ex, s, a, i):
            x = s.copy(); out = [(x, Ptr(None, C0))]
            if ex.feasible(s, ccmp('<=', c_(65536) - a[1])):
                y = s.copy(); ex.assume(y, ccmp('<=', c_(65536) - a[1])); y.mem['item'] = Cells('item', 4096, {}); ev(y, ('getwork', a[1])); out.append((y, Ptr('item', C0)))
            return out
        self.hk(r'CMathWorker11GetWorkItemEl', getwork)
        def workmain(ex, s, a, i):
            item, n = a[1], a[2]; bs = a[4] if len(a) > 4 else c_(0x4000)
            if not isinstance(item, Ptr) or item.b != 'item': raise Undecided('work item')
            ex.store(s, ('i', 64), n, Ptr('item', c_(self.witem['TotalElements'][0])), None)
            ex.store(s, ('i', 64), bs, Ptr('item', c_(self.witem['BlockSize'][0])), None)
            cb = ex.load(s, 'ptr', Ptr('item', C0), None)
            if not isinstance(cb, Ptr) or not cb.b or not cb.b.startswith('@'): raise Undecided('work callback')
            m = next((q for q in self.mods if q.func(cb.b[1:])), None)
            before = s.g.get('ev', ()); s.g['ev'] = (); s.g['bs'] = bs; s.g['wn'] = n
            out = []
            for t, v in ex.call(s, cb.b[1:], [Ptr('item', C0), A_('core'), A_('workindex')], m):
                t.g['ev'] = before + (('work', n, bs, a[3], t.g['ev']),); out.append((t, None))
            return out
        self.hk(r'CMathWorker8WorkMainE', workmain)
        def claim(ex, s, a, i):
            x = s.copy(); ev(x, ('noclaim',)); y = s.copy(); wb, ln = sp.claimed(ex, y)
            ex.store(y, ('i', 64), wb, a[1], None); ev(y, ('claim', wb, ln))
            return [(x, C0), (y, ln)]
        def core(ex, s, a, i): return claim(ex, s, [a[0], a[2]], i)
        if not self.hk(r'stMATH_WORKER_ITEM16GetNextWorkBlockEPl$', claim, False): self.hk(r'stMATH_WORKER_ITEM20GetNextWorkBlockCoreE', core)
        self.hk(r'stMATH_WORKER_ITEM17CompleteWorkBlockE', lambda ex, s, a, i: ev(s, ('done', a[1])))
class Entry(Caller):
    """getitem(values, index[, default]) for one index type and one element size class"""
    TEXT = 'getitem(values, index, default): requires one-dimensional values and index of any length and stride, index type and element size as given; ensures a kernel is called on the values, length, element size, strides and default of the call, once for the whole output or for every claimed block at its offset in index and output (and the block completed once), on a default item of at least the element size written by FillDefault before; unsupported requests raise and call no kernel'
    def __init__(self, mods, witem, it, es, order='=', refs=0): self.mods = mods; self.witem = witem; self.it = it; self.esz = es; self.order = order; self.refs = refs; self.obls = []; self.sym = 'getitem'; self.kern = set()
    def run(self, deadline=60):
        sp, ex = self.world(deadline); self.threads()
        mod = next((m for m in self.mods if m.func('getitem')), None)
        if mod is None: raise Undecided('no such function')
        ks = swide(self.mods)
        if not ks: raise Undecided('no kernels')
        for k in ks: ex.hooks[k] = (lambda k: lambda ex, s, a, i: ev(s, ('kern', k, tuple(a))))(k)
        n, ln, sv, si = A_('n'), A_('len'), A_('sv'), A_('si'); es = A_('es') if self.esz is None else c_(self.esz)
        mem = {}
        V = array(mem, 'aval', 20, Ptr('V', C0), [n], [sv], es, dflags=self.refs)
        X = array(mem, 'aidx', self.it, Ptr('X', C0), [ln], [si], c_(INDEX[self.it][0] if self.it in INDEX else 8), order=self.order)
        ex.hooks['PyTuple_Size'] = lambda ex, s, a, i: self.two(ex, s)
        def parse(ex, s, a, i):
            p = a[2:]; ob = [V, X, Ptr('py:default', C0)]; k = 0
            for q in p:
                if isinstance(q, Ptr) and (q.b or '').startswith('py:'): continue
                if k < 3: ex.store(s, 'ptr', ob[k], q, None); k += 1
            return c_(1)
        ex.hooks['PyArg_ParseTuple'] = parse
        ex.hooks['PyType_IsSubtype'] = ex.hooks['PyObject_TypeCheck'] = lambda ex, s, a, i: c_(1)
        self.hk('BooleanIndexInternal', lambda ex, s, a, i: (ev(s, ('bool', tuple(a))), Ptr('aout', C0))[1])
        def like(ex, s, a, i):
            x = s.copy(); ev(x, ('oom',)); y = s.copy()
            array(y.mem, 'aout', 20, Ptr('O', C0), [a[1]], [es], es); ev(y, ('out', a[0], a[1])); return [(y, Ptr('aout', C0)), (x, Ptr(None, C0))]
        self.hk(r'^_Z18AllocateLikeResizeP', like)
        self.hk(r'FillDefault', lambda ex, s, a, i: ev(s, ('fill', tuple(a))))
        def memset(ex, s, a, i):
            ev(s, ('memset', a[0], a[1], a[2])); return None
        ex.hooks['llvm.memset.p0.i64'] = memset
        st = start(ex, 'getitem', [Ptr('py:self', C0), Ptr('py:args', C0)], mod=mod, mem=mem)
        st.g['ev'] = (); ex.params = frozenset(['n', 'len', 'sv', 'si', 'es'])
        st.facts += [ccmp('<=', -n), ccmp('<=', n - 2**44), ccmp('<=', -ln), ccmp('<=', ln - 2**44)]
        if self.esz is None:
            st.facts += [ccmp('<=', c_(1) - es), ccmp('<=', es - 2**31 + 1)]
            for k in (1, 2, 4, 8, 16): st.facts.append(ccmp('!=', es - k))
        rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        self.obls += [(o[0], o[1], str(o[2])) for o in ex.obls]
        if not rs: self.ob('returns', None, 'no path returns')
        ran = False
        for _, t, v in rs: ran |= self.path(t, v, n, ln, sv, si, es)
        if self.supported(): self.ob('result', True if ran else False, 'a supported request is served')
        return self
    def two(self, ex, s):
        x = s.copy(); y = s.copy(); return [(x, c_(2)), (y, c_(3))]
    def supported(self): return self.it in INDEX and self.order == '=' and not self.refs
    def path(self, t, v, n, ln, sv, si, es):
        evs = t.g['ev']; names = [e[0] for e in evs]
        if any(e[0] == 'bool' for e in evs):
            e = next(e for e in evs if e[0] == 'bool')
            self.ob('result', self.it == 0, 'a boolean index selects'); self.ob('operand', self.eq(t, e[1][0], Ptr('aval', C0)), 'values'); self.ob('operand', self.eq(t, e[1][1], Ptr('aidx', C0)), 'mask')
            return True
        served = any(k in ('kern', 'work') for k in names)
        if not served:
            self.ob('result', True if ('err' in names and isinstance(v, Ptr) and v.b is None) else False, 'without a result an exception is set (%s)' % ' '.join(names))
            if self.supported(): self.ob('result', True if 'oom' in names else False, 'only a failed allocation stops a supported request')
            self.heap(t, evs); return False
        if not self.supported(): self.ob('refuse', False, 'index type %d order %s references %d is served' % (self.it, self.order, self.refs)); return True
        self.ob('result', 'err' not in names and isinstance(v, Ptr) and v.b == 'aout' if isinstance(v, Ptr) else None, 'the new array is returned')
        o = [e for e in evs if e[0] == 'out']
        if len(o) == 1: self.ob('operand', self.eq(t, o[0][1], Ptr('aval', C0)), 'the output is of the values\' type'); self.ob('operand', self.eq(t, o[0][2], ln), 'the output has the length of the index')
        else: self.ob('operand', None, 'one output')
        ks = [e for e in evs if e[0] == 'kern']; ws = [e for e in evs if e[0] == 'work']; got = [e for e in evs if e[0] == 'getwork']
        self.ob('split', len(ks) + len(ws) == 1 and len(got) == len(ws), 'one kernel call or one work item (%s)' % ' '.join(names))
        pos = next(i for i, e in enumerate(evs) if e[0] in ('kern', 'work'))
        D = None
        if ks: D = ks[0][2][8]; self.call(t, ks[0], C0, ln, n, ln, sv, si, es)
        for w in ws:
            self.ob('operand', self.eq(t, w[1], ln), 'a work item of the output\'s length'); bs = w[2]
            self.ob('operand', self.eq(t, got[0][1], ln) if got else False, 'reserved for the output\'s length')
            d = self.blocks(t, w[4], bs, n, ln, sv, si, es)
            D = d if D is None else D
        if D is not None: self.default(t, evs[:pos], D, es)     # otherwise no block was left for this worker
        self.heap(t, evs, pos)
        return True
    def call(self, t, e, first, cnt, n, ln, sv, si, es):
        k, a = e[1], e[2]; self.kern.add(k)
        for j, w, txt in ((0, Ptr('V', C0), 'values'), (1, Ptr('X', first*si), 'index'), (2, Ptr('O', first*es), 'output'), (3, n, 'number of values'), (4, es, 'element size'), (5, cnt, 'length'), (6, si, 'index stride'), (7, sv, 'stride of the values')):
            self.ob('operand' if j != 5 else 'range', self.eq(t, a[j], w), '%s: %s, must be %s' % (txt, a[j], w))
    def blocks(self, t, evs, bs, n, ln, sv, si, es):
        D = None
        def go(t, evs, open_):
            nonlocal D
            for e in evs:
                if e[0] == 'rep':
                    car = e[2]
                    for u, es_ in e[1][:-1]: go(u, es_, None)
                    u, le = e[1][-1]; open_ = go(u, le, None if not car else None)
                elif e[0] == 'claim': open_ = [e, 0, 0]
                elif e[0] == 'noclaim': open_ = None
                elif e[0] == 'kern':
                    if open_ is None: self.ob('split', False, 'a kernel runs without a claimed block'); continue
                    self.call(t, e, open_[0][1]*bs, open_[0][2], n, ln, sv, si, es); open_[1] += 1
                    d = e[2][8]
                    if D is None: D = d
                    else: self.ob('operand', self.eq(t, d, D) if isinstance(d, Ptr) else None, 'the same default')
                elif e[0] == 'done':
                    self.ob('split', open_ is not None and open_[1] == 1, 'a completed block was processed once'); self.ob('operand', self.eq(t, e[1], A_('core')), 'completed on the core of the call'); open_ = None
                else: self.ob('split', None, 'unexpected %s in a work item' % e[0])
            if open_ is not None: self.ob('split', False, 'a claimed block is not completed')
            return open_
        go(t, evs, None)
        return D
    def default(self, t, evs, D, es):
        f = [i for i, e in enumerate(evs) if e[0] == 'fill']
        if not isinstance(D, Ptr) or D.b is None: self.ob('default', None if not isinstance(D, Ptr) else False, 'default at %s' % D); return
        self.ob('default', len(f) == 1, 'the default is written once before'); 
        for i in f:
            a = evs[i][1]
            self.ob('default', self.eq(t, a[0], Ptr('aval', C0)), 'default for the type of the values'); self.ob('default', self.eq(t, a[2], D), 'written to the item handed to the kernel')
            self.ob('default', self.eq(t, a[1], Ptr('py:default', C0)) if a[1].b != 'py:_Py_NoneStruct' and not (a[1].b or '').endswith('_Py_NoneStruct') else True, 'the caller\'s default, or None')
        if D.b.startswith('heap'):
            z = t.g['buf:' + D.b]; self.ob('default', self.ex.proves(t, ccmp('<=', es - z)), 'the item holds an element'); self.ob('default', self.ex.proves(t, ccmp('<=', c_(32) - z)), 'and any scalar')
        else:
            o = t.mem.get(D.b); z = getattr(o, 'size', None)
            if z is None: self.ob('default', None, 'size of the default item'); return
            z = c_(z); self.ob('default', self.ex.proves(t, ccmp('<=', es - z)), 'the item (%s bytes) holds an element' % z)
            self.ob('default', self.ex.proves(t, ccmp('<=', c_(32) - z)), 'and any scalar')
        m = [e for i, e in enumerate(evs[:f[0] if f else 0]) if e[0] == 'memset' and isinstance(e[1], Ptr) and e[1].b == D.b and e[1].o == D.o]
        self.ob('default', any(self.ex.proves(t, ccmp('<=', es - e[3])) is True and self.isz(e[2]) for e in m) or None, 'bytes not written by the default are zero')
    def isz(self, v): return v == C0 if isinstance(v, Poly) else z3.is_bv_value(z3.simplify(v)) and z3.simplify(v).as_long() == 0
    def heap(self, t, evs, pos=None):
        al = [e[1] for e in evs if e[0] == 'alloc']; fr = [(i, e[1]) for i, e in enumerate(evs) if e[0] == 'free']
        for b in al: self.ob('heap', sum(1 for _, f in fr if isinstance(f, Ptr) and f.b == b) == 1, 'workspace freed once')
        for i, f in fr: self.ob('heap', isinstance(f, Ptr) and f.b in al, 'only workspace is freed'); self.ob('heap', pos is None or i > pos, 'freed after use')
CH = 0x4000
class CountSpec(CallSpec):
    """the counts: raw{i} counted elements of chunk i, replaced in order by their prefix sums S{i}"""
    def obj(self, ex, st, p):
        if p.b and p.b.startswith('heap'): return CountArr(p.b)
        return CallSpec.obj(self, ex, st, p)
    def loop_havoc(self, ex, r, k, T):
        CallSpec.loop_havoc(self, ex, r, k, T)
        if k is None: return
        s, phis, init = ex.linfo[-1]; lk = []
        for i in phis:
            v = r.env.get(i.d)
            if isinstance(init[i.d], Poly) and init[i.d] == C0 and isinstance(v, Poly) and any(a.startswith('phi.') for a in v.atoms()): r.env[i.d] = A_('S{%r}' % k); lk.append(i)
        self.plink = getattr(self, 'plink', {}); self.plink[len(ex.active)] = lk; self.kk = k
        r.g['pk'] = k if lk else None
    def loop_back(self, ex, t, k, T, s, phis, init, steps, H):
        CallSpec.loop_back(self, ex, t, k, T, s, phis, init, steps, H)
        if ex.dry: return
        lk = self.plink[len(ex.active)]
        for i in lk: ex.oblige('inv:sum', True if ex.norm(t, ex.phiback(t, i, H) - A_('S{%r}' % k) - A_('raw{%r}' % k)).m == {} else None, 'the running total is the sum of the counts so far')
        if lk: self.iter(ex, t, k)
    def iter(self, ex, t, k):
        ks = [e for e in t.g['ev'] if e[0] == 'K']
        ok = len(ks) == 1 and ex.norm(t, ks[0][2] - k*8).m == {} and isinstance(ks[0][3], Poly) and ex.norm(t, ks[0][3] - A_('S{%r}' % k)).m == {}
        ex.oblige('prefix', True if ok else None, 'count %s becomes the number of true elements before its chunk' % k)
    def loop_exit(self, ex, t, k, T, s):
        lk = self.plink.get(len(ex.active))
        if lk and not ex.dry:
            self.iter(ex, t, k); t.g['pre'] = ex.norm(t, k + 1); t.sub['raw{%r}' % k] = A_('total') - A_('S{%r}' % k)
            t.sub = {x: p for x, p in t.sub.items()}
        CallSpec.loop_exit(self, ex, t, k, T, s)
class CountArr:
    def __init__(self, b): self.b = b
    def load(self, ex, st, off, ty, x):
        i = ex.norm(st, off).divexact(8)
        if ty != ('i', 64) or i is None: raise Undecided('load of the counts at %s' % off)
        if not ex.dry: ex.oblige('bounds', ex.proves(st, band(ccmp('<=', -off), ccmp('<=', off + 8 - st.g['buf:' + self.b]))), 'count %s' % i)
        if ex.dry and not i.isconst(): return A_('raw{%r}' % i) if st.g.get('pk') is not None else A_(ex.fresh('phi'))
        for e in reversed(st.g['ev']):
            if e[0] == 'K' and ex.norm(st, e[2] - off).m == {}: return e[3]
            if e[0] == 'K': return A_('raw{%r}' % i) if st.g.get('pk') is not None else A_(ex.fresh('cnt'))
            if e[0] == 'count':
                if e[1] == 'all': return e[3] if i == C0 else A_(ex.fresh('cnt'))
                return A_('raw{%r}' % i)
        return A_('raw{%r}' % i) if st.g.get('pk') is not None else A_(ex.fresh('cnt'))
    def store(self, ex, st, off, ty, v, x):
        if not ex.dry: ex.oblige('bounds', ex.proves(st, band(ccmp('<=', -off), ccmp('<=', off + 8 - st.g['buf:' + self.b]))), 'store of a count at %s' % off)
        ev(st, ('K', self.b, off, v))
class BoolEntry(Caller):
    TEXT = 'BooleanIndexInternal(values, mask): requires one-dimensional values and mask of any strides; ensures every element of the mask is counted once (as a whole, or chunk by chunk), the counts become the number of true elements before each chunk, the output has a row for every true element, and the selection runs once on the operands of the call: over the whole, or over the chunks only if they were counted by chunk; lengths which differ raise; workspace is freed'
    def __init__(self, mods): self.mods = mods; self.obls = []; self.sym = 'BooleanIndexInternal'; self.sel = set()
    def run(self, deadline=60):
        mods = self.mods
        mod = next((m for m in mods for n in m.ftext if re.match(r'_Z20BooleanIndexInternalP', n)), None)
        if mod is None: raise Undecided('no such function')
        self.sym = next(n for n in mod.ftext if re.match(r'_Z20BooleanIndexInternalP', n))
        sp, ex = self.world(deadline)
        sp2 = CountSpec(); sp2.over = sp.over; ex.spec = sp2
        ln, n, sb, sv, es = A_('len'), A_('n'), A_('sb'), A_('sv'), A_('es')
        mem = {}
        V = array(mem, 'aval', 20, Ptr('V', C0), [n], [sv], es); X = array(mem, 'aidx', 0, Ptr('M', C0), [ln], [sb], c_(1))
        chk = lambda st: [ccmp('<=', -A_('c')), ccmp('<=', A_('c')*CH + A_('nc') - ln), ccmp('<=', c_(1) - A_('nc')), ccmp('<=', A_('nc') - CH)]
        def work(ex, s, a, i):
            cnt, f, arg = a[1], a[2], a[3]
            if not isinstance(f, Ptr) or not (f.b or '').startswith('@'): raise Undecided('work item callback')
            cm = next((m for m in mods if m.func(f.b[1:])), None); out = []
            def go(kind, st, start, num, ret):
                before = st.g['ev']; st.g['ev'] = ()
                for t, v in ex.call(st, f.b[1:], [arg, A_('core') if kind == 'chunks' else C0, start, num], cm):
                    e = t.g['ev']; ss = [x for x in e if x[0] == 'sum']; ks = [x for x in e if x[0] == 'K']
                    r = ('count', kind, tuple(ss), ks[0][3] if len(ks) == 1 else None, tuple(ks), cnt, start, num) if not any(x[0] == 'sel' for x in e) else ('select', kind, e, cnt, start, num)
                    t.g['ev'] = before + (r,); out.append((t, ret))
            go('all', s.copy(), C0, cnt, C0)
            if ex.feasible(s, ccmp('<=', c_(65536) - cnt)):
                y = s.copy(); ex.assume(y, ccmp('<=', c_(65536) - cnt)); y.facts += [ccmp('<=', -A_('c')), ccmp('<=', A_('c')*CH + A_('nc') - cnt), ccmp('<=', c_(1) - A_('nc')), ccmp('<=', A_('nc') - CH)]
                go('chunks', y, A_('c')*CH, A_('nc'), c_(1))
            return out
        self.hk(r'CMathWorker24DoMultiThreadedChunkWorkE', work)
        def summ(ex, s, a, i):
            v = A_(ex.fresh('cnt')); s.facts += [ccmp('<=', -v)]; ev(s, ('sum', tuple(a), v)); return v
        self.hk(r'^_Z14SumBooleanMask', summ)
        def sel(name):
            def f(ex, s, a, i):
                L = BIC; o = a[0]
                rd = {k: ex.load(s, 'ptr' if k[0] == 'p' else ('i', 64), Ptr(o.b, o.o + b), None) for k, b in L.items()}
                ev(s, ('sel', name, rd, a[-2], a[-1])); return c_(1) if i is not None and i.ty != 'void' else None
            return f
        m2 = [x for m in mods for x in m.ftext if 'BooleanIndexInternal' in x and re.search(r'invoke|clEPvill', x)]
        if not m2: raise Undecided('no selection callback')
        inv = [x for x in m2 if 'invoke' in x] or m2; self.target = inv[0]
        for x in m2: ex.hooks[x] = sel(x)
        def like(ex, s, a, i):
            x = s.copy(); ev(x, ('oom',)); y = s.copy()
            array(y.mem, 'aout', 20, Ptr('O', C0), [a[1]], [es], es); ev(y, ('out', a[0], a[1])); return [(y, Ptr('aout', C0)), (x, Ptr(None, C0))]
        self.hk(r'^_Z18AllocateLikeResizeP', like)
        st = start(ex, self.sym, [V, X], mod=mod, mem=mem); st.g['ev'] = ()
        ex.params = frozenset(['n', 'len', 'sv', 'sb', 'es'])
        st.facts += [ccmp('<=', -n), ccmp('<=', n - 2**44), ccmp('<=', -ln), ccmp('<=', ln - 2**44), ccmp('<=', -es), ccmp('<=', es - 2**31 + 1)]
        rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        self.obls += [(o[0], o[1], str(o[2])) for o in ex.obls]
        if not rs: self.ob('returns', None, 'no path returns')
        ran = False
        for _, t, v in rs: ran |= self.path(t, v, n, ln, sb, sv, es)
        self.ob('result', True if ran else False, 'a supported request is served')
        return self
    def path(self, t, v, n, ln, sb, sv, es):
        ex = self.ex; evs = list(t.g['ev']); names = [e[0] for e in evs]
        al = [e[1] for e in evs if e[0] == 'alloc']; fr = [(i, e[1]) for i, e in enumerate(evs) if e[0] == 'free']
        for b in al: self.ob('heap', sum(1 for _, f in fr if isinstance(f, Ptr) and f.b == b) == 1, 'the counts are freed once')
        for i, f in fr: self.ob('heap', isinstance(f, Ptr) and f.b in al or (isinstance(f, Ptr) and f.b is None), 'only workspace is freed'); self.ob('heap', not any(k in ('count', 'sel', 'select', 'K') for k in names[i:]), 'freed after use')
        if 'err' in names:
            self.ob('result', True if isinstance(v, Ptr) and v.b is None else False, 'no result with an exception')
            self.ob('result', True if 'oom' in names or ex.proves(t, ccmp('!=', n - ln)) is True else False, 'only lengths which differ or a failed allocation raise')
            return False
        self.ob('result', isinstance(v, Ptr) and v.b == 'aout', 'the new array is returned (%s)' % v)
        self.ob('result', ex.proves(t, ccmp('==', n - ln)), 'the lengths agree')
        cs = [e for e in evs if e[0] == 'count']
        if len(cs) != 1: self.ob('split', None, 'the mask is counted once (%s)' % ' '.join(names)); return True
        _, kind, sums, kv, ks, cnt, start_, num = cs[0]
        self.ob('operand', self.eq(t, cnt, ln), 'the whole mask is counted')
        self.ob('split', True if len(sums) == 1 and len(ks) == 1 else None, 'each range is counted once and kept')
        if len(sums) != 1 or len(ks) != 1: return True
        a, cv = sums[0][1], sums[0][2]
        self.ob('operand', self.eq(t, a[0], Ptr('M', start_*sb)), 'counted from %s, must be %s' % (a[0], start_*sb)); self.ob('operand', self.eq(t, a[1], num), 'counted length %s, must be %s' % (a[1], num)); self.ob('operand', self.eq(t, a[2], sb), 'stride of the mask')
        self.ob('operand', self.eq(t, ks[0][3], cv) if isinstance(ks[0][3], Poly) else None, 'the count is kept')
        self.ob('operand', self.eq(t, ks[0][2], C0 if kind == 'all' else A_('c')*8), 'as the count of its chunk (%s)' % ks[0][2])
        if kind == 'all': total = cv
        else:
            total = A_('total'); pk = t.g.get('pre')
            self.ob('prefix', None if pk is None else self.chunks(t, pk, ln), 'all counts (%s) are replaced by prefix sums' % pk)
        o = [e for e in evs if e[0] == 'out']
        if len(o) != 1: self.ob('operand', None, 'one output'); return True
        self.ob('operand', self.eq(t, o[0][1], Ptr('aval', C0)), 'the output is of the values\' type'); self.ob('operand', self.eq(t, o[0][2], total), 'the output has a row for every true element (%s)' % o[0][2])
        ss = [e for e in evs if e[0] in ('select', 'sel')]
        if not ss: self.ob('split', ex.proves(t, ccmp('<=', total)), 'nothing is selected only if no element is true'); return True
        if len(ss) != 1: self.ob('split', False, 'selected more than once'); return True
        e = ss[0]
        if e[0] == 'select':
            es2 = [x for x in e[2] if x[0] == 'sel']
            self.ob('operand', self.eq(t, e[3], ln), 'the whole mask is selected from')
            if e[1] == 'chunks': self.ob('split', kind == 'chunks', 'selected by chunk only if counted by chunk')
            if len(es2) != 1: self.ob('split', None, 'each range is selected once'); return True
            s0, num = e[4], e[5]; e = es2[0]
        else: s0, num = C0, ln
        rd = e[2]; self.sel.add(e[1])
        if kind == 'all' or s0 == C0:
            k0 = [x for x in evs if x[0] == 'K']
            if kind == 'all': self.ob('prefix', True if len(k0) == 1 and ex.norm(t, k0[0][2]).m == {} and isinstance(k0[0][3], Poly) and ex.norm(t, k0[0][3]).m == {} else None, 'the only count becomes 0')
        for k, w in (('pBooleanMask', Ptr('M', C0)), ('strideBoolean', sb), ('pValuesIn', Ptr('V', C0)), ('strideValues', sv), ('pValuesOut', Ptr('O', C0)), ('itemSize', es)): self.ob('operand', self.eq(t, rd[k], w), '%s: %s, must be %s' % (k, rd[k], w))
        kp = rd['pChunkCount']; self.ob('operand', isinstance(kp, Ptr) and kp.b in al and kp.o == C0, 'the counts')
        self.ob('range', self.eq(t, e[3], s0), 'selected from %s, must be %s' % (e[3], s0)); self.ob('range', self.eq(t, e[4], num), 'selected length %s, must be %s' % (e[4], num))
        return True
    def chunks(self, t, pk, ln):
        """pk == ceil(ln/CHUNK)"""
        return self.ex.proves(t, band(ccmp('<=', ln - pk*CH), ccmp('<=', pk*CH - CH + 1 - ln)))
# ------------------------------------------------------------------ checks
TEXT = {
 'kernel': 'kernel(values, index, out, n, es, len, si, sv, default): requires n values of es bytes at stride sv, len indices at stride si, len rows of output, any alignment; ensures for all j<len: out[j] is values[index[j]] if 0<=index[j]<n, values[index[j]+n] if -n<=index[j]<0 (signed index), the default otherwise; every byte of every row written once in order; reads only those elements; writes nothing else',
}
G = {}
def task(k):
    o = None; kern_ = []
    try:
        if k[0] == 'entry':
            o = Entry(G['NI'], G['witem'], *k[1:]); o.run(G['deadline']); kern_ = sorted(o.kern)
        elif k[0] == 'kernel': o = Get(G['M'], k[1:]); o.run(G['deadline'])
        elif k[0] == 'bool': o = BoolEntry(G['NI']); o.run(G['deadline'])
        else: o = Select(G['M'], k[1], k[2]); o.run(G['deadline'])
        und = None
    except Undecided as e: und = str(e)[:200]
    except Exception: und = 'internal: ' + traceback.format_exc()[-300:]
    ob = [(x[0], x[1], str(x[2])[:300]) for x in (getattr(o, 'obls', None) or (o.ex.obls if o is not None and hasattr(o, 'ex') else [])) if und is None or x[1] is not False]
    return k, getattr(o, 'sym', k[0]), ob, und, o.ex.solver_s if hasattr(o, 'ex') else 0, kern_
def load(R):
    from . import build
    w = build.Work()
    T = w.ir(['getitem']); N = w.ir(['getitem', 'common'], ['-fno-inline', '-Dalways_inline=noinline'])
    L = w.layout('_pnumpy', {'stMATH_WORKER_ITEM'})
    G.update(M=ir.Module(T['getitem'], 'getitem'), NI=[ir.Module(N[k], k) for k in ('getitem', 'common')], witem=L['stMATH_WORKER_ITEM'], deadline=100 if R.tier == 'quick' else 500)
    return w
ASSUME = ['DoMultiThreadedChunkWork and WorkMain hand out every block once and return when all are completed (T01/T02)', 'the new array does not overlap the operands (AllocateLikeResize is assumed to return a fresh contiguous array)', 'fewer than 2^44 elements', 'pointer and index arithmetic is mathematical (no address wraps)', 'the caller holds the GIL: only one Python thread uses the shared callback argument']
def run_g02(R):
    from multiprocessing import Pool
    from . import hcheck
    w = load(R)
    jobs = [('entry', it, es) for it in range(0, 15) for es in (1, 2, 4, 8, 16, None, 0)] + [('entry', it, 8, '>') for it in (3, 6, 7)] + [('entry', 7, 8, '=', 1)]
    want = {}
    with Pool(8) as pool:
        for k, sym, ob, und, ss, ks in R.take(pool.imap_unordered(task, jobs)):
            R.function('%s[index type %d, element size %s%s]' % ((sym, k[1], 'any other' if k[2] is None else k[2], '' if len(k) < 4 else ', other byte order' if k[3] == '>' else ', objects')), Entry.TEXT, ob, und, ss, 'index type %d element size %s ' % (k[1], k[2]))
            for s in ks:
                if k[2] != 0: want.setdefault((s, k[2]) + INDEX[k[1]], k)     # items of zero bytes: nothing has to be written
        for k, sym, ob, und, ss, _ in R.take(pool.imap_unordered(task, [('kernel', s, es, iw, bool(sg)) for s, es, iw, sg in want])):
            R.function('%s[element size %s, %s index of %d bytes]' % (sym, 'any' if k[2] is None else k[2], 'signed' if k[4] else 'unsigned', k[3]), TEXT['kernel'], ob, und, ss, '')
    if not want: R.undecided.append(('getitem', 'no kernel is reached'))
    hcheck.concrete(R, w, [('getint', 'integer indexing, dtypes, strides, lengths <= 140000, defaults, workers 0..14')], 25)
    R.assume = [x for x in R.assume if x not in hcheck.ASSUME] + ASSUME + ['FillDefault writes the documented default (bounded suite)', 'GetStridesAndContig and ArrayLength are executed, not assumed; more than one dimension is out of scope']
    R.trusted = [x for x in R.trusted if 'NumPy C API' not in x] + ['the layout of PyArrayObject and PyArray_Descr of NumPy 1.26', 'PyArg_ParseTuple stores the arguments in order']
def run_g01(R):
    from multiprocessing import Pool
    from . import hcheck
    w = load(R)
    sel = next((n for n in G['M'].ftext if 'BooleanIndexInternal' in n and 'invoke' in n), None)
    jobs = [('bool',)] + ([('select', sel, es) for es in (1, 2, 4, 8, None)] if sel else [])
    if not sel: R.undecided.append(('BooleanIndexInternal', 'no selection callback'))
    with Pool(6) as pool:
        for k, sym, ob, und, ss, _ in R.take(pool.imap_unordered(task, jobs)):
            if k[0] == 'bool': R.function(sym, BoolEntry.TEXT, ob, und, ss, '')
            else: R.function('%s[element size %s]' % (sym, 'any other' if k[2] is None else k[2]), SelSpec.TEXT, ob, und, ss, 'element size %s ' % k[2])
    hcheck.concrete(R, w, [('getbool', 'boolean and hooked indexing, dtypes, strides, lengths <= 140000, workers 0..14')], 30)
    R.assume = [x for x in R.assume if x not in hcheck.ASSUME] + ASSUME + ['SumBooleanMask returns the number of non-zero bytes (bounded suite)', 'more than one dimension is out of scope of the contracts (bounded suite)']
    R.trusted = [x for x in R.trusted if 'NumPy C API' not in x] + ['the layout of PyArrayObject and PyArray_Descr of NumPy 1.26']
