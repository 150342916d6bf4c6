"""Records to columns under contract: every field of every row is copied once to its own column, nothing else is touched."""
import re, time, traceback, z3
from . import ir, kern, regs
from .poly import Poly
from .ex import Ex, Ptr, Vec, Undecided, C0, ccmp, band, ext, split
from .world import start
from .hookrun import HSpec, ev, A_, c_
TEXT = {
 'ConvertRecArray': 'ConvertRecArray(rec,start,total,cols,n,itemSize): requires 0<=start, n>=1, for all i<n: size_i>=1, offset_i>=0, offset_i+size_i<=itemSize, column i holds at least total elements and overlaps nothing; ensures for all i<n and start<=r<total: column_i[r] is the size_i bytes at rec+r*itemSize+offset_i, written once in order; reads only those bytes; writes nothing else',
 'RecArrayToColMajor': 'RecArrayToColMajor(cols,rec,total,n,itemSize): requires total>=0, n>=1, itemSize>=1; ensures every row 0<=r<total is converted exactly once: directly, or as one of the disjoint adjacent ranges of a work item (each range by ConvertRecArray on these columns, records and sizes)',
}
FIELD = {0: 'data', 8: 'off', 16: 'size'}
class Tab:
    """stRecarrayOffsets[n]"""
    def load(self, ex, st, off, ty, x):
        for f in FIELD:
            i = ex.norm(st, off - f).divexact(24)
            if i is not None: break
        else: raise Undecided('column table access at %s' % off)
        sp = ex.spec
        if not ex.dry: ex.oblige('bounds', ex.proves(st, band(ccmp('<=', -i), ccmp('<=', i + 1 - sp.na))), 'column %s of the table' % i)
        sp.open(ex, st, i)
        nm = repr(i)
        if FIELD[f] == 'data': return Ptr('D{%s}' % nm, C0)
        return A_(('ro{%s}' if FIELD[f] == 'off' else 'es{%s}') % nm)
    def store(self, ex, st, off, ty, v, x): ex.oblige('frame', False, 'the column table is written')
class Src:
    def load(self, ex, st, off, ty, x):
        if isinstance(ty, tuple) and ty[0] == 'v': raise Undecided('adjacent records are loaded as one vector')
        return self.elem(ex, st, off, ir.size(ty), ty)
    def elem(self, ex, st, off, n, ty=None):
        sp = ex.spec; off = ex.norm(st, off)
        if not ex.dry:
            cur = st.g['cur']
            if cur is None: raise Undecided('records are read before a column is chosen')
            i, done = cur; es, ro = sp.atoms(st, ex, i)
            d = ex.norm(st, off - ro - done*sp.isz)
            m = d.m.get(('isz',), 0); b = d - sp.isz*m
            ok = None
            if not any('isz' in k for k in b.m):
                ok = ex.proves(st, band(ccmp('<=', -b), ccmp('<=', b + n - es)))
                if ok is True: ok = ex.proves(st, band(ccmp('<=', -(done + m)), ccmp('<=', done + m + 1 - sp.n)))
            ex.oblige('bounds', ok, 'load of %d bytes at byte %s of row %s + %s' % (n, b, done, m))
        nm = 'S[%r]:%d' % (off, n)
        sp.el[nm] = off
        v = z3.BitVec(nm, n*8)
        return v
    def store(self, ex, st, off, ty, v, x): ex.oblige('frame', False, 'the records are written')
class Col:
    def __init__(self, b): self.b = b
    def load(self, ex, st, off, ty, x): raise Undecided('a column is read')
    def store(self, ex, st, off, ty, v, x):
        sp = ex.spec; n = ir.size(ty); cur = st.g['cur']
        if cur is None or 'D{%r}' % cur[0] != self.b:
            ex.oblige('frame', None, 'store to %s while another column is being filled' % self.b); raise Undecided('columns are filled at the same time')
        i, done = cur; es, ro = sp.atoms(st, ex, i); byt = ex.norm(st, st.g['byt'])
        L = n//es.cval() if es.isconst() and es.cval() > 0 and n % es.cval() == 0 and byt == C0 else 0
        if not ex.dry:
            d = ex.norm(st, off - done*es - byt)
            ok = True if d.m == {} else False if d.isconst() else None
            ex.oblige('coverage', ok, 'store at %s, expected row %s byte %s' % (off, done, byt))
            ex.oblige('bounds', ex.proves(st, ccmp('<=', done + max(L, 1) - sp.n)), 'row %s of the column' % done)
            if not L: ex.oblige('bounds', ex.proves(st, ccmp('<=', byt + n - es)), 'byte %s of the element' % byt)
            bits = ex.tobits(st, v, ty)
            w = n*8//L if L else n*8
            for l, lane in enumerate(split(bits, w) if L > 1 else [bits]):
                lane = z3.simplify(lane); want = ex.norm(st, ro + (done + l)*sp.isz + byt)
                o = sp.el.get(lane.decl().name()) if z3.is_const(lane) and not z3.is_bv_value(lane) else None
                dd = ex.norm(st, o - want) if o is not None else None
                ex.oblige('value', None if dd is None else True if dd.m == {} else False, 'row %s is the bytes at %s, expected %s' % (done + l, o if o is not None else str(lane)[:60], want))
        if L: st.g['cur'] = (i, done + L)
        else: st.g['byt'] = byt + n
class RecSpec(kern.Base):
    def __init__(self): self.el = {}; self.n = A_('n'); self.isz = A_('isz'); self.na = A_('na'); self.fr = {}
    def gvar(self, ex, st, n, g): return None
    def atoms(self, st, ex, i):
        nm = repr(i); return ex.norm(st, A_('es{%s}' % nm)), A_('ro{%s}' % nm)
    def open(self, ex, st, i):
        cur = st.g['cur']
        if cur is not None and cur[0] == i: return
        nm = repr(i); es, ro = A_('es{%s}' % nm), A_('ro{%s}' % nm)
        ex.params = ex.params | {'es{%s}' % nm}
        st.facts += [ccmp('<=', c_(1) - es), ccmp('<=', -ro), ccmp('<=', ro + es - self.isz)]
        if cur is not None: st.g['old'] = st.g['old'] + (cur,)
        st.g['cur'] = (i, st.g['row0']); st.g['byt'] = C0
    def obj(self, ex, st, p):
        if p.b == 'pst': return Tab()
        if p.b == 'S': return Src()
        if p.b and p.b.startswith('D{'): return Col(p.b)
        return kern.Base.obj(self, ex, st, p)
    def ptr_eq(self, ex, st, a, b): return None
    def setup(self, ex, f):
        s0 = A_('s0')
        st = start(ex, f.name, [Ptr('S', C0), s0, self.n, Ptr('pst', C0), self.na, self.isz], mod=ex.mods[0], mem={})
        st.g.update(cur=None, byt=C0, row0=s0, old=(), groups=0)
        st.facts += [ccmp('<=', -s0), ccmp('<=', c_(1) - self.na), ccmp('<=', c_(1) - self.isz)]
        ex.params = frozenset(['s0', 'n', 'na', 'isz'])
        return st
    def norm(self, ex, t):
        """a complete element counts as a row"""
        if t.g['cur'] is None or t.g['byt'] == C0: return
        i, done = t.g['cur']
        es, _ = self.atoms(t, ex, i)
        if ex.proves(t, ccmp('==', t.g['byt'] - es)) is True: t.g['cur'] = (i, done + 1); t.g['byt'] = C0
    # ---- loops: bytes of an element, rows of a column, columns, groups of rows
    def loop_havoc(self, ex, st, k, T):
        if k is None or T is None: return
        s, phis, init = ex.linfo[-1]
        if T[0] == 'row':
            if st.g['cur'] is not None: st.g['cur'] = (st.g['cur'][0], st.g['cur'][1] + k*T[1])
            st.g['byt'] = st.g['byt'] + k*T[2]
        elif T[0] == 'group':
            c = [i for i in phis if isinstance(init[i.d], Poly) and ex.norm(s, init[i.d] - s.g['row0']).m == {}]
            if not c: raise Undecided('the loop over the rows has no row counter')
            # prefer the one every iteration hands on
            ph = T[1] if T[1] in [i.d for i in c] else c[0].d
            st.g['row0'] = st.env[ph]
            st.facts.append(ccmp('<=', s.g['row0'] - st.env[ph]))
            if ex.proves(s, ccmp('<=', s.g['row0'] - self.n)) is True: st.facts.append(ccmp('<=', st.env[ph] - self.n))
            self.fr[len(ex.active)] = [i for i in c if i.d == ph][0]
    def loop_progress(self, ex, g0, backs):
        s, phis, init = ex.linfo[-1]
        Ts = []
        for t in backs:
            self.norm(ex, t)
            if t.g['groups'] != g0['groups']: T = ('group', None)
            elif (t.g['cur'] is None) != (g0['cur'] is None) or (t.g['cur'] is not None and repr(t.g['cur'][0]) != repr(g0['cur'][0])): T = ('col',)
            else:
                T = ('row', ex.norm(t, t.g['cur'][1] - g0['cur'][1]) if t.g['cur'] is not None else C0, ex.norm(t, t.g['byt'] - g0['byt']))
                if any(not x.isconst() for x in T[1:]): raise Undecided('progress of an iteration is not constant')
            Ts.append(T)
        if not Ts: return ('row', C0, C0)
        if any(T != Ts[0] for T in Ts): raise Undecided('progress differs between paths')
        return Ts[0]
    def loop_start(self, ex, h, s, phis, init, steps, k, T): self.ends = getattr(self, 'ends', {}); self.ends[len(ex.active)] = None
    def loop_back(self, ex, t, k, T, s, phis, init, steps, H):
        if T is None: return
        self.norm(ex, t)
        if T[0] == 'row':
            w = [(t.g['byt'], s.g['byt'] + (k + 1)*T[2])]
            if t.g['cur'] is not None: w.append((t.g['cur'][1], s.g['cur'][1] + (k + 1)*T[1]))
            for a, b in w: ex.oblige('inv:done', True if ex.norm(t, a - b).m == {} else None, 'an iteration fills %s rows, %s bytes' % T[1:])
        elif T[0] == 'col': self.column(ex, t, k, s)
        else:
            i = self.fr[len(ex.active)]
            nv = ex.phiback(t, i, H)
            ex.oblige('coverage', ex.proves(t, ccmp('==', nv - t.g['row0'])), 'the next group of rows starts where this one ends (%s, %s)' % (nv, t.g['row0']))
            ex.oblige('inv:bound', ex.proves(t, ccmp('<=', s.g['row0'] - nv)), 'rows grow')
    def column(self, ex, t, k, s):
        """iteration k fills column k from row0 to the common end"""
        d = len(ex.active)
        i, done = t.g['cur']
        ex.oblige('coverage', True if ex.norm(t, i - k).m == {} and not t.g['old'][len(s.g['old']):] else None, 'iteration %s fills column %s' % (k, i))
        ex.oblige('coverage', True if t.g['byt'] == C0 else None, 'the last element of the column is complete')
        if self.ends[d] is None:
            seen = []
            for v in list(s.env.values()) + [self.n]:
                if isinstance(v, Poly) and not any(v == w for w in seen):
                    seen.append(v)
                    if not v.isconst() and ex.proves(t, ccmp('==', done - v)) is True: self.ends[d] = v; break
        e = self.ends[d]
        if not ex.dry: ex.oblige('coverage', None if e is None else ex.proves(t, ccmp('==', done - e)), 'column %s is filled up to %s, all columns to %s' % (i, done, e))
    def loop_exit(self, ex, t, k, T, s):
        self.norm(ex, t)
        if T is None or T[0] != 'col': return
        d = len(ex.active); cur = t.g['cur']
        if cur is not None and repr(cur[0]) != repr(s.g['cur'][0] if s.g['cur'] else None): self.column(ex, t, k, s); last = k + 1
        else: last = k
        if not ex.dry: ex.oblige('coverage', ex.proves(t, ccmp('==', last - self.na)), 'the loop ends after all columns (%s)' % last)
        e = self.ends[d]
        t.g['cur'] = None; t.g['byt'] = C0; t.g['groups'] = t.g['groups'] + 1; t.g['old'] = s.g['old']
        t.g['row0'] = e if e is not None else A_(ex.fresh('row'))
    def term(self, ex, key, paths):
        ok = True
        if len(ex.active) not in self.fr: return False
        i = self.fr[len(ex.active)]
        s, phis, init = ex.linfo[-1]
        for kd, t, _ in paths:
            if kd != 'back': continue
            nv = ex.phiback(t, i, key[1])
            # the header value of the counter is the atom the previous group ended at
            h = self.hdr.get(len(ex.active)) if hasattr(self, 'hdr') else None
            if ex.proves(t, ccmp('<=', nv + 1 - self.n)) is not True: ok = False
        return ok and any(kd == 'back' for kd, _, _ in paths)
    def finish(self, ex, outs):
        n = 0
        for kd, t, v in outs:
            if kd != 'ret': continue
            n += 1
            ex.oblige('coverage', ex.proves(t, ccmp('<=', self.n - t.g['row0'])), 'all rows are done at return (%s)' % t.g['row0'])
            if t.g['cur'] is not None: ex.oblige('coverage', None, 'a column is left')
        ex.oblige('reach', True if n else False, 'the function returns under its precondition')
def gather(ex, s, a, i):
    pas, p, idx, mask, scale = a
    ty = i.ty; n = ty[1]; w = ty[2][1] if isinstance(ty[2], tuple) else ty[2]
    nb = ir.size(ty)//n
    if not isinstance(p, Ptr) or p.b != 'S': raise Undecided('gather from %s' % (p,))
    lanes = ex.lanes(mask, nb*8, n)
    for m in lanes:
        m = z3.simplify(m)
        if not z3.is_bv_value(m) or not (m.as_long() >> (nb*8 - 1)): raise Undecided('masked gather')
    sc = scale.cval() if isinstance(scale, Poly) else z3.simplify(scale).as_long()
    il = ex.lanes(idx, 32, len(ex.lanes(idx, 32, ir_len(i, idx))))
    sp = ex.spec; out = []
    X = z3.BitVec('isz64', 64)
    for l in range(n):
        q = z3.simplify(il[l]); off = None
        sub = []
        for c in kern.zconsts(q, {}):
            pp = ex.i2b.get(c.decl().name())
            if pp is not None and ex.norm(s, pp) == sp.isz and c.size() <= 64: sub.append((c, z3.Extract(c.size() - 1, 0, X)))
        if sub: q = z3.substitute(q, *sub)
        for m in range(0, 16):
            if z3.simplify(q == z3.Extract(31, 0, X*m)).eq(z3.BoolVal(True)) or unsat(q != z3.Extract(31, 0, X*m)):
                off = sp.isz*m; break
        if off is None: raise Undecided('gather index %s' % q)
        if not ex.dry and off != C0: ex.oblige('bounds', ex.proves(s, ccmp('<=', off - (2**31 - 1))), 'the 32 bit gather index %s does not overflow' % off)
        out.append(Src().elem(ex, s, p.o + off*sc, nb))
    return Vec(out, nb*8)
def ir_len(i, idx):
    return len(idx.l)*idx.w//32 if isinstance(idx, Vec) else 0
def unsat(c):
    z = z3.Solver(); z.set('timeout', 3000); z.add(c); return z.check() == z3.unsat
class Conv:
    def __init__(self, mods): self.mods = mods; self.obls = []; self.sym = 'ConvertRecArray'
    def run(self, deadline=60):
        m = self.mods[0]
        self.sym = next((n for n in m.ftext if re.match(r'^_ZL?15ConvertRecArrayPcllP17stRecarrayOffsetsll$', n)), None)
        if self.sym is None: self.sym = 'ConvertRecArray'; raise Undecided('no such function')
        sp = RecSpec(); hk = {}
        for n in ('d.d.256', 'd.q.256', 'd.d', 'd.q', 'q.q.256', 'q.d.256'): hk['llvm.x86.avx2.gather.' + n] = gather
        self.ex, und = kern.verify(m, self.sym, sp, deadline, hk)
        self.obls = [(o[0], o[1], o[2]) for o in self.ex.obls]
        if und: raise Undecided(und)
        return self
class Split:
    """RecArrayToColMajor: which ranges are converted by whom"""
    def __init__(self, mods): self.mods = mods; self.obls = []; self.sym = 'RecArrayToColMajor'
    def ob(self, k, ok, t): self.obls.append((k, ok, t))
    def eq(self, t, a, b):
        from .sspec import SortFn
        return SortFn.eq(self, t, a, b)
    def run(self, deadline=60):
        mods = self.mods
        mod = next((m for m in mods if m.func('RecArrayToColMajor')), None)
        if mod is None: raise Undecided('no such function')
        conv = next((n for n in mod.ftext if re.match(r'^_ZL?15ConvertRecArrayP', n)), None)
        dw = regs.finder(mods, r'CMathWorker\d+DoMultiThreadedWorkE')
        if conv is None: raise Undecided('no ConvertRecArray')
        class S(HSpec):
            def obj(s_, ex, st, p):
                if p.b in ('S', 'pst'): raise Undecided('records or columns are accessed outside ConvertRecArray')
                return HSpec.obj(s_, ex, st, p)
        sp = S(); ex = Ex(mods, sp, self.sym); self.ex = ex; ex.deadline = time.time() + deadline
        n, na, isz = A_('n'), A_('na'), A_('isz'); ex.params = frozenset(['n', 'na', 'isz']); self.isz = isz; runs = []
        ex.hooks[conv] = lambda ex, s, a, i: ev(s, ('conv', tuple(a)))
        def work(ex, s, a, i):
            cnt, f, arg = a[1], a[2], a[3]
            if not isinstance(f, Ptr) or not f.b.startswith('@'): raise Undecided('work item callback')
            t = s.copy(); t.g['ev'] = (); w = A_('w')
            t.facts += [ccmp('<=', -w), ccmp('<=', w + 1 - cnt)]
            cm = next((m for m in mods if m.func(f.b[1:])), None)
            for u, v in ex.call(t, f.b[1:], [arg, A_('core'), w], cm): runs.append((u, u.g['ev'], w, cnt))
            ev(s, ('items', cnt)); return C0 if i.ty != 'void' else None
        if dw: ex.hooks[dw] = work
        st = start(ex, self.sym, [Ptr('pst', C0), Ptr('S', C0), n, na, isz], mod=mod, mem={})
        st.facts += [ccmp('<=', -n), ccmp('<=', n - 2**44), ccmp('<=', c_(1) - na), ccmp('<=', c_(1) - isz)]; st.g['ev'] = ()
        rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        self.obls += [(o[0], o[1], str(o[2])) for o in ex.obls]
        if not rs: self.ob('returns', None, 'no path returns')
        def opnd(t, a):
            for k, (w, txt) in {0: (Ptr('S', C0), 'records'), 3: (Ptr('pst', C0), 'columns'), 4: (na, 'number of columns'), 5: (isz, 'record size')}.items():
                self.ob('operand', self.eq(t, a[k], w), '%s: %s, must be %s' % (txt, a[k], w))
        for _, t, v in rs:
            evs = t.g['ev']
            if len(evs) != 1:
                self.ob('split', False if not evs and ex.proves(t, ccmp('<=', c_(1) - n)) is True else True if not evs and ex.proves(t, ccmp('<=', n)) is True else None, 'the rows are converted once: %s' % ' '.join(e[0] for e in evs)); continue
            e = evs[0]
            if e[0] == 'conv':
                opnd(t, e[1]); self.ob('range', self.eq(t, e[1][1], C0), 'first row %s' % e[1][1]); self.ob('range', self.eq(t, e[1][2], n), 'rows up to %s' % e[1][2])
        starts = []
        for u, es, w, cnt in runs:
            if len(es) != 1: self.ob('split', False if not es else None, 'each index converts one range'); continue
            a = es[0][1]; opnd(u, a); starts.append(a[1])
        for u, es, w, cnt in runs:
            if len(es) != 1: continue
            a, b = es[0][1][1], es[0][1][2]
            if not isinstance(a, Poly) or any(s != a for s in starts) or a.atoms() - {'w'}: self.ob('range', None, 'first row %s' % a); continue
            self.ob('range', True if a.subst({'w': C0}) == C0 else False, 'index 0 starts at row %s' % a.subst({'w': C0}))
            x = u.copy(); x.facts.append(ccmp('<=', w + 2 - cnt))
            if ex.check(x, [])[0] != 'unsat': self.ob('range', self.eq(x, b, a.subst({'w': w + 1})), 'an index ends (%s) where the next starts' % b)
            x = u.copy(); x.facts.append(ccmp('==', w + 1 - cnt))
            if ex.check(x, [])[0] != 'unsat': self.ob('range', self.eq(x, b, n), 'the last index ends (%s) at the last row' % b)
        return self
G = {}
def task(k):
    o = None
    try: o = Conv(G['M']) if k == 'conv' else Split(G['M']); o.run(G['deadline']); und = None
    except Undecided as e: und = str(e)[:200]
    except Exception: und = 'internal: ' + traceback.format_exc()[-300:]
    ob = [(x[0], x[1], str(x[2])[:300]) for x in (getattr(o, 'obls', None) or (o.ex.obls if o is not None and hasattr(o, 'ex') else [])) if und is None or x[1] is not False]
    return k, o.sym, ob, und, o.ex.solver_s if hasattr(o, 'ex') else 0
def run(R):
    from multiprocessing import Pool
    from . import hcheck, build
    w = build.Work()
    T = w.ir(['recarray'], ['-fno-inline', '-Dalways_inline=noinline'])
    G.update(M=[ir.Module(T['recarray'], 'recarray')], deadline=150 if R.tier == 'quick' else 600)
    with Pool(2) as pool:
        for k, sym, ob, und, ss in R.take(pool.imap_unordered(task, ['conv', 'split'])): R.function(sym, TEXT['ConvertRecArray' if k == 'conv' else 'RecArrayToColMajor'], ob, und, ss, '')
    hcheck.concrete(R, w, [('records', 'record dtypes with 1-9 fields, offsets, padding, subarrays, layouts, lengths <= 70000, workers 0..14')], 30)
    R.assume = [x for x in R.assume if x not in hcheck.ASSUME] + ['DoMultiThreadedWork runs every index once and returns when all are completed (T01/T02)', 'the columns do not overlap each other or the records (they are allocated by recarray.py)', 'fewer than 2^44 rows', 'pointer and index arithmetic is mathematical (no address wraps)', 'recarray.py and the wrapper in conversions.cpp pass the offsets and sizes of the dtype (bounded suite)']
    R.trusted = [x for x in R.trusted if 'NumPy C API' not in x]
