"""Range filling under contract: ArangeFill hands every chunk to the routine of the type; the routine fills exactly its chunk."""
import re, time, z3
from . import ir, kern, fp, regs
from .poly import Poly
from .ex import Ex, Ptr, Cells, Undecided, C0, ccmp, band, bor, bnot
from .world import start
from .hookrun import HSpec, ev, A_, c_
SIZE = {1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 12: 4, 13: 8, 14: 16}
TEXT = {
 'fill': 'ArangeFillType<T>(buf,first,next,start,end): requires 0<=start, first=buf, next=buf+1; ensures buf[i] == T(first + i*(next-first)) in the arithmetic of T for all max(start,2)<=i<end, written once in order; buf[0], buf[1] and everything else unchanged; reads only buf[0] and buf[1]',
 'ArangeFill': 'ArangeFill(type,buf,first,next,n,threads): requires n>=0; ensures DoMultiThreadedChunkWork runs, for every chunk (s,len) of 0..n, the fill routine of exactly this type once on (buf,first,next,s,s+len), or -1 is returned and nothing is written',
}
class FillArr(kern.Arr):
    def load(self, ex, st, off, ty, x):
        n = ir.size(ty)
        if n != self.es: raise Undecided('load of %d bytes from %d byte elements' % (n, self.es))
        d = ex.norm(st, off)
        if not d.isconst() or d.cval() not in (0, self.es):
            ex.oblige('bounds', False, 'load of %s: only the two start values may be read' % (off,)); return z3.BitVec(ex.fresh('ld'), n*8)
        return z3.BitVec('N' if d.cval() else 'F', n*8)
class FillSpec(kern.KSpec):
    inplace_checked = False
    def __init__(self, atype, low):
        self.es = SIZE[atype]; self.atype = atype; self.low = low
        kern.KSpec.__init__(self, 'range', [0], 0, None, ('C', 'C'), None)
        self.ty = 'f' if atype in (12, 13, 14) else 'i'
    def setup(self, ex, f):
        st = kern.State()
        st.env = {}; st.fn = f; st.mod = ex.mods[0]; st.prev = None; st.ip = 0; st.facts = []; st.data = []; st.sub = {}
        s0 = A_('start'); self.first = c_(2) if self.low else s0
        st.mem = {}; st.g = {'done': self.first, 'pend': ()}; st.trace = None; st.frame = f.name; st.blk = f.order[0]
        es = self.es
        self.strides = [c_(es)]; self.arr = {'C': FillArr(self, 'C', es, [c_(es)], True, 'buf')}
        st.mem['C'] = self.arr['C']; self.out = self.arr['C']; self.oes = es; self.so = c_(es)
        args = [Ptr('C', C0), Ptr('C', C0), Ptr('C', c_(es)), s0, self.n]
        if len(f.params) != len(args): raise Undecided('signature')
        for (t, pn), v in zip(f.params, args): st.env[pn] = v
        st.facts += [ccmp('<=', -s0), ccmp('<=', s0 - self.n)]
        st.facts.append(ccmp('<=', s0 - 1) if self.low else ccmp('<=', c_(2) - s0))
        ex.params = frozenset(['n', 'start']); self.ex = ex
        return st
    def value(self, ex, st, lane, j):
        w = self.es*8; J = z3.BitVec('J', 64); F = z3.BitVec('F', w); N = z3.BitVec('N', w)
        sub = []; loose = False
        j = ex.norm(st, j)
        for c in kern.zconsts(lane, self.cc):
            nm = c.decl().name()
            if nm in ex.i2b:
                p = ex.norm(st, ex.i2b[nm]); d = None
                while len(p.m) == 1 and len(p.atoms()) == 1 and p == Poly.atom(list(p.atoms())[0]) and list(p.atoms())[0] in ex.wrapof and ex.wrapof[list(p.atoms())[0]][0] >= c.size(): p = ex.norm(st, ex.wrapof[list(p.atoms())[0]][1])
                for k in (1, 0):
                    q = ex.norm(st, p - j*k)
                    if q.isconst(): d = J*k + q.cval(); break
                    if k and ex.proves(st, ccmp('==', q)) is True: d = J; break
                if d is None: loose = True; continue
                sub.append((c, d if c.size() == 64 else z3.Extract(c.size() - 1, 0, d)))
            elif nm not in ('F', 'N', 'J'): loose = True
        e = z3.substitute(lane, *sub) if sub else lane
        if self.ty == 'i':
            T = J if w == 64 else z3.Extract(w - 1, 0, J)
            want = F + T*(N - F)
        else:
            want = fp.arith('fadd', F, fp.arith('fmul', fp.conv('sitofp', J, w), fp.arith('fsub', N, F)))
        ok = True
        if not e.eq(want) and not fp.canon(e).eq(fp.canon(want)):
            s = z3.Solver(); s.set('timeout', 10000); s.add(fp.canon(e) != fp.canon(want)); r = s.check()
            ok = True if r == z3.unsat else None if (r != z3.sat or loose or kern.has_uf(e) or kern.has_uf(want)) else False
            if ok is not True and self.ty == 'i':
                from . import bvpoly
                try:
                    if bvpoly.equal(e, want): ok = True
                except Exception: pass
        ex.oblige('value', ok, 'buf[%s] == first + index*(next-first)%s' % (j, '' if ok else ' got %s' % str(z3.simplify(e))[:200]))
    def finish(self, ex, outs):
        n = 0
        for kind, t, v in outs:
            if kind != 'ret': continue
            n += 1
            d = ex.norm(t, t.g['done'] - self.n)
            ok = True if d.m == {} else ex.proves(t, ccmp('==', d))
            if ok is not True: ok = True if ex.proves(t, band(ccmp('<=', self.n - self.first), ccmp('==', t.g['done'] - self.first))) is True else ok
            ex.oblige('coverage', ok, 'all elements of the chunk written at return (%s)' % t.g['done'])
            if t.g['pend']: ex.oblige('coverage', False, 'elements skipped')
        ex.oblige('reach', True if n else False, 'the function returns under its precondition')
class Fill:
    def __init__(self, mod, sym, atype, low): self.mod = mod; self.sym = sym; self.atype = atype; self.low = low; self.obls = []
    def run(self, deadline=60):
        sp = FillSpec(self.atype, self.low)
        self.ex, und = kern.verify(self.mod, self.sym, sp, deadline)
        self.obls = [(o[0], o[1], '%s: %s' % ('start<2' if self.low else 'start>=2', o[2])) for o in self.ex.obls]
        if und: raise Undecided(und)
        return self
class FillDispatch:
    """which routine, on what"""
    def __init__(self, mods, atype): self.mods = mods; self.atype = atype; self.obls = []; self.fill = None; self.sym = 'ArangeFill'
    def ob(self, k, ok, t): self.obls.append((k, ok, t))
    def eq(self, t, a, b):
        from .sspec import SortFn
        return SortFn.eq(self, t, a, b)
    def run(self, deadline=60):
        mods = self.mods
        from .sspec import SortFn
        eq = self.eq
        mod = next((m for m in mods if m.func('ArangeFill')), None)
        if mod is None: raise Undecided('no function ArangeFill')
        class S(HSpec):
            def obj(s_, ex, st, p):
                if p.b == 'buf': raise Undecided('elements are accessed outside the fill routine')
                return HSpec.obj(s_, ex, st, p)
        sp = S(); ex = Ex(mods, sp, 'ArangeFill'); self.ex = ex; ex.deadline = time.time() + deadline; ex.params = frozenset(['n'])
        dw = regs.finder(mods, r'CMathWorker\d+DoMultiThreadedChunkWorkE')
        if dw is None: raise Undecided('no DoMultiThreadedChunkWork')
        runs = []
        def fillhook(name):
            return lambda ex, s, a, i: (ev(s, ('fill', name, tuple(a))), C0)[1]
        for m in mods:
            for nme in m.ftext:
                if 'ArangeFillType' in nme: ex.hooks[nme] = fillhook(nme)
        def chunk(ex, s, a, i):
            cnt, f, arg = a[1], a[2], a[3]
            if not isinstance(f, Ptr) or not f.b.startswith('@'): raise Undecided('chunk callback')
            t = s.copy(); t.g['ev'] = (); b, l = A_('cs'), A_('cl')
            t.facts += [ccmp('<=', -b), ccmp('<=', c_(1) - l), ccmp('<=', b + l - cnt)]
            cm = next((m for m in mods if m.func(f.b[1:])), None)
            for u, v in ex.call(t, f.b[1:], [arg, A_('core'), b, l], cm): runs.append((u, u.g['ev'], b, l))
            ev(s, ('chunks', cnt)); return A_(ex.fresh('cr'))
        ex.hooks[dw] = chunk
        n = A_('n'); self.isz = c_(1)
        P = lambda o: Ptr('buf', o)
        sz = c_(SIZE.get(self.atype, 1))
        st = start(ex, 'ArangeFill', [c_(self.atype), P(C0), P(C0), P(sz), n, c_(3)], mod=mod, mem={}); st.facts.append(ccmp('<=', -n)); st.g['ev'] = ()
        rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        self.obls += [(o[0], o[1], str(o[2])) for o in ex.obls]
        if not rs: self.ob('returns', None, 'no path returns')
        for _, t, v in rs:
            evs = t.g['ev']
            if isinstance(v, Poly) and ex.proves(t, ccmp('<=', v + 1)) is True: self.ob('result', not evs, 'a declined fill leaves everything alone'); continue
            self.ob('result', eq(t, v, C0), 'success is reported')
            if len(evs) != 1 or evs[0][0] not in ('chunks', 'fill'): self.ob('split', False if not evs else None, 'filled once: %s' % ' '.join(e[0] for e in evs)); continue
            if evs[0][0] == 'fill': self.check(eq, t, evs[0], C0, n)
            else:
                self.ob('range', eq(t, evs[0][1], n), 'all elements are handed out: %s' % evs[0][1])
                for u, es, b, l in runs:
                    if len(es) != 1: self.ob('split', False if not es else None, 'each chunk is filled once'); continue
                    self.check(eq, u, es[0], b, l)
        return self
    def check(self, eq, t, e, b, l):
        a = e[2]; P = lambda o: Ptr('buf', o)
        self.fill = e[1]
        for k, (w, txt) in enumerate(((P(C0), 'buffer'), (P(C0), 'first value'), (P(c_(SIZE.get(self.atype, 1))), 'second value'), (b, 'first index'), (b + l, 'end index'))):
            self.ob('operand' if k < 3 else 'range', eq(t, a[k], w), 'chunk %s is %s, must be %s' % (txt, a[k], w))
        code = {1: 'a', 2: 'h', 3: 's', 4: 't', 5: 'i', 6: 'j', 7: 'l', 8: 'm', 12: 'f', 13: 'd', 14: 'e'}.get(self.atype)
        m = re.search(r'ArangeFillTypeI(\w)E', e[1])
        self.ob('route', m is not None and m.group(1) == code, 'type %d is filled by %s' % (self.atype, e[1]))

G = {}
def task(a):
    import traceback
    d = None
    try:
        if a[0] == 'dispatch': d = FillDispatch(G['M'], a[1])
        else: d = Fill(G['M'][0], a[2], a[1], a[3])
        d.run(G['deadline']); und = None
    except Undecided as e: und = str(e)[:200]
    except Exception: und = 'internal: ' + traceback.format_exc()[-300:]
    ob = [(x[0], x[1], str(x[2])[:300]) for x in d.obls if und is None or x[1] is not False] if d is not None else []
    return a, ob, und, d.ex.solver_s if hasattr(d, 'ex') else 0, getattr(d, 'fill', None)
def run(R):
    from multiprocessing import Pool
    from . import hcheck, build
    S = hcheck.setup(R)
    hcheck.slots(R, S[2], {'arange'})
    w = S[0]
    T = w.ir(['fill'], ['-fno-inline', '-Dalways_inline=noinline'])
    G.update(M=[ir.Module(T['fill'], 'fill')], deadline=100 if R.tier == 'quick' else 400)
    fills = []
    with Pool(8) as pool:
        for a, ob, und, ss, f in R.take(pool.imap_unordered(task, [('dispatch', t) for t in range(0, 23)])):
            R.function('ArangeFill[type %d]' % a[1], TEXT['ArangeFill'], ob, und, ss, '')
            if f: fills.append((a[1], f))
        jobs = [('fill', t, f, low) for t, f in sorted(fills) for low in (True, False) if t in SIZE and t != 14]
        for t, f in fills:
            if t == 14: R.undecided.append((f, 'long double: not under contract'))
        for a, ob, und, ss, f in R.take(pool.imap_unordered(task, jobs)): R.function('%s[%s]' % (a[2], 'from 0' if a[3] else 'later chunk'), TEXT['fill'], ob, und, ss, '')
    hcheck.concrete(R, w, [('arange', 'np.arange over all types, signs and lengths <= 200011, workers 0..14')], 30)
    R.assume = [x for x in R.assume if x not in hcheck.ASSUME] + ['DoMultiThreadedChunkWork runs every chunk of the range once (T01/T02/T03)', 'pointer and index arithmetic is mathematical (no address wraps)']
