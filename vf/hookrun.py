"""The ufunc hooks under contract: every registered loop executed symbolically with arbitrary arguments.

For a registered loop (u, t) called with args, dims[0]=n>=1, steps and any settings, the contract is: exactly one of
  old     the original loop of (u, t) runs once on exactly the caller's arguments
  kernel  the accelerated routine bound to (u, t) runs once on exactly the caller's operands (its own contract is B01..B05)
  split   (n >= the threading threshold) a work item is run whose callback applies one of the two to the sub-range of the
          claimed block, and completes each claimed block once; the dispatcher's contract is T01/T02
and which of the three is allowed depends on the aliasing of the operands, the settings and the operation.
"""
import re, time, traceback, z3
from multiprocessing import Pool
from .poly import Poly
from . import ir, kern, regs, world, build, kcheck
from .ex import Ex, Ptr, Cells, Undef, Undecided, Fork, C0, TRUE, FALSE, ccmp, bnot, band, bor, csubst
from .world import World, start, GP

BS = 0x4000
MT = 65536
ISZ = {0: 1, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 9: 8, 10: 8, 11: 4, 12: 8}
A_ = Poly.atom
c_ = Poly.const
IDEMPOTENT = {'minimum', 'maximum', 'logical_and', 'logical_or', 'bitwise_and', 'bitwise_or'}

class MemHavoc(World):
    """memory cells modified by a loop are unknown at its header"""
    def __init__(self):
        World.__init__(self); self.fr = {}
    def diffcells(self, m0, m1):
        out = set()
        for k, o in m1.items():
            p = m0.get(k)
            if p is o or p is None or not isinstance(o, Cells): continue
            for off in set(o.c) | set(p.c):
                a, b = o.c.get(off), p.c.get(off)
                if a is not b and not (a and b and a[0] == b[0] and a[1] is b[1]): out.add((k, off, (a or b)[0], (a or b)[2]))
        return out
    def loop_havoc(self, ex, r, k, T):
        d = len(ex.active)
        if k is None: self.fr[d] = dict(m0=dict(r.mem), mod=set()); return
        f = self.fr[d]
        for o, off, n, ty in f['mod']:
            x = r.mem[o]; c = dict(x.c)
            for a in [a for a, v in c.items() if a < off + n and off < a + v[0]]: del c[a]
            c[off] = (n, self.havocked(ex, r, ty), ty)
            y = x.clone(c); r.mem[o] = y
        f['hdr'] = dict(r.mem)
    def havocked(self, ex, r, ty): return Undef(ty)
    def loop_progress(self, ex, g0, backs):
        f = self.fr[len(ex.active)]
        for t in backs: f['mod'] |= self.diffcells(f['m0'], t.mem)
        return None
    def loop_back(self, ex, t, k, T, s, phis, init, steps, H):
        f = self.fr[len(ex.active)]
        extra = {(a, b) for a, b, _, _ in self.diffcells(f['hdr'], t.mem)} - {(a, b) for a, b, _, _ in f['mod']}
        if extra: ex.oblige('frame', None, 'loop modifies %s beyond the havocked cells' % sorted(extra)[:3])

def ev(s, e): s.g['ev'] = s.g.get('ev', ()) + (e,)

class Data:
    """an array operand: the hooks never look at elements, except to seed partial results"""
    def __init__(self, n): self.n = n
    def load(self, ex, st, off, ty, x):
        if isinstance(ty, tuple) and ty[0] in ('i', 'f'):
            return z3.BitVec('mem(%s,%r,%d)' % (self.n, off, ir.size(ty)), ir.size(ty)*8)
        raise Undecided('load of %s from operand %s' % (ty, self.n))
    def store(self, ex, st, off, ty, v, x):
        ev(st, ('st', Ptr(self.n, off), ir.size(ty), v))
    def bulkcopy(self, ex, st, off, os, o2, n):
        if n.isconst() and n.cval() in (1, 2, 4, 8, 16):
            w = n.cval()
            ev(st, ('st', Ptr(self.n, off), w, os.load(ex, st, o2, ('i', w*8), None)))
            return
        raise Undecided('bulk copy into operand')

class HSpec(MemHavoc):
    def __init__(self): MemHavoc.__init__(self); self.tmpl = {}
    def gvar(self, ex, st, n, g):
        if n == 'g_cMathWorker': return GP(Ptr('worker', C0))
        return MemHavoc.gvar(self, ex, st, n, g)
    def obj(self, ex, st, p):
        if p.b in ('A', 'B', 'C') or (p.b and p.b.startswith('heap')): return Data(p.b)
        return MemHavoc.obj(self, ex, st, p)
    def term(self, ex, key, paths):
        # every iteration takes a block; the dispatcher hands out finitely many (T01)
        b = [t for kd, t, _ in paths if kd == 'back']
        return bool(b) and all(any(e[0] == 'claim' for e in t.g.get('ev', ())) for t in b)
    def ptr_eq(self, ex, st, a, b):
        D = ('A', 'B', 'C')
        if a.b in D and b.b in D and a.b != b.b: return None
        return MemHavoc.ptr_eq(self, ex, st, a, b)
    def outstanding(self, evs):
        o = None
        for e in evs:
            if e[0] == 'claim': o = e
            elif e[0] in ('done', 'noclaim', 'rep'): o = None
        return o
    def loop_havoc(self, ex, r, k, T):
        MemHavoc.loop_havoc(self, ex, r, k, T)
        if k is None: return
        d = len(ex.active); s, phis, init = ex.linfo[-1]
        o = self.outstanding(s.g.get('ev', ()))
        r.g['ev0'] = s.g.get('ev0', ()) + (s.g.get('ev', ()),)
        r.g['ev'] = ()
        link = []
        if o:
            wb, ln = self.claimed(ex, r)
            new = {1: wb, 2: ln}
            r.g['ev'] = (('claim', wb, ln),)
            for i in phis:
                for j in (1, 2):
                    if isinstance(init[i.d], Poly) and init[i.d] == o[j] and not o[j].isconst(): r.env[i.d] = new[j]; link.append(('phi', i, j)); break
            for ob, off, n, ty in self.fr[d]['mod']:
                c = s.mem[ob].c.get(off)
                for j in (1, 2):
                    if c and isinstance(c[1], Poly) and c[1] == o[j] and not o[j].isconst():
                        x = r.mem[ob]; cc = dict(x.c); cc[off] = (n, new[j], ty); r.mem[ob] = x.clone(cc)
                        link.append(('mem', (ob, off), j)); break
            self.fr[d]['hdr'] = dict(r.mem)
        self.fr[d]['link'] = link; self.fr[d]['carry'] = o is not None
    def claimed(self, ex, y):
        wb = A_(ex.fresh('wb')); ln = A_(ex.fresh('len'))
        bs = y.g['bs']; n = y.g['wn']
        for f in (ccmp('<=', -wb), ccmp('<=', c_(1) - ln), ccmp('<=', ln - bs), ccmp('<=', wb*bs + ln - n)): y.facts.append(f)
        return wb, ln
    def loop_start(self, ex, h, s, phis, init, steps, k, T):
        self.tmpl[len(ex.active)] = []
    def loop_back(self, ex, t, k, T, s, phis, init, steps, H):
        MemHavoc.loop_back(self, ex, t, k, T, s, phis, init, steps, H)
        if ex.dry: return
        f = self.fr[len(ex.active)]
        evs = t.g.get('ev', ())
        o = self.outstanding(evs)
        if (o is not None) != f['carry']: ex.oblige('inv:claim', None, 'claimed block carried around the loop in one direction only')
        if o is not None:
            for kd, w, j in f['link']:
                v = ex.phiback(t, w, H) if kd == 'phi' else t.mem[w[0]].c.get(w[1], (0, None))[1]
                d = ex.norm(t, v - o[j]) if isinstance(v, Poly) else None
                ex.oblige('inv:claim', True if d is not None and d.m == {} else ex.proves(t, ccmp('==', d)) if d is not None else None, 'loop carries the claimed block')
            evs = tuple(e for e in evs if e is not o)
        self.tmpl[len(ex.active)].append((t, evs))
    def loop_exit(self, ex, t, k, T, s):
        e0 = t.g['ev0'][-1]; t.g['ev0'] = t.g['ev0'][:-1]
        f = self.fr[len(ex.active)]
        t.g['ev'] = e0 + (('rep', tuple(self.tmpl[len(ex.active)]) + ((t.copy(), t.g.get('ev', ())),), f['carry']),)

def ranges(a, si, c, so, n):
    """the ranges of element start addresses a + i*si and c + i*so, i < n, intersect"""
    iS, iO = (n - 1)*si, (n - 1)*so
    ge = lambda x, y: ccmp('<=', y - x)
    def case(cs, lo, hi, co, lo2, hi2): return band(band(cs, co), band(ge(hi, lo2), ge(hi2, lo)))
    out = FALSE
    for cs, lo, hi in ((ge(si, c_(0)), a, a + iS), (ccmp('<=', si + 1), a + iS, a)):
        for co, lo2, hi2 in ((ge(so, c_(0)), c, c + iO), (ccmp('<=', so + 1), c + iO, c)):
            out = bor(out, case(cs, lo, hi, co, lo2, hi2))
    return out
def feeding(ex, s, args):
    """contract of IsOutputFeedingInput(input, stepIn, output, stepOut, n): the condition under which it returns true"""
    p, si, q, so, n = args
    a, c = ex.p2i(s, p), ex.p2i(s, q)
    exact = band(ccmp('==', a - c), ccmp('==', si - so))
    return bor(band(exact, ccmp('==', si)), band(bnot(exact), ranges(a, si, c, so, n)))

class Loop:
    """one registered loop in one aliasing configuration"""
    def __init__(self, I, u, sym, t, form, rel):
        self.I = I; self.u = u; self.sym = sym; self.t = t; self.form = form; self.rel = rel
        self.nin = 2 if regs.is_binary(u) else 1
        self.obls = []
        self.fix = (None, None)     # settings fixed by the caller: acceleration, ledger
    def ob(self, kind, ok, txt): self.obls.append((kind, ok, '%s/%s %s' % (self.form, ','.join(self.rel), txt)))
    def run(self, deadline=60):
        I = self.I; mods = I.mods
        sp = HSpec(); ex = Ex(mods, sp, self.sym); self.ex = ex
        ex.deadline = time.time() + deadline
        ex.canfork = lambda x: True
        H = ex.hooks
        ops = regs.opsfuncs(mods)
        def kernel(name):
            def f(ex, s, a, i): ev(s, ('k', name, tuple(a))); return C0 if i.ty != 'void' else None
            return f
        for f in ops: H[f] = kernel(f)
        def old(key):
            def f(ex, s, a, i):
                na = self.nin + 1
                def rd(p, ty, k):
                    try: return ex.load(s, ty, Ptr(p.b, p.o + 8*k), None)
                    except Undecided: return Undef()
                ev(s, ('old', key, tuple(rd(a[0], 'ptr', k) for k in range(na)), rd(a[1], ('i', 64), 0), tuple(rd(a[2], ('i', 64), k) for k in range(na)), a[3], (a[0], a[1], a[2])))
                return None
            return f
        for u, s_, sg in I.loops: H['old:%s:%s' % (u, sg[0])] = old((u, sg[0]))
        def hk(pat, f):
            n = regs.finder(mods, pat)
            if n is None:
                for m in mods:
                    for d in m.decls:
                        if re.search(pat, d): n = d; break
            if n is None: raise Undecided('no function ' + pat)
            H[n] = f
        def getwork(ex, s, a, i):
            n = a[1]
            big = ccmp('<=', c_(MT) - n)
            out = []
            x = s.copy(); out.append((x, Ptr(None, C0)))
            if ex.feasible(s, big):
                y = s.copy(); ex.assume(y, big)
                y.mem['item'] = Cells('item', 4096, {})
                ev(y, ('getwork', n)); y.g['got'] = n
                out.append((y, Ptr('item', C0)))
            return out
        hk(r'CMathWorker11GetWorkItemEl', getwork)
        def workmain(ex, s, a, i):
            item, n, mt = a[1], a[2], a[3]; bs = a[4] if len(a) > 4 else c_(BS)
            if not isinstance(item, Ptr) or item.b != 'item': raise Undecided('work item')
            gen = a[5] if len(a) > 5 else None
            ex.store(s, ('i', 64), n, Ptr('item', c_(self.off('TotalElements'))), None)
            ex.store(s, ('i', 64), bs, Ptr('item', c_(self.off('BlockSize'))), None)
            cb = ex.load(s, 'ptr', Ptr('item', C0), None)
            if not isinstance(cb, Ptr) or not cb.b or not cb.b.startswith('@'): raise Undecided('work callback')
            m = None
            for q in mods:
                if q.func(cb.b[1:]): m = q; break
            before = s.g.get('ev', ()); s.g['ev'] = (); s.g['bs'] = bs; s.g['wn'] = n
            rs = ex.call(s, cb.b[1:], [Ptr('item', C0), A_('core'), A_('workindex')], m)
            out = []
            for t, v in rs:
                t.g['ev'] = before + (('work', cb.b, n, bs, mt, gen, t.g['ev']),)
                out.append((t, None))
            return out
        hk(r'CMathWorker8WorkMainE', workmain)
        fd = regs.finder(mods, r'IsOutputFeedingInputPclS_ll$')
        if fd and I.feedok:
            def feed(ex, s, a, i):
                c = feeding(ex, s, a)
                out = []
                for v, cc in ((TRUE, c), (FALSE, bnot(c))):
                    if ex.feasible(s, cc):
                        x = s.copy(); ex.assume(x, cc); out.append((x, v))
                return out
            H[fd] = feed
        def claim(ex, s, a, i):
            x = s.copy(); ev(x, ('noclaim',))
            y = s.copy()
            wb, ln = sp.claimed(ex, y)
            ex.store(y, ('i', 64), wb, a[2], None)
            ev(y, ('claim', wb, ln))
            return [(x, C0), (y, ln)]
        hk(r'stMATH_WORKER_ITEM20GetNextWorkBlockCoreE', claim)
        hk(r'stMATH_WORKER_ITEM17CompleteWorkBlockE', lambda ex, s, a, i: ev(s, ('done',)))
        def alloc(ex, s, a, i):
            b = ex.fresh('heap'); s.g['buf:' + b] = a[0]
            ev(s, ('alloc', b, a[0]))
            return Ptr(b, C0)
        hk(r'^_Z7FmAllocm$', alloc)
        hk(r'^_Z6FmFreePv$', lambda ex, s, a, i: ev(s, ('free', a[0])))
        def dyn(ex, s, size, b):
            b = ex.fresh('heap'); s.g['buf:' + b] = size
            return Ptr(b, C0)
        H['alloca'] = dyn
        hk(r'^_Z12LedgerRecordi', lambda ex, s, a, i: ev(s, ('ledger', tuple(a))))
        H['llvm.x86.rdtsc'] = lambda ex, s, a, i: A_(ex.fresh('tsc'))
        H['llvm.stacksave.p0'] = H['llvm.stacksave'] = lambda ex, s, a, i: Ptr('stk', C0)
        H['llvm.stackrestore.p0'] = H['llvm.stackrestore'] = lambda ex, s, a, i: None
        # ---- the call
        n = A_('n'); s0, s1, s2 = A_('s0'), A_('s1'), A_('s2')
        mem = dict(I.st.mem)
        P = lambda b: Ptr(b, C0)
        facts = [ccmp('<=', c_(1) - n)]
        atop, ledger = A_('atop'), A_('ledger')
        for x, f in zip((atop, ledger), self.fix):
            facts += [ccmp('<=', -x), ccmp('<=', x - 1)]
            if f is not None: facts.append(ccmp('==', x - f))
        g = mem.get('@g_Settings')
        mem['@g_Settings'] = Cells('@g_Settings', 4096, {I.sett['AtopEnabled'][0]: (4, atop, ('i', 32)), I.sett['LedgerEnabled'][0]: (4, ledger, ('i', 32))})
        ex.params = frozenset(['s0', 's1', 's2', 'n', 'atop', 'ledger'])
        if self.form == 'reduce':
            self.args = [P('C'), P('B'), P('C')]; self.steps = [C0, s1, C0]
        else:
            ins = ['A', 'B'][:self.nin]
            st = [s0, s1][:self.nin]
            for k, r in enumerate(self.rel):
                if r == 'exact': ins[k] = 'C'; st[k] = s2
                elif r == 'n1': ins[k] = 'C'
                elif r == 'overlap': facts.append(self.overlap(ins[k], n, st[k], s2))
                else: facts.append(self.overlap(ins[k], n, st[k], s2, True))
            if 'n1' in self.rel: facts.append(ccmp('==', n - 1))
            for k, r in enumerate(self.rel):
                # exactly in place with a zero step is a feedback unless there is one element
                if r == 'exact': facts.append(bor(ccmp('!=', s2), ccmp('==', n - 1)))
            self.args = [P(b) for b in ins] + [P('C')]; self.steps = st + [s2]
            if self.nin == 2 and self.rel[0] == 'overlap':
                facts.append(bor(ccmp('!=', A_('addr(A)') - A_('addr(C)')), bor(ccmp('!=', st[0]), ccmp('!=', s2))))
            if self.nin == 2 and self.rel[0] in ('exact', 'n1'):
                # args[0]==args[2] with both steps zero is NumPy's reduce form, specified separately
                facts.append(bor(ccmp('!=', self.steps[0]), ccmp('!=', s2)))
        self.n = n
        mem['args'] = Cells('args', 8*len(self.args), {8*i: (8, a, 'ptr') for i, a in enumerate(self.args)})
        mem['dims'] = Cells('dims', 8, {0: (8, n, ('i', 64))})
        mem['steps'] = Cells('steps', 8*len(self.steps), {8*i: (8, a, ('i', 64)) for i, a in enumerate(self.steps)})
        mod = None
        for m in mods:
            if m.func(self.sym): mod = m; break
        if mod is None: raise Undecided('no body for ' + self.sym)
        st = start(ex, self.sym, [P('args'), P('dims'), P('steps'), P('inner')], mod=mod, mem=mem)
        st.g['ev'] = ()
        for f in facts:
            if f[0] != 'T': st.facts.append(f)
        for b in ('A', 'B', 'C'):
            z = z3.Int('addr(%s)' % b); ex.ax['addr(%s)' % b] = ([z >= 4096, z < 2**47], set())
        rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        self.paths = len(rs)
        for o in ex.obls: self.obls.append((o[0], o[1], '%s/%s %s' % (self.form, ','.join(self.rel), o[2])))
        if not rs: self.ob('returns', None, 'no path returns')
        for _, t, v in rs: self.path(t)
        return self
    def off(self, field):
        return self.I.witem[field][0]
    def overlap(self, b, n, si, so, sep=False):
        """the element start ranges intersect, at least two iterations, and not exactly in place"""
        a, c = A_('addr(%s)' % b), A_('addr(C)')
        ov = ranges(a, si, c, so, n)
        if sep: return bnot(ov)
        ex = band(ccmp('==', a - c), ccmp('==', si - so))
        return band(ccmp('<=', c_(2) - n), band(ov, bor(bnot(ex), ccmp('==', so))))
    # ------------------------------------------------------------------ path verdicts
    def path(self, t):
        evs = list(t.g['ev'])
        ex = self.ex
        tag = ''
        # settings restored, ledger told about the same call
        fin = t.mem['@g_Settings'].c
        a1 = fin.get(self.I.sett['AtopEnabled'][0]); l1 = fin.get(self.I.sett['LedgerEnabled'][0])
        okS = a1 and l1 and isinstance(a1[1], Poly) and isinstance(l1[1], Poly)
        self.ob('settings', (ex.proves(t, ccmp('==', a1[1] - A_('atop'))) and ex.proves(t, ccmp('==', l1[1] - A_('ledger')))) if okS else None, 'settings are as before the call')
        led = [e for e in evs if e[0] == 'ledger']; evs = [e for e in evs if e[0] != 'ledger']
        on = ex.proves(t, ccmp('==', A_('ledger') - 1))
        if on is True: self.ob('ledger', len(led) == 1, 'one record per call with the ledger on (%d)' % len(led))
        elif ex.proves(t, ccmp('==', A_('ledger'))) is True: self.ob('ledger', len(led) == 0, 'no record with the ledger off')
        if led:
            a = led[0][1]
            good = any(isinstance(x, Ptr) and x.b == 'args' for x in a) and any(isinstance(x, Ptr) and x.b == 'dims' for x in a) and any(isinstance(x, Ptr) and x.b == 'steps' for x in a)
            self.ob('ledger', True if good else None, 'the record is given the call\'s arguments')
        got = [e for e in evs if e[0] == 'getwork']; evs = [e for e in evs if e[0] != 'getwork']
        al = {e[1]: e[2] for e in evs if e[0] == 'alloc'}; fr = [e[1] for e in evs if e[0] == 'free']
        evs = [e for e in evs if e[0] not in ('alloc', 'free')]
        for b in al: self.ob('heap', sum(1 for f in fr if f.b == b) == 1, 'partial result buffer freed once')
        for f in fr: self.ob('heap', f.b in al, 'freed pointer was allocated')
        work = [e for e in evs if e[0] == 'work']
        if got: self.ob('split', len(work) == 1, 'a reserved work item is run exactly once (%d)' % len(work))
        if not evs: self.ob('result', False, 'nothing computed on a path'); return
        off = ex.proves(t, ccmp('==', A_('atop'))) is True
        if off: self.ob('disabled', not self.uses_kernel(evs), 'with acceleration off only the original loop runs')
        if 'overlap' in self.rel:
            okk = len(evs) == 1 and evs[0][0] == 'old'
            self.ob('inorder', okk, 'output feeding a later input: one unsplit call of the original loop, got %s' % self.brief(evs))
            if okk: self.checkold(t, evs[0], self.args, self.n, self.steps)
            return
        if len(evs) == 1 and evs[0][0] == 'old': self.checkold(t, evs[0], self.args, self.n, self.steps); return
        if len(evs) == 1 and evs[0][0] == 'k':
            if self.form == 'reduce': self.checkred(t, evs[0], self.args[1], self.n, self.steps[1], Ptr('C', C0), Ptr('C', C0))
            else: self.checkk(t, evs[0], self.args, self.n, self.steps)
            return
        if work and self.form != 'reduce' and len(evs) == 1: self.split(t, evs[0]); return
        if work and self.form == 'reduce' and len(evs) == 2 and evs[0][0] == 'work': self.splitred(t, evs[0], evs[1], al); return
        if self.form == 'reduce' and any(e[0] == 'st' and e[1].b == 'C' for e in evs): self.ob('result', False, 'result written besides the fold: %s' % self.brief(evs)); return
        self.ob('shape', None, 'call sequence not understood: %s' % self.brief(evs))
    def uses_kernel(self, evs):
        for e in evs:
            if e[0] == 'k': return True
            if e[0] == 'work' and self.uses_kernel(e[6]): return True
            if e[0] == 'rep' and any(self.uses_kernel(x) for _, x in e[1]): return True
        return False
    def brief(self, evs): return ' '.join('%s%s' % (e[0], ':' + str(e[1])[:60] if e[0] in ('k', 'old', 'work') else '') for e in evs)[:200]
    def eqp(self, t, p, q):
        if not isinstance(p, Ptr): return None
        if p.b != q.b: return False
        return self.eqi(t, p.o, q.o)
    def eqi(self, t, a, b):
        if not isinstance(a, Poly): return None
        d = self.ex.norm(t, a - b)
        if d.isconst(): return d.cval() == 0
        return self.ex.proves(t, ccmp('==', d))
    def checkold(self, t, e, args, n, steps, where=''):
        _, key, a, d, s, inner, raw = e
        self.ob('route', key[0] == self.u and regs.SEM.get(key[1]) == regs.SEM.get(self.t) and regs.SEM.get(self.t) is not None, where + 'original loop of %s, called %s' % ((self.u, self.t), key))
        for k in range(len(args)):
            self.ob('operand', self.eqp(t, a[k], args[k]), where + 'original loop operand %d is %s, must be %s' % (k, a[k], args[k]))
            # a step is irrelevant for one element
            ok = self.eqi(t, s[k], steps[k])
            self.ob('operand', ok, where + 'original loop step %d is %s, must be %s' % (k, s[k], steps[k]))
        self.ob('range', self.eqi(t, d, n), where + 'original loop length is %s, must be %s' % (d, n))
        self.ob('operand', isinstance(inner, Ptr) and inner.b == 'inner', where + 'original loop data')
    def checkk(self, t, e, args, n, steps, where=''):
        _, name, a = e
        want = self.I.elem.get((self.u, self.t))
        self.ob('route', want is not None and name in want, where + 'accelerated routine %s for %s on type %s' % (name, self.u, self.t))
        if len(a) != 2*len(args) + 1: self.ob('operand', None, where + 'routine signature'); return
        for k in range(len(args)):
            self.ob('operand', self.eqp(t, a[k], args[k]), where + 'operand %d is %s, must be %s' % (k, a[k], args[k]))
        self.ob('range', self.eqi(t, a[len(args)], n), where + 'length is %s, must be %s' % (a[len(args)], n))
        for k in range(len(args)):
            self.ob('operand', self.eqi(t, a[len(args)+1+k], steps[k]), where + 'step %d is %s, must be %s' % (k, a[len(args)+1+k], steps[k]))
    def checkred(self, t, e, src, n, step, out, startp, where=''):
        _, name, a = e
        want = self.I.red.get((self.u, self.t))
        self.ob('route', want is not None and name in want, where + 'reduction routine %s for %s on type %s' % (name, self.u, self.t))
        if len(a) != 5: self.ob('operand', None, where + 'routine signature'); return
        self.ob('operand', self.eqp(t, a[0], src), where + 'input is %s, must be %s' % (a[0], src))
        self.ob('operand', self.eqp(t, a[1], out), where + 'result is %s, must be %s' % (a[1], out))
        if startp is not None: self.ob('operand', self.eqp(t, a[2], startp), where + 'start value is %s, must be %s' % (a[2], startp))
        self.ob('range', self.eqi(t, a[3], n), where + 'length is %s, must be %s' % (a[3], n))
        self.ob('operand', self.eqi(t, a[4], step), where + 'step is %s, must be %s' % (a[4], step))
    # ------------------------------------------------------------------ split work
    def template(self, t, w):
        """the one iteration shape of a callback: [(state, block, length, applied events)]"""
        _, cb, n, bs, mt, gen, evs = w
        self.ob('range', self.eqi(t, n, self.n), 'work item length %s' % n)
        self.ob('range', self.eqi(t, bs, c_(BS)) if isinstance(bs, Poly) else None, 'block size %s matches the one the callers assume' % bs)
        if gen is not None and isinstance(gen, (tuple, Poly)):
            self.ob('range', (gen[0] == 'T') if isinstance(gen, tuple) else gen.cval() == 1 if gen.isconst() else None, 'block claiming in element ranges')
        out = []
        self.groups(t, evs, None, out)
        return out
    def groups(self, t, evs, cur, out):
        """claim .. apply .. complete sequences; every group is appended as (state, block, length, applied)"""
        ended = False
        for e in evs:
            if e[0] == 'rep':
                if (cur is not None) != e[2]: self.ob('shape', None, 'claim before a loop'); return
                for s, es in e[1]: self.groups(s, es, None, out)
                cur = None; ended = True
            elif e[0] == 'claim':
                if cur is not None: self.ob('split', False, 'a block is claimed before the previous one was completed')
                cur = [e, []]
            elif e[0] == 'noclaim': ended = True
            elif e[0] == 'done':
                if cur is None: self.ob('split', False, 'a block is completed that was not claimed, or twice'); continue
                self.ob('split', True, 'completed after processing')
                out.append((t, cur[0][1], cur[0][2], cur[1])); cur = None
            else:
                if cur is None: self.ob('split', False, 'elements processed outside a claimed block: %s' % self.brief([e])); continue
                cur[1].append(e)
        if cur is not None: self.ob('split', False, 'a claimed block is never completed')
    def split(self, t, w):
        tm = self.template(t, w)
        if tm is None: return
        for s, wb, ln, rest in tm:
            args = [Ptr(a.b, a.o + wb*BS*st) for a, st in zip(self.args, self.steps)]
            if len(rest) == 1 and rest[0][0] == 'k': self.checkk(s, rest[0], args, ln, self.steps, 'block: ')
            elif len(rest) == 1 and rest[0][0] == 'old': self.checkold(s, rest[0], args, ln, self.steps, 'block: ')
            elif not rest: self.ob('split', False, 'a claimed block is not processed')
            else: self.ob('shape', None, 'block: ' + self.brief(rest))
    def splitred(self, t, w, fin, al):
        u, ty = self.u, regs.SEM.get(self.t); isz = ISZ[self.t]
        self.ob('splittable', u in IDEMPOTENT or u in ('add', 'multiply'), '%s may be split' % u)
        tm = self.template(t, w)
        if tm is None: return
        for s, wb, ln, rest in tm:
            src = Ptr('B', wb*BS*self.steps[1])
            st = [e for e in rest if e[0] == 'st']; ap = [e for e in rest if e[0] != 'st']
            if len(ap) != 1: self.ob('split', False if not ap else None, 'block: ' + self.brief(rest)); continue
            a = ap[0]
            if a[0] == 'k':
                buf = a[2][1] if len(a[2]) == 5 else None
                if not isinstance(buf, Ptr) or not (buf.b or '').startswith('heap'): self.ob('split', False, 'partial result goes to %s' % (buf,)); continue
                slot = Ptr(buf.b, wb*isz)
                self.checkred(s, a, src, ln, self.steps[1], slot, None, 'block: ')
                self.startval(s, a[2][2])
                if st: self.ob('shape', None, 'stores besides the routine')
            elif a[0] == 'old':
                buf = a[2][0]
                if not isinstance(buf, Ptr) or not (buf.b or '').startswith('heap'): self.ob('split', False, 'partial result goes to %s' % (buf,)); continue
                slot = Ptr(buf.b, wb*isz)
                self.checkold(s, a, [slot, src, slot], ln, [C0, self.steps[1], C0], 'block: ')
                ok = len(st) >= 1 and rest.index(st[-1]) < rest.index(a)
                self.ob('start', ok, 'the partial result is seeded before the block is folded')
                if ok:
                    e = st[-1]
                    self.ob('start', self.eqp(s, e[1], slot) and e[2] == isz, 'seed goes to the slot of the block, %d bytes (at %s, %d bytes)' % (isz, e[1], e[2]))
                    self.seed(s, e[3], isz)
            self.buffer(s, slot.b, isz, None, wb)
        # the final combination
        o = Ptr('C', C0)
        if fin[0] == 'k':
            a = fin[2]
            if len(a) == 5:
                self.checkred(t, fin, Ptr(a[0].b, C0), a[3], c_(isz), o, o, 'combine: ')
                self.chunks(t, a[3]); self.buffer(t, a[0].b, isz, a[3])
        elif fin[0] == 'old':
            b = fin[2][1]
            if isinstance(b, Ptr):
                self.checkold(t, fin, [o, Ptr(b.b, C0), o], fin[3], [C0, c_(isz), C0], 'combine: ')
                self.chunks(t, fin[3]); self.buffer(t, b.b, isz, fin[3])
        else: self.ob('split', None, 'combine: ' + self.brief([fin]))
    def chunks(self, t, ch):
        if not isinstance(ch, Poly): self.ob('combine', None, 'number of partial results'); return
        self.ob('combine', self.ex.proves(t, ccmp('<=', self.n - ch*BS)), 'every block has a partial result in the combination')
        self.ob('combine', self.ex.proves(t, ccmp('<=', (ch - 1)*BS - self.n + 1)), 'no partial result of a block that does not exist is combined')
    def buffer(self, t, b, isz, ch=None, wb=None):
        z = t.g.get('buf:' + str(b))
        if not isinstance(z, Poly): self.ob('combine', None if b and str(b).startswith('heap') else False, 'partial results are in the reserved buffer (%s)' % b); return
        if ch is not None: self.ob('bounds', self.ex.proves(t, ccmp('<=', ch*isz - z)), 'partial results fit in the buffer')
        else:
            self.ob('bounds', self.ex.proves(t, ccmp('<=', (wb + 1)*isz - z)), 'slot of the block inside the buffer')
    def ident(self):
        ty = regs.SEM.get(self.t); isz = ISZ[self.t]
        if self.u == 'add': return b'\0'*isz
        if self.u == 'multiply':
            import struct
            if self.t == 11: return struct.pack('<f', 1.0)
            if self.t == 12: return struct.pack('<d', 1.0)
            return (1).to_bytes(isz, 'little')
        return None
    def startval(self, t, p):
        if not isinstance(p, Ptr): self.ob('start', None, 'start value pointer'); return
        if p.b == 'C':
            self.ob('start', self.u in IDEMPOTENT and self.eqp(t, p, Ptr('C', C0)), 'partial results start from the caller\'s start value only for idempotent operations')
            return
        isz = ISZ[self.t]
        try: v = self.ex.load(t, ('i', 8*isz), p, None)
        except Undecided:
            try:
                by = []
                for i in range(isz): by.append(self.ex.load(t, ('i', 8), Ptr(p.b, p.o + i), None))
                v = c_(sum((b.cval() & 255) << (8*i) for i, b in enumerate(by)))
            except Undecided as e:
                try:
                    v = self.ex.load(t, ('f', 8*isz), p, None)
                except Undecided as e: self.ob('start', None, 'start value: %s' % e); return
        self.seed(t, v, isz)
    def seed(self, t, v, isz):
        if isinstance(v, z3.BitVecRef):
            x = z3.simplify(v)
            if str(x).startswith('mem(C,'):
                self.ob('start', self.u in IDEMPOTENT and str(x) == 'mem(C,0,%d)' % isz, 'partial results start from the caller\'s start value only for idempotent operations (%s)' % x)
                return
            if z3.is_bv_value(x): v = c_(x.as_long())
        if not isinstance(v, Poly) or not v.isconst(): self.ob('start', None, 'start value %s' % (v,)); return
        b = (v.cval() & ((1 << 8*isz) - 1)).to_bytes(isz, 'little')
        w = self.ident()
        if w is None: self.ob('start', False, 'constant start value for %s' % self.u); return
        self.ob('start', b == w, 'partial results start from the identity of %s on the type: %s, must be %s' % (self.u, b.hex(), w.hex()))

def configs(u):
    """(form, relation of each input to the output)"""
    if not regs.is_binary(u):
        return [('elem', ('sep',)), ('elem', ('exact',)), ('elem', ('overlap',)), ('elem', ('n1',))]
    out = [('elem', (a, b)) for a in ('sep', 'exact') for b in ('sep', 'exact')]
    out += [('elem', ('overlap', 'sep')), ('elem', ('sep', 'overlap')), ('elem', ('overlap', 'exact')), ('elem', ('exact', 'overlap'))]
    out += [('elem', ('n1', 'sep')), ('elem', ('sep', 'n1')), ('elem', ('n1', 'n1'))]
    out += [('reduce', ())]
    return out
