"""Sort and SortIndex under contract: type and mode dispatch, copy in, workspaces, and the eight job parallel merge tree.

The sequential algorithms are callees known by name and template type; the obligations here are what they are applied to:
segments that tile the range, merges of exactly two completed neighbours whose boundary is the midpoint the merge assumes,
workspaces large enough and never shared between steps that can run at the same time, one completion per claimed job.
"""
import re, time, traceback, z3
from .poly import Poly
from . import ir, regs, hookrun
from .ex import Ex, Ptr, Cells, Undef, Undecided, C0, TRUE, FALSE, ccmp, bnot, band, bor
from .world import start
from .hookrun import HSpec, ev, A_, c_
from .tspec import worker_mem, CSpec

CODE = {0: 'b', 1: 'a', 2: 'h', 3: 's', 4: 't', 5: 'i', 6: 'j', 7: 'l', 8: 'm', 11: 'half', 12: 'f', 13: 'd', 14: 'e'}
SIZE = {0: 1, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 11: 2, 12: 4, 13: 8, 14: 16}
STRING, UNICODE, VOID = 19, 20, 21
STEP = re.compile(r'^_ZL?\d+(a?quicksort_|a?heapsort_|a?mergesort_|amergesortworkspace_|mergesortstring_|ParMerge\w*?|ParInPlaceMerge|single_amergesort)I(.*?)E+[ivl]P')
COPY = re.compile(r'^_ZL?8CopyDataP')
# routines that keep equal keys in order (assumed, see the bounded suites)
STABLE = {'mergesort_', 'amergesort_', 'amergesortworkspace_', 'mergesortstring_', 'ParMergeString', 'ParMergeNormal', 'ParMergeMerge', 'ParMergeMergeString', 'ParInPlaceMerge', 'single_amergesort'}
MERGES = {'ParMergeMerge', 'ParMergeMergeString', 'ParInPlaceMerge'}
WSARG = {'amergesortworkspace_', 'ParMergeString', 'ParMergeNormal', 'ParMergeMerge', 'ParMergeMergeString', 'ParInPlaceMerge'}
TEXT = {
 'Sort': 'requires n>=0, result contiguous; ensures the n source elements are copied to the result and sorted there by the routine of exactly this type (stable for the stable mode), in one piece or as a tree of jobs whose segments tile 0..n and whose merges each join exactly two finished neighbours; workspaces inside the allocation and disjoint; freed; each job completed once',
 'SortIndex': 'requires the index buffer to hold n positions of the key array; ensures the index is sorted by the routine of exactly this key type and index width (stable for the stable mode), in one piece, as a tree of jobs, or one independent sort per partition pCutOffs[t-1]..pCutOffs[t] with keys shifted to the partition',
 'buddy': 'IsBuddyBitSet(i, mask): one atomic OR of bit i; result == bit i^1 was set before',
}
def tcodes(s):
    """template arguments of a mangled name: type codes"""
    out = []; i = 0
    while i < len(s):
        if s[i] == 'P': out.append(s[i:i+3] if s[i+1] == 'K' else s[i:i+2]); i += len(out[-1])
        elif s[i].isdigit():
            m = re.match(r'\d+', s[i:]); k = int(m.group()); n = s[i+len(m.group()):][:k]; out.append('half' if 'half' in n else n); i += len(m.group()) + k
        elif s[i] == 'S' and '_' in s[i:]: i = s.index('_', i) + 1
        else: out.append(s[i]); i += 1
    return out
class Shared(Cells):
    """the job description once it is visible to the workers"""
    def store(self, ex, st, off, ty, v, x):
        ex.oblige('shared', False, 'the job description is modified without an atomic operation while jobs run')
        Cells.store(self, ex, st, off, ty, v, x)
class CutArr:
    """the partition ends, an arbitrary ascending array"""
    def load(self, ex, st, off, ty, x):
        off = ex.norm(st, off)
        return A_('cut[%r]' % (off,))
    def store(self, ex, st, off, ty, v, x): ex.oblige('frame', False, 'partition ends are modified')
class SSpec(CSpec):
    index = True
    J = 0
    guess = True
    def claimed(self, ex, y):
        return c_(self.J), c_(self.J + 1)
    def obj(self, ex, st, p):
        if p.b == 'cut': return CutArr()
        if p.b in ('src', 'dst', 'key', 'ix'): raise Undecided('elements are accessed outside the known routines')
        return HSpec.obj(self, ex, st, p)
    def ptr_eq(self, ex, st, a, b):
        D = ('src', 'dst')
        if a.b in D and b.b in D and a.b != b.b: return FALSE
        return HSpec.ptr_eq(self, ex, st, a, b)

class SortFn:
    groups = hookrun.Loop.groups; brief = hookrun.Loop.brief
    def __init__(self, mods, lay, entry, atype, mode, cfg):
        self.mods = mods; self.lay = lay; self.entry = entry; self.atype = atype; self.mode = mode; self.cfg = cfg; self.obls = []; self.stypes = set(); self.single = None
    def ob(self, k, ok, t): self.obls.append((k, ok, '%s: %s' % (self.cfg, t)))
    def eq(self, t, a, b):
        if isinstance(b, Ptr):
            if not isinstance(a, Ptr): return None
            return self.eq(t, a.o, b.o) if a.b == b.b else False
        if not isinstance(a, Poly): return None
        d = self.ex.norm(t, a - b)
        if d.isconst(): return d.cval() == 0
        if 'itemsize' in d.atoms() and self.ex.proves(t, ccmp('<=', A_('itemsize') - 1)) is True:
            d = self.ex.norm(t, d.subst({'itemsize': c_(1)}))
            if d.isconst(): return d.cval() == 0
        return self.ex.proves(t, ccmp('==', d))
    def le(self, t, a, b):
        return self.ex.proves(t, ccmp('<=', self.ex.norm(t, a - b)))
    def run(self, deadline=100):
        lay = self.lay; mods = self.mods
        sp = SSpec(); self.sp = sp; ex = Ex(mods, sp, self.entry); self.ex = ex; ex.deadline = time.time() + deadline
        H = ex.hooks
        hk = lambda pat: regs.finder(mods, pat)
        names = set()
        for m in mods: names |= set(m.ftext)
        def step(name):
            k, codes = STEP.match(name).group(1), tcodes(STEP.match(name).group(2))
            def f(ex, s, a, i):
                r = None
                if i.ty != 'void': r = A_(ex.fresh('fnret'))
                ev(s, ('fn', k, tuple(codes), tuple(a), r)); return r
            return f
        for n in names:
            if STEP.match(n): H[n] = step(n)
            elif COPY.match(n): H[n] = lambda ex, s, a, i: ev(s, ('copy', tuple(a)))
        def memcp(ex, s, a, i): ev(s, ('memcpy', tuple(a[:3])))
        for n in names:
            if re.match(r'^_ZL?7MEMCPYRP', n): H[n] = memcp
        def alloc(ex, s, a, i):
            b = ex.fresh('heap'); s.g['buf:' + b] = a[0]; ev(s, ('alloc', b)); return Ptr(b, C0)
        H['_Z7FmAllocm'] = alloc
        H['_Z6FmFreePv'] = lambda ex, s, a, i: ev(s, ('free', a[0]))
        H['printf'] = lambda ex, s, a, i: C0
        it = lay.item
        def getwork(ex, s, a, i):
            x = s.copy(); out = [(x, Ptr(None, C0))]
            big = ccmp('<=', c_(65536) - a[1])
            if ex.feasible(s, big):
                y = s.copy(); ex.assume(y, big); y.mem['item'] = Cells('item', lay.isz, {}); ev(y, ('getwork', a[1])); out.append((y, Ptr('item', C0)))
            return out
        gw = hk(r'CMathWorker11GetWorkItemE')
        if gw: H[gw] = getwork
        wm = hk(r'CMathWorker8WorkMainE')
        if wm: H[wm] = self.workmain
        nx = hk(r'stMATH_WORKER_ITEM16GetNextWorkIndexE')
        def claim(ex, s, a, i):
            if not isinstance(a[0], Ptr) or a[0].b != 'item': raise Undecided('claims on %s' % (a[0],))
            x = s.copy(); ev(x, ('noclaim',))
            y = s.copy(); wb, ln = sp.claimed(ex, y)
            ex.store(y, ('i', 64), ln, a[1], None); ev(y, ('claim', wb, ln))
            return [(x, C0), (y, ln)]
        if nx: H[nx] = claim
        dn = hk(r'stMATH_WORKER_ITEM17CompleteWorkBlockE')
        if dn: H[dn] = lambda ex, s, a, i: ev(s, ('done',)) if isinstance(a[0], Ptr) and a[0].b == 'item' else None
        H['atomicrmw'] = self.atomic
        dw = hk(r'CMathWorker19DoMultiThreadedWorkE')
        if dw: H[dw] = self.parts
        def ind(ex, s, f, a, ins): raise Undecided('call through %s' % (f,))
        H['indirect'] = ind
        n = A_('n'); self.n = n
        P = lambda b: Ptr(b, C0)
        facts = [ccmp('<=', -n), ccmp('<=', n - (2**31 - 1 if self.entry == 'SortIndex32' else 2**48))]
        if self.atype in SIZE: self.isz = c_(SIZE[self.atype])
        else:
            self.isz = A_('itemsize'); facts += [ccmp('<=', c_(1) - self.isz), ccmp('<=', self.isz - 2**30)]
        if self.entry == 'Sort':
            same = self.cfg == 'same'
            self.src = P('dst') if same else P('src')
            self.st_in = self.isz if same else A_('stride')
            args = [c_(self.mode), c_(self.atype), self.src, n, self.st_in, self.isz, P('dst'), self.isz]
            self.base = P('dst'); self.esz = self.isz
        else:
            self.src = P('key'); self.base = P('ix'); self.esz = c_(4 if self.entry.endswith('32') else 8)
            cut = self.cfg == 'cut'
            if cut: facts += [ccmp('<=', c_(1) - A_('ncut')), ccmp('<=', A_('ncut') - (2**31 - 1))]
            args = [P('cut') if cut else Ptr(None, C0), A_('ncut') if cut else C0, P('key'), n, P('ix'), c_(self.mode), c_(self.atype), self.isz]
        ex.params = frozenset(['n', 'stride', 'ncut', 'itemsize'])
        mod = next((m for m in mods if m.func(self.entry)), None)
        if mod is None: raise Undecided('no function ' + self.entry)
        st = start(ex, self.entry, args, mod=mod, mem=worker_mem(lay, A_('M')))
        st.facts += [f for f in facts if f[0] != 'T']; st.g.update(ev=(), bs=c_(1))
        rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        self.obls += [(o[0], o[1], str(o[2])) for o in ex.obls]
        if not rs: self.ob('returns', None, 'no path returns')
        for _, t, v in rs: self.path(t, v)
        return self
    # ---- callees with a protocol
    def atomic(self, ex, s, ins):
        p = ex.val(s, 'ptr', ins.a[0]); v = ex.val(s, ins.ty, ins.a[1])
        v = ex.norm(s, v) if isinstance(v, Poly) else v
        if ins.x == 'add' and isinstance(p, Ptr) and p.b == 'item' and v == c_(1):
            ev(s, ('done',)); s.env[ins.d] = A_(ex.fresh('old')); return
        if ins.x != 'or' or not isinstance(v, Poly) or not v.isconst() or not isinstance(p, Ptr): raise Undecided('atomic %s %s %s' % (ins.x, v, p))
        b = v.cval()
        if b <= 0 or b & (b - 1): raise Undecided('atomic or of %d' % b)
        k = b.bit_length() - 1
        o = ex.norm(s, p.o)
        if not o.isconst(): raise Undecided('atomic or at %s' % o)
        # own bit is not set (each index once); buddy set or not; the others set or not
        reps = [(buddy, others) for buddy in (0, 1) for others in (0, 1)]
        n = s.g.get('orn', 0); s.g['orn'] = n + 1
        w = A_(ex.fresh('bits'))
        # decided by forks on two hidden atoms
        sel = s.g.get('orsel')
        if sel is None or n >= len(sel): raise Undecided('more atomic operations than levels')
        buddy, others = sel[n]
        old = (1 << (k ^ 1) if buddy else 0) | ((0xffff & ~(1 << k) & ~(1 << (k ^ 1))) if others else 0)
        ev(s, ('or', p.b, o.cval(), k, buddy)); s.env[ins.d] = c_(old)
    def workmain(self, ex, s, a, i):
        item, n = a[1], a[2]; gen = a[5] if len(a) > 5 else None
        bs = a[4] if len(a) > 4 else None
        if not isinstance(item, Ptr) or item.b != 'item' or not isinstance(n, Poly) or not n.isconst(): raise Undecided('work item')
        K = n.cval()
        if K not in (2, 4, 8, 16): raise Undecided('%d jobs' % K)
        g = gen[0] == 'T' if isinstance(gen, tuple) else (gen.cval() == 1 if isinstance(gen, Poly) and gen.isconst() else None)
        self.ob('split', None if g is None else not g, 'jobs are claimed one by one')
        self.ob('split', self.eq(s, bs, c_(1)) if isinstance(bs, Poly) else None, 'block size of one job')
        cb = ex.load(s, 'ptr', Ptr('item', C0), None); arg = ex.load(s, 'ptr', Ptr('item', c_(self.lay.item['WorkCallbackArg'][0])), None)
        if not isinstance(cb, Ptr) or not cb.b or not cb.b.startswith('@'): raise Undecided('work callback')
        if not isinstance(arg, Ptr) or arg.b not in s.mem: raise Undecided('callback argument')
        mod = next((m for m in self.mods if m.func(cb.b[1:])), None)
        before = s.g['ev']; runs = []
        lv = K.bit_length() - 1
        zero = {}
        for J in range(K):
            self.sp.J = J
            # number of levels that find their buddy finished x whether other bits are set
            for done in range(lv + 1):
                for others in (0, 1):
                    t = s.copy(); t.g['ev'] = (); t.g['wn'] = n; t.g['bs'] = c_(1)
                    t.g['orn'] = 0; t.g['orsel'] = [(1 if q < done else 0, others) for q in range(lv)]
                    m = t.mem[arg.b]; t.mem[arg.b] = Shared(m.name, m.size, dict(m.c))
                    rs = ex.call(t, cb.b[1:], [Ptr('item', C0), A_('core'), A_('wi')], mod)
                    out = []
                    for u, v in rs: self.groups(u, u.g['ev'], None, out)
                    runs.append((J, done, others, out))
        s.g['ev'] = before + (('tree', K, runs, arg, {o: c[1] for o, c in s.mem[arg.b].c.items()}),)
        return None
    def parts(self, ex, s, a, i):
        """DoMultiThreadedWork(this, count, f, arg): f(arg, core, t) for every t < count"""
        cnt, f, arg = a[1], a[2], a[3]
        if not isinstance(f, Ptr) or not f.b.startswith('@'): raise Undecided('partition callback')
        mod = next((m for m in self.mods if m.func(f.b[1:])), None)
        before = s.g['ev']; out = []
        for first in (True, False):
            t = s.copy(); t.g['ev'] = ()
            j = C0 if first else A_('t')
            if not first: t.facts += [ccmp('<=', c_(1) - j), ccmp('<=', j + 1 - A_('ncut'))]
            for u, v in ex.call(t, f.b[1:], [arg, A_('core'), j], mod): out.append((j, u, u.g['ev']))
        s.g['ev'] = before + (('parts', cnt, out),)
        return None
    # ---- verdict
    def kind(self, t, e, where=''):
        """the routine is the one of this type (and stable where asked for)"""
        _, k, codes, a, r = e
        want = CODE.get(self.atype)
        arg = k.startswith('a') or k in ('ParMergeString', 'ParMergeNormal', 'ParMergeMerge', 'ParMergeMergeString', 'single_amergesort')
        if self.entry == 'Sort':
            self.ob('route', not arg, where + 'an in place routine sorts (%s)' % k)
            if self.atype in (STRING, UNICODE): ok = k == 'mergesortstring_' and codes[0] == {STRING: 'h', UNICODE: 'j'}[self.atype]
            else: ok = k != 'mergesortstring_' and codes[0] == want
        else:
            self.ob('route', arg, where + 'an index routine sorts (%s)' % k)
            ixc = 'i' if self.entry.endswith('32') else 'l'
            if self.atype in (STRING, UNICODE, VOID):
                if k == 'single_amergesort': ok = True       # told by its sort type argument
                else: ok = k in ('ParMergeString', 'ParMergeMergeString') and codes[0] == {STRING: 'PKh', UNICODE: 'PKj', VOID: 'PKc'}[self.atype]
            else: ok = k not in ('ParMergeString', 'ParMergeMergeString') and codes[0] in ((want,) if want != 'b' else ('b', 'h'))
            ok = ok and codes[-1] == ixc
        self.ob('route', ok, where + '%s<%s> for type %d' % (k, ','.join(codes), self.atype))
        if self.mode == 2: self.ob('stable', k in STABLE, where + '%s for a stable sort' % k)
    def seg(self, t, e, where=''):
        """(pointer, length, workspace) of a step"""
        _, k, codes, a, r = e
        self.kind(t, e, where)
        if self.entry != 'Sort':
            self.ob('operand', self.eq(t, a[0], self.src), where + 'keys are the caller\'s')
            a = a[1:]
        if not isinstance(a[0], Ptr) or a[0].b != self.base.b: self.ob('operand', False if isinstance(a[0], Ptr) else None, where + 'sorts the result buffer, not %s' % (a[0],)); return None
        ws = a[-1] if k in WSARG else None
        if k in ('mergesortstring_', 'ParMergeString', 'ParMergeMergeString'): self.ob('operand', self.eq(t, a[2], self.isz), where + 'string length is the item size')
        return a[0], a[1], ws
    def path(self, t, v):
        evs = list(t.g['ev'])
        al = [e[1] for e in evs if e[0] == 'alloc']; fr = [e[1] for e in evs if e[0] == 'free']
        for b in al: self.ob('heap', sum(1 for f in fr if isinstance(f, Ptr) and f.b == b) == 1, 'workspace freed once')
        got = [e for e in evs if e[0] == 'getwork']
        evs = [e for e in evs if e[0] not in ('alloc', 'free', 'getwork')]
        cps = [e for e in evs if e[0] in ('copy', 'memcpy')]
        work = [e for e in evs if e[0] not in ('copy', 'memcpy')]
        neg = self.ex.proves(t, ccmp('<=', v + 1)) if isinstance(v, Poly) else None
        if neg is True:
            self.ob('result', not evs and not got, 'a sort that is declined leaves everything alone'); self.ob('route', self.atype not in SIZE and self.atype not in (STRING, UNICODE), 'type %d can be sorted' % self.atype); return
        if self.entry == 'Sort':
            if self.cfg == 'same': self.ob('copy', not cps, 'no copy in place')
            else:
                self.ob('copy', len(cps) == 1 and evs[0] is cps[0], 'the source is copied once, first (%d)' % len(cps))
                for e in cps:
                    if e[0] == 'memcpy':
                        self.ob('copy', self.eq(t, e[1][0], self.base), 'copied to the result'); self.ob('copy', self.eq(t, e[1][1], self.src), 'from the source'); self.ob('copy', self.eq(t, e[1][2], self.n*self.isz), 'all bytes'); self.ob('copy', self.eq(t, self.st_in, self.isz), 'contiguous source'); continue
                    a = e[1]
                    if len(a) != 6: self.ob('copy', None, 'signature of CopyData'); continue
                    for k, w in enumerate((self.src, self.n, self.st_in, self.isz, self.base, self.isz)): self.ob('copy', self.eq(t, a[k], w), 'CopyData argument %d is %s, must be %s' % (k, a[k], w))
        else: self.ob('copy', not cps, 'nothing is copied')
        if len(work) != 1:
            self.ob('result', False if not work else None, 'sorted once: %s' % self.brief(work)); return
        w = work[0]
        if w[0] == 'fn':
            self.ob('split', not got, 'a reserved work item is run')
            x = self.seg(t, w)
            if self.entry == 'Sort' or isinstance(w[4], Poly): self.ob('result', True if w[4] is None else self.eq(t, v, w[4]) if self.entry == 'Sort' else (self.eq(t, v, w[4]) or self.eq(t, v, C0)), 'the result is returned')
            if not x: return
            p, ln, ws = x
            self.ob('range', self.eq(t, p, self.base), 'starts at the first element'); self.ob('range', self.eq(t, ln, self.n), 'all elements: %s' % (ln,))
            self.ob('route', w[1] not in MERGES, 'a merge is not a sort (%s)' % w[1])
            if ws is not None: self.space(t, ws, self.n, '')
        elif w[0] == 'tree':
            self.ob('split', len(got) == 1, 'a reserved item is run once')
            for e in got: self.ob('split', self.eq(t, e[1], self.n) or None, 'reserved for the number of elements')
            self.tree(t, w)
        elif w[0] == 'parts': self.partitions(t, w)
        else: self.ob('result', None, 'not understood')
    def space(self, t, ws, ln, where):
        if not isinstance(ws, Ptr): self.ob('workspace', None, where + 'workspace %s' % (ws,)); return
        z = t.g.get('buf:' + str(ws.b))
        if z is None: self.ob('workspace', False, where + 'workspace is the allocation'); return
        need = self.half(ln)*self.esz
        self.ob('workspace', self.le(t, C0, ws.o), where + 'workspace starts inside the allocation')
        self.ob('workspace', self.lehalf(t, ws.o - z, ln, self.esz), where + 'left half fits in the workspace')
    def half(self, ln): return A_('?')
    def lehalf(self, t, base, ln, esz):
        """base + (ln//2)*esz <= 0, with ln//2 a fresh h: 2h <= ln"""
        ln = self.ex.norm(t, ln)
        if self.ex.nonneg(t, ln) and self.le(t, base + self.ex.div(t, ln, 2)*esz, C0) is True: return True
        h = A_(self.ex.fresh('h')); u = t.copy(); u.facts += [ccmp('<=', h*2 - ln), ccmp('<=', ln - h*2 - 1), ccmp('<=', -h)]
        return self.le(u, base + h*esz, C0)
    def tree(self, t, w):
        _, K, runs, arg, cells = w
        lv = K.bit_length() - 1
        segs = {}
        for J, done, others, out in runs:
            wh = 'job %d, %d buddies finished: ' % (J, done)
            # at most one shape per run: all iterations of the callback handle the job
            if not out: self.ob('split', False, wh + 'the claimed job is not processed'); continue
            for s, wb, ln, ap in out:
                self.ob('split', self.eq(s, wb, c_(J)), wh + 'claim')
                q = [e for e in ap if e[0] != 'or']; ors = [e for e in ap if e[0] == 'or']
                shape = [e[0] for e in ap]
                want = ['fn'] + ['or', 'fn']*done + (['or'] if done < lv else [])
                if any(e[0] in ('copy', 'memcpy') for e in ap): self.ob('copy', False, wh + 'copies inside the jobs'); continue
                self.ob('split', shape == want, wh + 'steps %s, must be %s' % (' '.join(shape), ' '.join(want)))
                if shape != want: continue
                for L, e in enumerate(ors):
                    self.ob('split', e[3] == J >> L, wh + 'level %d announces bit %d' % (L, e[3]))
                    c = cells.get(e[2])
                    self.ob('split', e[1] == arg.b and isinstance(c, Poly) and self.eq(t, c, C0) is True, wh + 'level %d word starts at zero' % L)
                    segs.setdefault(('word', L), set()).add((e[1], e[2]))
                for L, e in enumerate(q):
                    x = self.seg(s, e, wh)
                    self.ob('route', (e[1] in MERGES) == (L > 0), wh + '%s at level %d' % (e[1], L))
                    if x: segs.setdefault((L, J >> L), []).append((s, x))
                if self.entry != 'Sort' and self.mode == 2: pass
        words = [segs.get(('word', L), set()) for L in range(lv)]
        self.ob('split', all(len(x) == 1 for x in words) and len(set().union(*words)) == lv if lv else True, 'one word per level')
        rep = {}
        for L in range(lv + 1):
            for j in range(K >> L):
                xs = segs.get((L, j))
                if not xs: self.ob('split', False, 'step %d of level %d is never done' % (j, L)); return
                rep[L, j] = xs[0][1]
                for s, x in xs[1:]:
                    self.ob('split', self.eq(t, x[0], rep[L, j][0]), 'the same segment whoever does it'); self.ob('split', self.eq(t, x[1], rep[L, j][1]), 'the same length whoever does it')
        z = self.esz
        # leaves tile the range
        self.ob('range', self.eq(t, rep[0, 0][0], self.base), 'first segment starts at element 0')
        for j in range(K):
            p, ln, ws = rep[0, j]
            nxt = rep[0, j+1][0].o if j + 1 < K else self.base.o + self.n*z
            self.ob('range', self.eq(t, p.o + ln*z, nxt), 'segment %d ends where the next one starts' % j)
            self.ob('range', self.le(t, C0, ln), 'segment %d has a length' % j)
        for L in range(1, lv + 1):
            for j in range(K >> L):
                p, ln, ws = rep[L, j]; l, r = rep[L-1, 2*j], rep[L-1, 2*j+1]
                self.ob('merge', self.eq(t, p.o, l[0].o), 'merge %d of level %d starts with its left part' % (j, L))
                self.ob('merge', self.eq(t, ln, l[1] + r[1]), 'merge %d of level %d covers both parts' % (j, L))
                m = ln - l[1]*2
                self.ob('merge', self.ex.proves(t, band(ccmp('<=', -m), ccmp('<=', m - 1))), 'merge %d of level %d: the parts meet at the midpoint' % (j, L))
        # workspaces
        act = [(k, x) for k, x in rep.items() if x[2] is not None]
        for (L, j), x in act: self.space(t, x[2], x[1], 'level %d step %d: ' % (L, j))
        for i, ((L, j), x) in enumerate(act):
            for (L2, j2), y in act[i+1:]:
                # steps above each other never run at the same time
                if (L2 >= L and j2 == j >> (L2 - L)) or (L > L2 and j == j2 >> (L - L2)): continue
                if not isinstance(x[2], Ptr) or not isinstance(y[2], Ptr) or x[2].b != y[2].b: continue
                a, b = (x, y) if self.le(t, x[2].o, y[2].o) else (y, x)
                self.ob('workspace', self.lehalf(t, a[2].o - b[2].o, a[1], z), 'workspaces of (%d,%d) and (%d,%d) are disjoint' % (L, j, L2, j2))
    def partitions(self, t, w):
        _, cnt, out = w
        self.ob('range', self.eq(t, cnt, A_('ncut')), 'one sort per partition')
        for j, s, evs in out:
            wh = 'partition %s: ' % j
            evs = [e for e in evs if e[0] not in ('alloc', 'free')]
            if len(evs) != 1 or evs[0][0] != 'fn': self.ob('split', False if not evs else None, wh + 'sorted once: %s' % self.brief(evs)); continue
            e = evs[0]; self.kind(s, e, wh); a = e[3]
            end = A_('cut[%r]' % (self.ex.norm(s, j*8),)); first = C0 if j == C0 else A_('cut[%r]' % (self.ex.norm(s, j*8 - 8),))
            if e[1] == 'single_amergesort':
                self.stypes.add(self.ex.norm(s, a[4]).cval() if isinstance(a[4], Poly) and self.ex.norm(s, a[4]).isconst() else None)
                self.single = (e[1], e[2])
            self.ob('range', self.eq(s, a[0], Ptr('key', first*self.isz)), wh + 'keys start at %s' % (a[0],))
            self.ob('range', self.eq(s, a[1], Ptr('ix', first*self.esz)), wh + 'index starts at %s' % (a[1],))
            self.ob('range', self.eq(s, a[2], end - first), wh + 'length %s' % (a[2],))
            if self.atype in (STRING, UNICODE): self.ob('operand', self.eq(s, a[3], self.isz), wh + 'string length')

class Buddy:
    def __init__(self, mods): self.mods = mods; self.obls = []
    def run(self, deadline=60):
        sym = regs.finder(self.mods, r'13IsBuddyBitSet')
        if sym is None: raise Undecided('no such function')
        self.sym = sym
        mod = next(m for m in self.mods if m.func(sym))
        sp = HSpec(); ex = Ex(self.mods, sp, sym); self.ex = ex; ex.deadline = time.time() + deadline; ex.params = frozenset()
        cur = [0]
        def at(ex, s, ins):
            p = ex.val(s, 'ptr', ins.a[0]); v = ex.val(s, ins.ty, ins.a[1])
            if ins.x != 'or': raise Undecided('atomic ' + ins.x)
            ev(s, ('or', p, v)); s.env[ins.d] = c_(cur[0])
        ex.hooks['atomicrmw'] = at
        for i in range(16):
            for old in ([x for x in range(256) if not x >> i & 1] if i < 8 else [0, 1 << (i ^ 1), 0xffff & ~(1 << i), 0xffff & ~(1 << i) & ~(1 << (i ^ 1))]):
                cur[0] = old
                st = start(ex, sym, [c_(i), Ptr('mask', C0)], mod=mod, mem={'mask': Shared('mask', 8, {0: (8, c_(old), ('i', 64))})})
                st.g['ev'] = ()
                for _, t, v in [r for r in ex.explore(st, None) if r[0] == 'ret']:
                    e = t.g['ev']
                    self.obls.append(('atomic', len(e) == 1 and e[0][1].b == 'mask' and e[0][1].o == C0 and e[0][2] == c_(1 << i), 'one atomic OR of bit %d' % i))
                    if isinstance(v, Poly): v = ccmp('!=', v)
                    r = True if v[0] == 'T' else False if v[0] == 'F' else None
                    self.obls.append(('result', None if r is None else r == bool(old >> (i ^ 1) & 1), 'bit %d with %x set before: %s' % (i, old, r)))
        self.obls += [(o[0], o[1], str(o[2])) for o in ex.obls]
        return self

REC = re.compile(r'^_ZL?\d+(mergesort0_|mergesort0string_|amergesort0_string|amergesort0_)I(.*?)Ev')
WRAP = re.compile(r'^_ZL?\d+(mergesort_|mergesortstring_|amergesort_|amergesortworkspace_|ParMergeString|ParMergeNormal|single_amergesort)I(.*?)E+[iv]P')
class Wrap:
    """entry of a merge sort: the recursion is started once on exactly the elements given, with half as much workspace"""
    def __init__(self, mods, sym, stype=None, atype=None): self.mods = mods; self.sym = sym; self.stype = stype; self.atype = atype; self.obls = []
    ob = lambda self, k, ok, t: self.obls.append((k, ok, ('type %d: ' % self.stype if self.stype is not None else '') + t))
    eq = SortFn.eq; le = SortFn.le; lehalf = SortFn.lehalf; space = SortFn.space; half = SortFn.half
    def run(self, deadline=60):
        sym = self.sym; m = WRAP.match(sym); k = m.group(1); codes = tcodes(m.group(2))
        self.cfg = ''; self.isz = c_(1)
        mod = next(x for x in self.mods if x.func(sym))
        sp = HSpec(); ex = Ex(self.mods, sp, sym); self.ex = ex; ex.deadline = time.time() + deadline
        names = set()
        for x in self.mods: names |= set(x.ftext)
        def rec(n):
            r = REC.match(n); kk, cc = r.group(1), tuple(tcodes(r.group(2)))
            return lambda ex, s, a, i: ev(s, ('rec', kk, cc, tuple(a)))
        for n in names:
            if REC.match(n): ex.hooks[n] = rec(n)
        def alloc(ex, s, a, i):
            b = ex.fresh('heap'); s.g['buf:' + b] = a[0]; ev(s, ('alloc', b)); return Ptr(b, C0)
        ex.hooks['_Z7FmAllocm'] = alloc
        ex.hooks['_Z6FmFreePv'] = lambda ex, s, a, i: ev(s, ('free', a[0]))
        def stackalloc(ex, s, size, b):
            s.g['buf:' + b] = size; return Ptr(b, C0)
        ex.hooks['alloca'] = stackalloc
        n = A_('n'); sl = A_('strlen'); W = {'b': 1, 'a': 1, 'h': 1, 'c': 1, 's': 2, 't': 2, 'half': 2, 'i': 4, 'j': 4, 'f': 4, 'l': 8, 'm': 8, 'd': 8, 'e': 16}
        P = lambda b: Ptr(b, C0)
        if k in ('mergesort_', 'mergesortstring_'):
            args = [P('dst'), n] + ([sl] if k == 'mergesortstring_' else []); self.base = P('dst')
            self.esz = sl if k == 'mergesortstring_' else c_(W[codes[0]])
        else:
            args = [P('key'), P('ix'), n]; self.base = P('ix'); self.esz = c_(W[codes[-1]])
            if k == 'single_amergesort': args += [sl, c_(self.stype)]
            elif k != 'amergesort_': args += [sl, P('ws')]
        facts = [ccmp('<=', -n), ccmp('<=', n - 2**48), ccmp('<=', c_(1) - sl), ccmp('<=', sl - 2**30)]
        ex.params = frozenset(['n', 'strlen'])
        st = start(ex, sym, args, mod=mod, mem={}); st.facts += [f for f in facts if f[0] != 'T']; st.g['ev'] = ()
        st.g['buf:ws'] = None
        rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        self.obls += [(o[0], o[1], str(o[2])) for o in ex.obls]
        if not rs: self.ob('returns', None, 'no path returns')
        for _, t, v in rs:
            evs = t.g['ev']; al = [e[1] for e in evs if e[0] == 'alloc']; fr = [e[1] for e in evs if e[0] == 'free']
            for b in al: self.ob('heap', sum(1 for f in fr if isinstance(f, Ptr) and f.b == b) == 1, 'workspace freed once')
            w = [e for e in evs if e[0] not in ('alloc', 'free')]
            if len(w) != 1 or w[0][0] != 'rec': self.ob('result', False if not w else None, 'the recursion is started once'); continue
            _, kk, cc, a = w[0]
            order = [e[0] for e in evs]
            if al: self.ob('heap', order.index('rec') < order.index('free') if 'free' in order else False, 'workspace freed after the sort')
            inp = k.startswith('merge')
            want = {'mergesort_': 'mergesort0_', 'mergesortstring_': 'mergesort0string_', 'ParMergeString': 'amergesort0_string'}.get(k, 'amergesort0_')
            if self.atype is not None: want = 'amergesort0_string'
            self.ob('route', kk == want, '%s starts %s' % (k, kk))
            c0 = codes[0]
            if self.atype is not None: c0 = {STRING: 'PKh', UNICODE: 'PKj', VOID: 'PKc'}[self.atype]
            self.ob('route', cc[0] == c0 and (inp or cc[-1] == codes[-1]), '%s<%s> starts %s<%s>' % (k, ','.join(codes), kk, ','.join(cc)))
            self.ob('range', self.eq(t, a[0], self.base), 'starts at the first element')
            self.ob('range', self.eq(t, a[1], Ptr(self.base.b, self.base.o + n*self.esz)), 'ends after the last element: %s' % (a[1],))
            ws = a[2] if inp else a[3]
            if not inp: self.ob('operand', self.eq(t, a[2], P('key')), 'keys are the caller\'s')
            if kk in ('mergesort0string_', 'amergesort0_string'): self.ob('operand', self.eq(t, a[-1], sl), 'string length')
            if isinstance(ws, Ptr) and ws.b == 'ws': self.ob('workspace', self.eq(t, ws, P('ws')), 'the workspace of the caller')
            else: self.space(t, ws, n, '')
            if isinstance(v, Poly): self.ob('result', self.eq(t, v, C0), 'success is reported')
        return self

from . import kern
class CopySpec(kern.KSpec):
    """CopyData(in, n, strideIn, itemSize, out, strideOut=itemSize): out[i] == in[i], whole elements, nothing else; one element size"""
    def __init__(self, es, contig):
        kern.KSpec.__init__(self, 'copy', [0], 0, lambda a: a, ('A', 'C'), None)
        self.es = es; self.contig = contig
    def setup(self, ex, f):
        st = kern.State()
        st.env = {}; st.fn = f; st.mod = ex.mods[0]; st.prev = None; st.ip = 0; st.facts = []; st.data = []; st.sub = {}
        st.mem = {}; st.g = {'done': C0, 'pend': ()}; st.trace = None; st.frame = f.name; st.blk = f.order[0]
        es = self.es; si = c_(es) if self.contig else A_('s1')
        self.strides = [si, c_(es)]
        self.arr = {'A': kern.Arr(self, 'A', es, [si], False, 'A'), 'C': kern.Arr(self, 'C', es, [c_(es)], True, 'C')}
        for nm, a in self.arr.items(): st.mem[nm] = a
        self.out = self.arr['C']; self.oes = es; self.so = c_(es)
        args = [Ptr('A', C0), self.n, si, c_(es), Ptr('C', C0), c_(es)]
        if len(f.params) != len(args): raise Undecided('signature')
        for (t, pn), v in zip(f.params, args): st.env[pn] = v
        st.facts.append(ccmp('<=', -self.n))
        if not self.contig: st.facts.append(ccmp('!=', si - es))
        ex.params = frozenset(['n', 's1'])
        return st
    def decide(self, e, AB, ds):
        if e.eq(AB[0]): return True, None
        s = z3.Solver(); s.set('timeout', 10000); s.add(*ds); s.add(e != AB[0]); r = s.check()
        return (True, None) if r == z3.unsat else (False, s.model()) if r == z3.sat else (None, None)
class Copy:
    def __init__(self, mod, es, contig): self.mod = mod; self.es = es; self.contig = contig; self.obls = []
    def run(self, deadline=60):
        self.sym = next((n for n in self.mod.ftext if COPY.match(n)), None)
        if self.sym is None: raise Undecided('no such function')
        hk = {}
        def mc(ex, s, a, i):
            d, sp = ex.spec.obj(ex, s, a[0]), ex.spec.obj(ex, s, a[1])
            d.bulkcopy(ex, s, ex.norm(s, a[0].o), sp, ex.norm(s, a[1].o), ex.norm(s, a[2]))
        for n in self.mod.ftext:
            if re.match(r'^_ZL?7MEMCPYRP', n): hk[n] = mc
        sp = CopySpec(self.es, self.contig)
        self.ex, und = kern.verify(self.mod, self.sym, sp, deadline, hk)
        self.obls = [(o[0], o[1], '%d byte elements%s: %s' % (self.es, ', contiguous' if self.contig else '', o[2])) for o in self.ex.obls]
        if und: raise Undecided(und)
        return self
