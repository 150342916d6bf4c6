"""Contracts of the work dispatcher (threads.h): work item set-up, block claiming, waiting, worker loop.

Concurrency is treated by rely/guarantee: a work item is owned by the submitting thread until it is announced (first store
to a pool's WorkIndex); afterwards CurrentBlock, BlockNext and BlocksCompleted are only modified by atomic increments (an
obligation on every function that touches an item), so each load of them yields an unknown value not below the announced one,
and each atomic increment returns a value no other increment returns.
"""
import re, time, z3
from .poly import Poly
from . import ir, kern, regs
from .ex import catoms, Ex, Ptr, Cells, Undef, Undecided, C0, TRUE, FALSE, ccmp, bnot, band, bor, csubst
from .world import start, GP
from . import hookrun
from .hookrun import MemHavoc, HSpec, ev, A_, c_, BS

SHARED = ('BlockNext', 'BlocksCompleted')
MAXW = 14           # ThreadWakeup never exceeds this: contract of SetFutexWakeup/StartWorkerThreads (T03)

class UCells(Cells):
    """memory whose other cells are unknown but fixed"""
    def missing(self, ex, st, o, ty):
        if isinstance(ty, tuple) and ty[0] == 'i' and ty[1] > 1:
            a = '%s+%d:%d' % (self.name, o, ty[1])
            z = z3.Int(a); w = ty[1]
            ex.ax.setdefault(a, ([z >= -(1 << (w-1)), z < (1 << (w-1))], set()))
            return A_(a)
        if ty == 'ptr': return Ptr('%s+%d' % (self.name, o), C0)
        return Undef(ty)
    def store(self, ex, st, off, ty, v, x):
        if ex.dry and not off.isconst(): return       # a loop that is run out afterwards
        Cells.store(self, ex, st, off, ty, v, x)

class Lay:
    """field offsets as the compiler lays them out"""
    def __init__(self, L):
        self.item = L['stMATH_WORKER_ITEM']; self.ring = L['stWorkerRing']; self.worker = L['CMathWorker']; self.par = L['stGlobalWorkerParams']
        self.chan = L['stWorkerChannel']; self.pool = L['stWorkerPool']
        self.isz = self.item[''][0]; self.csz = self.chan[''][0]; self.psz = self.pool[''][0]
        self.nch = (self.isz - self.item['WorkerChannel'][0])//self.csz
        nq = re.search(r'\[(\d+)\]', self.ring['WorkerQueue'][1]); self.nq = int(nq.group(1)) if nq else (self.ring[''][0] - self.ring['WorkerQueue'][0])//self.isz
        np_ = re.search(r'\[(\d+)\]', self.ring['Pool'][1]); self.npool = int(np_.group(1)) if np_ else 4
    def ifield(self, o):
        c0 = self.item['WorkerChannel'][0]
        if o >= c0:
            j, r = divmod(o - c0, self.csz)
            for f, (fo, _) in self.chan.items():
                if f and fo == r: return f, j
            return None, j
        for f, (fo, _) in self.item.items():
            if f and fo == o: return f, None
        return None, None
    def rfield(self, o):
        p0 = self.ring['Pool'][0]; p1 = p0 + self.psz*self.npool
        if p0 <= o < p1:
            j, r = divmod(o - p0, self.psz)
            for f, (fo, _) in self.pool.items():
                if f and fo == r: return f, j
            return None, j
        for f, (fo, _) in self.ring.items():
            if f and fo == o: return f, None
        return None, None
    def co(self, j, f): return self.item['WorkerChannel'][0] + j*self.csz + self.chan[f][0]
    def shared(self, f): return f in SHARED or f == 'CurrentBlock'

def cstr(c):
    if c[0] == 'c': return '%s %s 0' % (c[2], c[1])
    if c[0] in ('and', 'or'): return '(%s %s %s)' % (cstr(c[1]), c[0], cstr(c[2]))
    if c[0] == 'not': return '!' + cstr(c[1])
    return str(c[0:2])

def ordered(ins):
    t = ins.txt
    return 'seq_cst' in t or 'acq_rel' in t or 'release' in t

class Item:
    """the work item: plain memory until announced, shared afterwards"""
    def __init__(self, S): self.S = S
    def load(self, ex, st, off, ty, x):
        c = st.mem['item']
        if not off.isconst():
            if ex.dry: return A_(ex.fresh('item'))
            raise Undecided('symbolic field of the work item')
        f, j = self.S.lay.ifield(off.cval())
        if st.g.get('ann') and self.S.lay.shared(f):
            v = A_(ex.fresh('%s%s' % (f, '' if j is None else j)))
            self.S.rely(ex, st, off.cval(), v)
            ev(st, ('ld', f, j, v))
            return v
        return c.load(ex, st, off, ty, x)
    def store(self, ex, st, off, ty, v, x):
        if st.g.get('ann'):
            if ex.dry and not off.isconst(): return
            f, j = self.S.lay.ifield(off.cval()) if off.isconst() else (None, None)
            ev(st, ('plain', f, j))
            ex.oblige('shared', False, 'plain store to %s of a work item other threads may be working on' % (f or off))
            return
        st.mem['item'].store(ex, st, off, ty, v, x)
class RingObj:
    def __init__(self, S): self.S = S
    def load(self, ex, st, off, ty, x): return self.S.ringload(ex, st, off, ty)
    def store(self, ex, st, off, ty, v, x): self.S.ringstore(ex, st, off, ty, v)

class TSpec(MemHavoc):
    spin = False
    def __init__(self, lay): MemHavoc.__init__(self); self.lay = lay
    def gvar(self, ex, st, n, g):
        if n == 'g_cMathWorker': return GP(Ptr('worker', C0))
        if n in ('g_WaitAddress', 'g_WakeAllAddress', 'g_WakeSingleAddress'): return GP(Ptr(None, C0))
        return MemHavoc.gvar(self, ex, st, n, g)
    def obj(self, ex, st, p):
        if p.b == 'item': return Item(self)
        if p.b == 'ring': return RingObj(self)
        return MemHavoc.obj(self, ex, st, p)
    def rely(self, ex, st, o, v):
        """shared counters never fall below their announced value"""
        s = st.g.get('snap')
        c = s.c.get(o) if s else None
        if c and isinstance(c[1], Poly): st.facts.append(ccmp('<=', c[1] - v))
    def ringload(self, ex, st, off, ty):
        if not off.isconst():
            if ex.dry: return A_(ex.fresh('ring'))
            raise Undecided('symbolic offset into the ring')
        o = off.cval(); f, j = self.lay.rfield(o)
        if f == 'MainWorkIndex' or f == 'ExclusiveLock':
            return A_(ex.fresh(f))
        return st.mem['ring'].load(ex, st, off, ty, None)
    def ringstore(self, ex, st, off, ty, v):
        if not off.isconst():
            if ex.dry: return
            raise Undecided('symbolic offset into the ring')
        f, j = self.lay.rfield(off.cval())
        if f == 'WorkIndex' and j is not None and not st.g.get('ann'):
            st.g['ann'] = True; st.g['snap'] = st.mem['item']; st.g['snapfacts'] = (list(st.facts), dict(st.sub))
        ev(st, ('ring', f, j, v))
        st.mem['ring'].store(ex, st, off, ty, v, None)
    def atomic(self, ex, st, ins):
        p = ex.val(st, 'ptr', ins.a[0]); v = ex.val(st, ins.ty, ins.a[1])
        if not isinstance(p, Ptr): raise Undecided('atomic through %s' % (p,))
        off = ex.norm(st, p.o)
        old = A_(ex.fresh('old'))
        if p.b == 'item' and (st.g.get('ann') or self.atomics_any):
            if not off.isconst():
                if not ex.dry: raise Undecided('symbolic atomic')
                f, j = None, None
            else:
                f, j = self.lay.ifield(off.cval()); self.rely(ex, st, off.cval(), old)
            ev(st, ('at', f, j, ins.x, v, old))
            if f is not None:
                ex.oblige('shared', True if ins.x == 'add' and isinstance(v, Poly) and v == c_(1) and self.lay.shared(f) else False, 'the only modification of a shared item is an atomic +1 of a counter (%s %s %s)' % (ins.x, f, v))
                ex.oblige('ordering', ordered(ins), 'counter %s is modified with release ordering' % f)
        elif p.b == 'ring':
            f, j = self.lay.rfield(off.cval()) if off.isconst() else (None, None)
            ev(st, ('ringat', f, j, ins.x, v, old))
        else:
            raise Undecided('atomic on %s' % p.b)
        st.env[ins.d] = old
    atomics_any = False
    def hooks(self, ex):
        ex.hooks['atomicrmw'] = self.atomic
        ex.hooks['syscall'] = lambda ex, s, a, i: self.syscall(ex, s, a)
        ex.hooks['llvm.x86.sse2.pause'] = lambda ex, s, a, i: None
        ex.hooks['printf'] = lambda ex, s, a, i: A_(ex.fresh('printf'))
    def syscall(self, ex, s, a):
        ev(s, ('sys', tuple(a)))
        return A_(ex.fresh('sys'))
    def term(self, ex, key, paths):
        """a waiting loop is left as soon as all blocks are complete: staying in it implies that some are not"""
        b = [t for k, t, _ in paths if k == 'back']
        if not b: return False
        for t in b:
            l = [e for e in t.g.get('ev', ()) if e[0] == 'ld' and e[1] == 'BlocksCompleted']
            if not l or ex.proves(t, ccmp('<=', l[-1][3] - self.total(ex, t) + 1)) is not True: return False
        return True
    def total(self, ex, t): return self.B

def worker_mem(lay, M, extra=None):
    w = {lay.worker['GlobalWorkerParams'][0] + lay.par['FutexWakeCount'][0]: (4, M if isinstance(M, Poly) else c_(M), ('i', 32)),
         lay.worker['pWorkerRings'][0]: (8, Ptr('ring', C0), 'ptr')}
    w.update(extra or {})
    r = {lay.ring['pParams'][0]: (8, Ptr('worker', c_(lay.worker['GlobalWorkerParams'][0])), 'ptr')}
    return {'worker': UCells('worker', lay.worker[''][0], w), 'ring': UCells('ring', lay.ring[''][0], r)}

class WorkMain:
    """WorkMain(this, item, len, wake, bs, generic): announce, work, wait, complete.  Collects the announced snapshots."""
    def __init__(self, mods, lay, M, req, generic):
        self.mods = mods; self.lay = lay; self.M = M; self.req = req; self.generic = generic
        self.obls = []; self.snaps = []; self.keys = set()
    def ob(self, k, ok, t): self.obls.append((k, ok, t))
    def run(self, deadline=100):
        lay = self.lay; mods = self.mods
        sym = regs.finder(mods, r'CMathWorker8WorkMainE')
        if sym is None: raise Undecided('no WorkMain')
        self.sym = sym
        sp = TSpec(lay); ex = Ex(mods, sp, sym); self.ex = ex; ex.unroll_multi = True
        ex.deadline = time.time() + deadline
        sp.hooks(ex)
        n = A_('n'); self.n = n
        facts = [ccmp('<=', c_(1) - n), ccmp('<=', n - (1 << 56))]
        if isinstance(self.req, int): req = c_(self.req)
        else:
            req = A_('req')
            facts.append(ccmp('<=', req) if self.req == 'default' else ccmp('<=', c_(self.M + 1) - req))
            facts += [ccmp('<=', req - (2**31 - 1)), ccmp('<=', -req - 2**31)]
        ex.params = frozenset(['n', 'req'])
        bs = c_(BS) if self.generic else c_(1)
        if self.generic:
            B = ex.div(None, n + (BS - 1), BS) if False else None
        mem = worker_mem(lay, self.M)
        mem['item'] = UCells('item', lay.isz, {lay.item['DoWorkCallback'][0]: (8, Ptr('cb', C0), 'ptr'), lay.item['WorkCallbackArg'][0]: (8, Ptr('cbarg', C0), 'ptr'),
                                              lay.item['WorkIndex'][0]: (8, A_('widx'), ('i', 64))})
        def ind(ex, s, f, a, ins):
            if not isinstance(f, Ptr) or f.b != 'cb': raise Undecided('call through %s' % (f,))
            ev(s, ('dowork', tuple(v for _, v in a)))
            if ins.d is not None: s.env[ins.d] = A_(ex.fresh('did'))
            return None
        ex.hooks['indirect'] = ind
        mod = next(m for m in mods if m.func(sym))
        st = start(ex, sym, [Ptr('worker', C0), Ptr('item', C0), n, req, bs, TRUE if self.generic else FALSE], mod=mod, mem=mem)
        for f in facts: st.facts.append(f)
        sp.B = ex.div(st, n + (BS - 1), BS) if self.generic else n
        self.B = sp.B
        rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        for o in ex.obls: self.ob(o[0], o[1], str(o[2]))
        if not rs: self.ob('returns', None, 'no path returns')
        for _, t, _ in rs: self.path(t)
        return self
    def eq(self, t, a, b):
        if not isinstance(a, Poly) or not isinstance(b, Poly): return None
        d = self.ex.norm(t, a - b)
        if d.isconst(): return d.cval() == 0
        return self.ex.proves(t, ccmp('==', d))
    def path(self, t):
        ex = self.ex; lay = self.lay
        evs = t.g.get('ev', ())
        dw = [i for i, e in enumerate(evs) if e[0] == 'dowork']
        self.ob('work', len(dw) >= 1, 'the submitting thread works on the item itself')
        snap = t.g.get('snap') or t.mem['item']
        W = snap.c.get(lay.item['ThreadWakeup'][0])
        W = ex.norm(t, W[1]) if W and isinstance(W[1], Poly) else None
        if W is None or not W.isconst(): self.ob('wake', None, 'number of workers of the item: %s' % (W,)); return
        W = W.cval()
        self.ob('wake', 0 <= W <= min(MAXW, self.M), 'between 0 and the configured number of workers are woken (%d of %d)' % (W, self.M))
        if not 0 <= W <= MAXW: return
        for i in dw:
            a = evs[i][1]
            self.ob('work', len(a) == 3 and isinstance(a[0], Ptr) and a[0].b == 'item' and a[0].o == C0, 'the callback is given the item')
            self.ob('work', True if isinstance(a[1], Poly) and a[1].isconst() and 0 <= a[1].cval() <= W else None, 'the submitting thread works as one of the item\'s cores')
        last = dw[-1] if dw else -1
        lds = [i for i, e in enumerate(evs) if e[0] == 'ld' and e[1] == 'BlocksCompleted' and i > last]
        ok = False; at = None
        for i in lds:
            r = ex.proves(t, ccmp('<=', self.B - evs[i][3]))
            if r is True: ok = True; at = i; break
            if r is None: ok = None
        self.ob('complete', ok, 'returns only after the number of completed blocks was seen to reach the number of blocks')
        ann = {}; comp = {}
        for i, e in enumerate(evs):
            if e[0] != 'ring': continue
            if e[1] == 'WorkIndex' and e[2] is not None: ann[e[2]] = (i, e[3])
            elif e[1] == 'WorkIndexCompleted' and e[2] is not None: comp[e[2]] = (i, e[3])
            elif e[1] not in ('WorkIndex', 'WorkIndexCompleted'): self.ob('frame', False, 'ring field %s is stored' % (e[1],))
        for p, (i, v) in ann.items():
            self.ob('announce', self.eq(t, v, A_('widx')), 'pool %d is given the index of the item' % p)
            c = comp.get(p)
            self.ob('retire', c is not None and self.eq(t, c[1], A_('widx')), 'pool %d is told the item is finished' % p)
            if c is not None and at is not None: self.ob('retire', c[0] > at, 'pool %d is told after the wait' % p)
        for i, e in enumerate(evs):
            if e[0] == 'ld' and e[1] == 'CurrentBlock': pass
        # what was announced
        if not any(e[0] == 'plain' for e in evs):
            for f, want in (('DoWorkCallback', 'cb'), ('WorkCallbackArg', 'cbarg')):
                c = snap.c.get(lay.item[f][0])
                self.ob('item', bool(c) and isinstance(c[1], Ptr) and c[1].b == want and c[1].o == C0, '%s of the item is the caller\'s' % f)
        facts, sub = t.g.get('snapfacts', (t.facts, t.sub))
        self.keep(W, snap, facts, sub)
    def keep(self, W, snap, facts, sub):
        """the announced item: what it contains and what is known about it; other facts are dropped"""
        ats = {'n'}
        for o, v in snap.c.items():
            if isinstance(v[1], Poly): ats |= v[1].atoms()
        ats = self.ex.deepatoms(ats)
        fs = [f for f in facts if f[0] != 'z' and catoms(f) and catoms(f) <= ats]
        key = (W, tuple(sorted((o, str(v[1])) for o, v in snap.c.items() if o >= 0 and o != self.lay.item['WorkIndex'][0])), tuple(sorted({cstr(f) for f in fs})))
        if key in self.keys: return
        self.keys.add(key)
        self.snaps.append((W, snap, fs, dict(sub), key))

class Claims:
    """block claiming on one announced item: every fetch of a channel counter is tied to the block it hands out"""
    def __init__(self, mods, lay, wm, snap, zig):
        self.mods = mods; self.lay = lay; self.wm = wm; self.W, self.cells, self.facts, self.sub = snap[:4]; self.zig = zig
        self.obls = []
    def ob(self, k, ok, t): self.obls.append((k, ok, t))
    def prep(self, sym, args, deadline):
        lay = self.lay
        sp = TSpec(lay); ex = Ex(self.mods, sp, sym); self.ex = ex; ex.unroll_multi = True
        ex.deadline = time.time() + deadline; ex.params = frozenset(['n', 'req'])
        ex.ax.update(self.wm.ex.ax); ex.divs.update(self.wm.ex.divs)
        sp.hooks(ex); sp.B = self.wm.B
        cells = dict(self.cells.c); cells[lay.item['ZigZag'][0]] = (4, c_(self.zig), ('i', 32))
        mem = {'item': UCells('item', lay.isz, cells), 'out': Cells('out', 8, {})}
        mod = next(m for m in self.mods if m.func(sym))
        st = start(ex, sym, args, mod=mod, mem=mem)
        st.facts = list(self.facts); st.sub = dict(self.sub); st.g['ann'] = True; st.g['snap'] = mem['item']
        return ex, st
    def out(self, t):
        c = t.mem['out'].c.get(0)
        return self.ex.norm(t, c[1]) if c and isinstance(c[1], Poly) else None
    def last(self, j):
        c = self.cells.c.get(self.lay.co(j, 'LastBlock')); return c[1] if c and isinstance(c[1], Poly) else None
    def run(self, deadline=100):
        lay = self.lay; W = self.W; wm = self.wm
        sym = regs.finder(self.mods, r'stMATH_WORKER_ITEM20GetNextWorkBlockCoreE')
        if sym is None: raise Undecided('no GetNextWorkBlockCore')
        self.sym = sym
        n = A_('n'); B = wm.B
        Ls = [self.last(j) for j in range(W + 1)]
        for j in range(W + 1):
            c = self.cells.c.get(lay.co(j, 'CurrentBlock'))
            self.ob('channel', bool(c) and isinstance(c[1], Poly) and c[1] == C0, 'channel %d starts at its first block' % j)
        if any(l is None for l in Ls): self.ob('channel', False, 'a channel of a core the item is for has no limit'); return self
        maps = {}
        for core in range(W + 1):
            ex, st = self.prep(sym, [Ptr('item', C0), c_(core), Ptr('out', C0)], deadline)
            if core == 0:
                tot = C0
                for l in Ls: tot = tot + l; self.ob('channel', ex.proves(st, ccmp('<=', -l)), 'channel limits are not negative')
                self.ob('count', ex.proves(st, ccmp('==', tot - B)), 'the channels together hold exactly the blocks of the range')
            rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
            for o in ex.obls: self.ob(o[0], o[1], 'core %d: %s' % (core, o[2]))
            if not rs: self.ob('returns', None, 'no path returns')
            for _, t, v in rs: self.path(ex, t, v, core, Ls, maps, n, B)
        # the blocks of different channels, and of one channel, are different
        ex, st = self.prep(sym, [Ptr('item', C0), C0, Ptr('out', C0)], deadline)
        for j in range(W + 1):
            if not maps.get(j):
                self.ob('cover', ex.proves(st, ccmp('<=', Ls[j])), 'channel %d is empty or its blocks are handed out' % j)
                continue
        keys = [(j, e) for j in maps for e in maps[j]]
        for x, (i, (wi, fi)) in enumerate(keys):
            for j, (wj, fj) in keys[x:]:
                s = st.copy()
                a, b = A_('v'), A_('w')
                for q, l in ((a, Ls[i]), (b, Ls[j])):
                    s.facts += [ccmp('<=', -q), ccmp('<=', q - l + 1)]
                s.facts += [csubst(f, {'v': a}) for f in fi] + [csubst(f, {'v': b}) for f in fj]
                if i == j: s.facts.append(ccmp('<=', a - b + 1))
                self.ob('disjoint', ex.proves(s, ccmp('!=', wi.subst({'v': a}) - wj.subst({'v': b}))), 'channels %d and %d hand out different blocks' % (i, j))
        return self
    def path(self, ex, t, v, core, Ls, maps, n, B):
        W = self.W
        if not isinstance(v, Poly): self.ob('result', None, 'returned length %s' % (v,)); return
        v = ex.norm(t, v)
        got = ex.proves(t, ccmp('<=', c_(1) - v))
        if got is not True:
            neg = ex.proves(t, ccmp('<=', v))
            if neg is not True: self.ob('result', None if None in (got, neg) else False, 'core %d: a claim is neither a success nor a failure: length %s' % (core, v)); return
        evs = t.g.get('ev', ())
        fetch = [(e[2], e[5]) for e in evs if e[0] == 'at' and e[1] == 'CurrentBlock']
        nxt = [e for e in evs if e[0] == 'at' and e[1] == 'BlockNext']
        self.ob('next', len(nxt) == (1 if got is True else 0) or (got is True and len(nxt) < 1), 'core %d: the global counter is advanced by at most one per claimed block' % core)
        for e in evs:
            if e[0] == 'at' and e[1] not in ('CurrentBlock', 'BlockNext'): self.ob('frame', False, 'claiming modifies %s' % e[1])
        for j, b in fetch:
            if not 0 <= j <= W: self.ob('channel', False, 'core %d takes blocks from channel %d, the item has channels 0..%d' % (core, j, W)); return
        if got is True:
            if not fetch: self.ob('claim', False, 'core %d: a block is handed out without claiming it' % core); return
            j, b = fetch[-1]
            self.ob('claim', ex.proves(t, ccmp('<=', b - Ls[j] + 1)), 'core %d: a handed out block is one of its channel' % core)
            for i, c in fetch[:-1]: self.ob('claim', ex.proves(t, ccmp('<=', Ls[i] - c)), 'core %d: a block of channel %d is claimed but not handed out' % (core, i))
            wb = self.out(t)
            if wb is None: self.ob('result', False if 0 not in t.mem['out'].c else None, 'core %d: block number is returned' % core); return
            bs = c_(BS)
            self.ob('range', ex.proves(t, ccmp('<=', -wb)), 'core %d: block >= 0' % core)
            self.ob('range', ex.proves(t, ccmp('<=', wb - B + 1)), 'core %d: block below the number of blocks' % core)
            self.ob('range', ex.proves(t, ccmp('<=', wb*BS + v - n)), 'core %d: the claimed elements are inside the range' % core)
            full = ex.proves(t, ccmp('==', v - bs))
            self.ob('range', True if full is True else ex.proves(t, bor(ccmp('==', v - bs), ccmp('==', wb*BS + v - n))), 'core %d: a block is full or ends the range' % core)
            # the block depends on the fetched counter value only
            at = list(b.atoms())[0]
            k = wb.subst({at: A_('v')})
            fs = []
            m = maps.setdefault(j, [])
            if not any(k == w for w, _ in m): m.append((k, fs))
        else:
            for i, c in fetch: self.ob('claim', ex.proves(t, ccmp('<=', Ls[i] - c)), 'core %d: a block of channel %d is claimed but not handed out' % (core, i))
            done = {i for i, c in fetch}
            allch = done >= set(range(W + 1))
            ld = [e[3] for e in evs if e[0] == 'ld' and e[1] == 'BlockNext']
            b0 = self.cells.c.get(self.lay.item['BlockNext'][0])
            base = b0[1] if b0 and isinstance(b0[1], Poly) else C0
            ok = allch or any(ex.proves(t, ccmp('<=', B - (l - base))) is True for l in ld) or any(ex.proves(t, ccmp('<=', Ls[j])) is True for j in range(W + 1)) and all(j in done or ex.proves(t, ccmp('<=', Ls[j])) is True for j in range(W + 1))
            self.ob('exhausted', bool(ok), 'core %d: gives up only when every block has been claimed' % core)

def bad(obls): return [o for o in obls if o[1] is not True]

class ModClaims(Claims):
    """the same, modular: GetNextWorkBlockCoreInternal against its contract for every channel of an announced item.
    (GetNextWorkBlockCore against that contract: class Core)"""
    def run(self, deadline=100):
        lay = self.lay; W = self.W; wm = self.wm
        sym = regs.finder(self.mods, r'stMATH_WORKER_ITEM28GetNextWorkBlockCoreInternalE')
        if sym is None: raise Undecided('no GetNextWorkBlockCoreInternal')
        self.sym = sym
        n = A_('n'); B = wm.B
        Ls = [self.last(j) for j in range(W + 1)]
        for j in range(W + 1):
            c = self.cells.c.get(lay.co(j, 'CurrentBlock'))
            self.ob('channel', bool(c) and isinstance(c[1], Poly) and c[1] == C0, 'channel %d starts at its first block' % j)
        if any(l is None for l in Ls): self.ob('channel', False, 'a channel of a core the item is for has no limit'); return self
        maps = {}
        for j in range(W + 1):
            ex, st = self.prep(sym, [Ptr('item', C0), c_(j), Ptr('out', C0)], deadline)
            if j == 0:
                tot = C0
                for l in Ls: tot = tot + l; self.ob('channel', ex.proves(st, ccmp('<=', -l)), 'channel limits are not negative')
                self.ob('count', ex.proves(st, ccmp('==', tot - B)), 'the channels together hold exactly the blocks of the range')
            rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
            for o in ex.obls: self.ob(o[0], o[1], 'channel %d: %s' % (j, o[2]))
            if not rs: self.ob('returns', None, 'no path returns')
            for _, t, v in rs: self.ipath(ex, t, v, j, Ls, maps, n, B)
        ex, st = self.prep(sym, [Ptr('item', C0), C0, Ptr('out', C0)], deadline)
        self.disjoint(ex, st, W, Ls, maps)
        return self
    def disjoint(self, ex, st, W, Ls, maps):
        for j in range(W + 1):
            if not maps.get(j): self.ob('cover', ex.proves(st, ccmp('<=', Ls[j])), 'channel %d is empty or its blocks are handed out' % j)
            elif len(maps[j]) > 1: self.ob('disjoint', None, 'channel %d hands out blocks in %d ways' % (j, len(maps[j])))
        a, b = A_('v'), A_('w')
        for i in maps:
            for j in maps:
                if j < i: continue
                wi, wj = maps[i][0][0], maps[j][0][0]
                s = st.copy()
                for q, l in ((a, Ls[i]), (b, Ls[j])): s.facts += [ccmp('<=', -q), ccmp('<=', q - l + 1)]
                if i == j: s.facts.append(ccmp('<=', a - b + 1))
                self.ob('disjoint', ex.proves(s, ccmp('!=', wi - wj.subst({'v': b}))), 'channels %d and %d hand out different blocks' % (i, j))
    def ipath(self, ex, t, v, j, Ls, maps, n, B):
        if not isinstance(v, Poly): self.ob('result', None, 'returned length %s' % (v,)); return
        v = ex.norm(t, v)
        got = ex.proves(t, ccmp('<=', c_(1) - v))
        if got is not True:
            neg = ex.proves(t, ccmp('<=', v))
            if neg is not True: self.ob('result', None if None in (got, neg) else False, 'channel %d: a claim is neither a success nor a failure: length %s' % (j, v)); return
        evs = t.g.get('ev', ())
        at = [e for e in evs if e[0] == 'at']
        f = [e for e in at if e[1] == 'CurrentBlock']; nx = [e for e in at if e[1] == 'BlockNext']
        self.ob('frame', len(f) + len(nx) == len(at), 'claiming only modifies the channel and the global counter')
        self.ob('claim', len(f) == 1 and f[0][2] == j, 'channel %d: one block of the channel is taken per attempt' % j)
        self.ob('next', len(nx) == (1 if got is True else 0), 'channel %d: the global counter counts the claimed blocks' % j)
        if len(f) != 1 or f[0][2] != j: return
        b = f[0][5]
        if got is not True:
            self.ob('claim', ex.proves(t, ccmp('<=', Ls[j] - b)), 'channel %d: a claimed block is handed out' % j); return
        self.ob('claim', ex.proves(t, ccmp('<=', b - Ls[j] + 1)), 'channel %d: a handed out block is one of the channel' % j)
        wb = self.out(t)
        if wb is None: self.ob('result', False if 0 not in t.mem['out'].c else None, 'channel %d: block number is returned' % j); return
        bs = c_(BS); w = 'channel %d: ' % j
        self.ob('range', ex.proves(t, ccmp('<=', -wb)), w + 'block >= 0')
        self.ob('range', ex.proves(t, ccmp('<=', wb - B + 1)), w + 'block below the number of blocks')
        self.ob('range', ex.proves(t, ccmp('<=', wb*BS + v - n)), w + 'the claimed elements are inside the range')
        full = ex.proves(t, ccmp('==', v - bs))
        self.ob('range', True if full is True else ex.proves(t, bor(ccmp('==', v - bs), ccmp('==', wb*BS + v - n))), w + 'a block is full or ends the range')
        at = list(b.atoms())[0]
        k = wb.subst({at: A_('v')})
        m = maps.setdefault(j, [])
        if not any(k == x for x, _ in m): m.append((k, []))

class Core:
    """GetNextWorkBlockCore(core, &block) for one worker count, against the contract of GetNextWorkBlockCoreInternal"""
    def __init__(self, mods, lay, W): self.mods = mods; self.lay = lay; self.W = W; self.obls = []
    def ob(self, k, ok, t): self.obls.append((k, ok, t))
    def run(self, deadline=100):
        lay = self.lay; W = self.W
        sym = regs.finder(self.mods, r'stMATH_WORKER_ITEM20GetNextWorkBlockCoreE')
        inner = regs.finder(self.mods, r'stMATH_WORKER_ITEM28GetNextWorkBlockCoreInternalE')
        if sym is None or inner is None: raise Undecided('no claim functions')
        self.sym = sym
        for core in range(W + 1):
            sp = TSpec(lay); ex = Ex(self.mods, sp, sym); self.ex = ex; ex.unroll_multi = True
            ex.deadline = time.time() + deadline; ex.params = frozenset(['n', 'B'])
            sp.hooks(ex); sp.B = A_('B')
            def attempt(ex, s, a, i):
                j = ex.norm(s, a[1]) if isinstance(a[1], Poly) else None
                if not isinstance(a[0], Ptr) or a[0].b != 'item' or j is None or not (j.isconst() or ex.dry): raise Undecided('claim on %s, channel %s' % (a[0], a[1]))
                j = j.cval() if j.isconst() else 0
                ex.oblige('channel', 0 <= j <= W, 'core %d takes blocks of channel %d, the item has channels 0..%d' % (core, j, W))
                x = s.copy(); ev(x, ('miss', j))
                y = s.copy(); wb, ln = A_(ex.fresh('wb')), A_(ex.fresh('len'))
                y.facts.append(ccmp('<=', c_(1) - ln))
                ex.store(y, ('i', 64), wb, a[2], None); ev(y, ('got', j, wb, ln))
                return [(x, C0), (y, ln)]
            ex.hooks[inner] = attempt
            mem = {'item': UCells('item', lay.isz, {lay.item['BlockLast'][0]: (8, A_('B'), ('i', 64)), lay.item['ThreadWakeup'][0]: (8, c_(W), ('i', 64))}), 'out': Cells('out', 8, {})}
            mod = next(m for m in self.mods if m.func(sym))
            st = start(ex, sym, [Ptr('item', C0), c_(core), Ptr('out', C0)], mod=mod, mem=mem)
            st.g['ann'] = True
            rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
            for o in ex.obls: self.ob(o[0], o[1], 'core %d of %d: %s' % (core, W, o[2]))
            if not rs: self.ob('returns', None, 'no path returns')
            for _, t, v in rs:
                evs = t.g.get('ev', ()); w = 'core %d of %d: ' % (core, W)
                got = [e for e in evs if e[0] == 'got']; miss = {e[1] for e in evs if e[0] == 'miss'}
                self.ob('frame', not any(e[0] == 'at' for e in evs), w + 'only the channel claim modifies the item')
                if got:
                    self.ob('claim', len(got) == 1, w + 'at most one block is claimed per call')
                    o = t.mem['out'].c.get(0)
                    self.ob('result', self.eq(ex, t, v, got[-1][3]), w + 'the length of the claimed block is returned')
                    self.ob('result', self.eq(ex, t, o[1] if o else None, got[-1][2]), w + 'the number of the claimed block is returned')
                else:
                    self.ob('result', ex.proves(t, ccmp('<=', v)) if isinstance(v, Poly) else None, w + 'no length without a claimed block')
                    ld = [e[3] for e in evs if e[0] == 'ld' and e[1] == 'BlockNext']
                    ok = miss >= set(range(W + 1)) or any(ex.proves(t, ccmp('<=', A_('B') - l)) is True for l in ld)
                    self.ob('exhausted', ok, w + 'gives up only when every block has been claimed')
        return self
    def eq(self, ex, t, a, b):
        if not isinstance(a, Poly): return None
        return ex.proves(t, ccmp('==', a - b))

class Counter(Claims):
    """GetNextWorkBlock / GetNextWorkIndex on an announced item: one global counter"""
    def __init__(self, mods, lay, wm, snap, index):
        Claims.__init__(self, mods, lay, wm, snap, 0); self.index = index
    def run(self, deadline=100):
        lay = self.lay
        sym = regs.finder(self.mods, r'stMATH_WORKER_ITEM16GetNextWorkIndexE' if self.index else r'stMATH_WORKER_ITEM16GetNextWorkBlockE')
        if sym is None: raise Undecided('no claim function')
        self.sym = sym
        n = A_('n'); B = self.wm.B
        ex, st = self.prep(sym, [Ptr('item', C0), Ptr('out', C0)], deadline)
        c = self.cells.c.get(lay.item['BlockNext'][0]); b0 = c[1] if c and isinstance(c[1], Poly) else None
        self.ob('counter', None if b0 is None else b0.isconst(), 'the counter starts at a known value')
        if b0 is None: return self
        rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        for o in ex.obls: self.ob(o[0], o[1], str(o[2]))
        if not rs: self.ob('returns', None, 'no path returns')
        for _, t, v in rs:
            evs = t.g.get('ev', ())
            f = [e for e in evs if e[0] == 'at']
            self.ob('claim', len(f) == 1 and f[0][1] == 'BlockNext', 'one atomic increment of the block counter per claim')
            if len(f) != 1: continue
            b = f[0][5] - b0              # 0, 1, 2, ... over the claims of one item
            if not isinstance(v, Poly): self.ob('result', None, 'result %s' % (v,)); continue
            got = ex.proves(t, ccmp('<=', c_(1) - v))
            if got is not True:
                neg = ex.proves(t, ccmp('<=', v))
                if neg is not True: self.ob('result', None if None in (got, neg) else False, 'neither a success nor a failure: %s' % v); continue
                self.ob('claim', ex.proves(t, ccmp('<=', B - b)), 'claim %s is refused only after the last one' % b); continue
            self.ob('claim', ex.proves(t, ccmp('<=', b - B + 1)), 'no claim succeeds after the last block')
            wb = self.out(t)
            if self.index:
                # job v-1 is run; 0 .. n-1 exactly once
                self.ob('range', ex.proves(t, ccmp('==', v - 1 - b)), 'the claims hand out jobs 0, 1, 2, ...')
                continue
            if wb is None: self.ob('result', None, 'block number'); continue
            self.ob('range', ex.proves(t, ccmp('==', wb - b)), 'the claims hand out blocks 0, 1, 2, ...')
            self.ob('range', ex.proves(t, ccmp('<=', wb*BS + v - n)), 'the claimed elements are inside the range')
            self.ob('range', ex.proves(t, bor(ccmp('==', v - BS), ccmp('==', wb*BS + v - n))), 'a block is full or ends the range')
        return self

class CSpec(HSpec):
    """callback protocol: jobs instead of blocks when index"""
    index = False
    def claimed(self, ex, y):
        if not self.index: return HSpec.claimed(self, ex, y)
        j = A_(ex.fresh('job'))
        y.facts += [ccmp('<=', -j), ccmp('<=', j - y.g['wn'] + 1)]
        return j, j + 1
class Callback:
    """MultiThreadedChunkCallback / MultiThreadedCounterCallback: claim, apply the user's function, complete; until nothing is left"""
    groups = hookrun.Loop.groups; brief = hookrun.Loop.brief
    def __init__(self, mods, lay, sym, index): self.mods = mods; self.lay = lay; self.sym = sym; self.index = index; self.obls = []
    def ob(self, k, ok, t): self.obls.append((k, ok, t))
    def run(self, deadline=60):
        lay = self.lay; sym = self.sym
        sp = CSpec(); sp.index = self.index
        ex = Ex(self.mods, sp, sym); self.ex = ex; ex.deadline = time.time() + deadline; ex.params = frozenset(['n', 'core', 'wi'])
        pat = r'stMATH_WORKER_ITEM16GetNextWorkIndexE' if self.index else r'stMATH_WORKER_ITEM16GetNextWorkBlockE'
        cl = regs.finder(self.mods, pat)
        if cl is None: raise Undecided('claims in an unknown way')
        def claim(ex, s, a, i):
            if not isinstance(a[0], Ptr) or a[0].b != 'item': raise Undecided('claims on %s' % (a[0],))
            x = s.copy(); ev(x, ('noclaim',))
            y = s.copy(); wb, ln = sp.claimed(ex, y)
            ex.store(y, ('i', 64), wb + 1 if self.index else wb, a[1], None); ev(y, ('claim', wb, ln))
            return [(x, C0), (y, ln)]
        ex.hooks[cl] = claim
        done = regs.finder(self.mods, r'stMATH_WORKER_ITEM17CompleteWorkBlockE')
        if done: ex.hooks[done] = lambda ex, s, a, i: ev(s, ('done',)) if isinstance(a[0], Ptr) and a[0].b == 'item' else None
        def at(ex, s, ins):
            p = ex.val(s, 'ptr', ins.a[0]); v = ex.val(s, ins.ty, ins.a[1])
            f = lay.ifield(p.o.cval())[0] if isinstance(p, Ptr) and p.b == 'item' and p.o.isconst() else None
            if f == 'BlocksCompleted' and ins.x == 'add' and v == c_(1): ev(s, ('done',))
            else: raise Undecided('atomic on %s' % f)
            s.env[ins.d] = A_(ex.fresh('old'))
        ex.hooks['atomicrmw'] = at
        def ind(ex, s, f, a, ins):
            if not isinstance(f, Ptr) or f.b != 'ucb': raise Undecided('call through %s' % (f,))
            ev(s, ('ap', tuple(v for _, v in a)))
            if ins.d is not None: s.env[ins.d] = A_(ex.fresh('ret'))
        ex.hooks['indirect'] = ind
        n = A_('n'); it = lay.item
        mem = {'item': Cells('item', lay.isz, {it['WorkCallbackArg'][0]: (8, Ptr('cbarg', C0), 'ptr'), it['MTWorkCallback'][0]: (8, Ptr('ucb', C0), 'ptr'), it['BlockSize'][0]: (8, c_(1 if self.index else BS), ('i', 64)), it['TotalElements'][0]: (8, n, ('i', 64))})}
        mod = next(m for m in self.mods if m.func(sym))
        st = start(ex, sym, [Ptr('item', C0), A_('core'), A_('wi')], mod=mod, mem=mem)
        st.facts += [ccmp('<=', c_(1) - n), ccmp('<=', -A_('core')), ccmp('<=', A_('core') - MAXW)]
        st.g.update(ev=(), bs=c_(BS), wn=n)
        rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        for o in ex.obls: self.ob(o[0], o[1], str(o[2]))
        if not rs: self.ob('returns', None, 'no path returns')
        for _, t, v in rs:
            out = []
            self.groups(t, t.g['ev'], None, out)
            self.ob('split', any(e[0] == 'noclaim' for e in self.flat(t.g['ev'])), 'returns only when nothing is left to claim')
            for s, wb, ln, ap in out:
                self.ob('split', len(ap) == 1 and ap[0][0] == 'ap', 'each claimed block is processed once')
                if len(ap) != 1: continue
                a = ap[0][1]
                self.ob('operand', isinstance(a[0], Ptr) and a[0].b == 'cbarg' and a[0].o == C0, 'the caller\'s argument is passed')
                want = [wb] if self.index else [wb*BS, ln]
                if len(a) != 2 + len(want): self.ob('operand', None, 'signature'); continue
                for k, w in enumerate(want): self.ob('range', ex.proves(s, ccmp('==', a[2+k] - w)) if isinstance(a[2+k], Poly) else None, 'processes exactly the claimed block: %s must be %s' % (a[2+k], w))
        return self
    def flat(self, evs):
        for e in evs:
            if e[0] == 'rep':
                for _, es in e[1]: yield from self.flat(es)
            else: yield e

class LoopIdx(HSpec):
    """serial fall back: iteration k runs job k"""
    def __init__(self, owner): HSpec.__init__(self); self.owner = owner
    def loop_back(self, ex, t, k, T, s, phis, init, steps, H):
        MemHavoc.loop_back(self, ex, t, k, T, s, phis, init, steps, H)
        if ex.dry: return
        ap = [e for e in t.g.get('ev', ()) if e[0] == 'ap']
        ex.oblige('serial', len(ap) == 1, 'one call per iteration of the serial loop (%d)' % len(ap))
        if len(ap) == 1: self.owner.serial(ex, t, ap[0][1], k)
        ex.oblige('serial', ex.proves(t, ccmp('<=', k + 1 - A_('n'))), 'not more iterations than jobs')
    def loop_havoc(self, ex, r, k, T):
        MemHavoc.loop_havoc(self, ex, r, k, T)
        if k is None: return
        r.g['ev0'] = r.g.get('ev0', ()) + (r.g.get('ev', ()),); r.g['ev'] = ()
    def loop_start(self, ex, h, s, phis, init, steps, k, T): pass
    def loop_exit(self, ex, t, k, T, s):
        e0 = t.g['ev0'][-1]; t.g['ev0'] = t.g['ev0'][:-1]
        ap = [e for e in t.g.get('ev', ()) if e[0] == 'ap']
        done = k + len(ap)
        if not ex.dry:
            for e in ap: self.owner.serial(ex, t, e[1], k)
            ex.oblige('serial', ex.proves(t, ccmp('==', done - A_('n'))), 'the serial loop runs all jobs')
        t.g['ev'] = e0 + (('serial',),)

class DoMT:
    """DoMultiThreadedChunkWork(this, n, cb, arg, wake) / DoMultiThreadedWork"""
    def __init__(self, mods, lay, index, cbsyms): self.mods = mods; self.lay = lay; self.index = index; self.obls = []; self.cbsyms = cbsyms
    def ob(self, k, ok, t): self.obls.append((k, ok, t))
    def serial(self, ex, t, a, k):
        self.ob('serial', isinstance(a[0], Ptr) and a[0].b == 'cbarg', 'serial: the caller\'s argument')
        if self.index: self.ob('serial', len(a) == 3 and isinstance(a[2], Poly) and ex.proves(t, ccmp('==', a[2] - k)), 'serial: iteration k runs job k')
    def run(self, deadline=60):
        lay = self.lay
        sym = regs.finder(self.mods, r'CMathWorker19DoMultiThreadedWorkE' if self.index else r'CMathWorker24DoMultiThreadedChunkWorkE')
        if sym is None: raise Undecided('no such function')
        self.sym = sym
        sp = LoopIdx(self); ex = Ex(self.mods, sp, sym); self.ex = ex; ex.deadline = time.time() + deadline; ex.params = frozenset(['n', 'wake'])
        gw = regs.finder(self.mods, r'CMathWorker16GetWorkItemCountE' if self.index else r'CMathWorker11GetWorkItemE')
        wmn = regs.finder(self.mods, r'CMathWorker8WorkMainE')
        if not gw or not wmn: raise Undecided('reserves work in an unknown way')
        it = lay.item
        def get(ex, s, a, i):
            x = s.copy(); y = s.copy(); y.mem['item'] = Cells('item', lay.isz, {})
            if not self.index: y.facts.append(ccmp('<=', c_(65536) - a[1]))
            ev(y, ('item', a[1]))
            return [(x, Ptr(None, C0)), (y, Ptr('item', C0))]
        ex.hooks[gw] = get
        def main(ex, s, a, i):
            c = s.mem['item'].c if 'item' in s.mem else {}
            g = lambda f: (c.get(it[f][0]) or (0, None))[1]
            ev(s, ('main', tuple(a), g('DoWorkCallback'), g('WorkCallbackArg'), g('MTWorkCallback')))
        ex.hooks[wmn] = main
        def ind(ex, s, f, a, ins):
            if not isinstance(f, Ptr) or f.b != 'ucb': raise Undecided('call through %s' % (f,))
            ev(s, ('ap', tuple(v for _, v in a)))
            if ins.d is not None: s.env[ins.d] = A_(ex.fresh('ret'))
        ex.hooks['indirect'] = ind
        n = A_('n')
        mod = next(m for m in self.mods if m.func(sym))
        st = start(ex, sym, [Ptr('worker', C0), n, Ptr('ucb', C0), Ptr('cbarg', C0), A_('wake')], mod=mod, mem=worker_mem(lay, A_('M')))
        st.facts += [ccmp('<=', c_(1) - n), ccmp('<=', n - (2**31 - 1))]
        st.g['ev'] = ()
        rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        for o in ex.obls: self.ob(o[0], o[1], str(o[2]))
        if not rs: self.ob('returns', None, 'no path returns')
        for _, t, v in rs:
            evs = t.g['ev']
            mt = any(e[0] == 'item' for e in evs)
            ap = [e for e in evs if e[0] == 'ap']; mn = [e for e in evs if e[0] == 'main']
            if not mt:
                self.ob('serial', not mn, 'no work item is run without one')
                if self.index:
                    se = [e for e in evs if e[0] == 'serial']
                    if se: self.ob('serial', len(se) == 1 and not ap, 'the jobs run once')
                    else:
                        self.ob('serial', ex.proves(t, ccmp('==', n - len(ap))), 'all jobs run')
                        for k, e in enumerate(ap): self.serial(ex, t, e[1], c_(k))
                else:
                    self.ob('serial', len(ap) == 1, 'one call covers the range')
                    if len(ap) == 1:
                        a = ap[0][1]
                        self.ob('serial', isinstance(a[0], Ptr) and a[0].b == 'cbarg' and len(a) == 4, 'the caller\'s argument')
                        if len(a) == 4:
                            self.ob('serial', ex.proves(t, ccmp('==', a[2])), 'from element 0'); self.ob('serial', ex.proves(t, ccmp('==', a[3] - n)), 'to the end')
                continue
            self.ob('split', len(mn) == 1 and not ap and not any(e[0] == 'serial' for e in evs), 'a reserved item is run exactly once')
            if len(mn) != 1: continue
            _, a, dw, arg, cb = mn[0]
            self.ob('split', isinstance(a[1], Ptr) and a[1].b == 'item', 'the reserved item is run')
            self.ob('range', ex.proves(t, ccmp('==', a[2] - n)), 'for the whole range')
            self.ob('range', a[4] == c_(1 if self.index else BS) if isinstance(a[4], Poly) else None, 'block size %s' % (a[4],))
            gen = a[5]; g = gen[0] == 'T' if isinstance(gen, tuple) else (gen.cval() == 1 if isinstance(gen, Poly) and gen.isconst() else None)
            self.ob('range', None if g is None else g == (not self.index), 'claiming mode')
            self.ob('split', True if isinstance(dw, Ptr) and dw.b and dw.b[1:] in self.cbsyms else None if isinstance(dw, Ptr) else False, 'the item runs the claiming callback (%s)' % (dw,))
            self.ob('split', isinstance(arg, Ptr) and arg.b == 'cbarg', 'callback argument'); self.ob('split', isinstance(cb, Ptr) and cb.b == 'ucb', 'user callback')
        return self

class Worker:
    """WorkerThreadFunction as the core-th worker"""
    def __init__(self, mods, lay, core): self.mods = mods; self.lay = lay; self.core = core; self.obls = []
    def ob(self, k, ok, t): self.obls.append((k, ok, t))
    def run(self, deadline=60):
        lay = self.lay; core = self.core; me = self
        sym = regs.finder(self.mods, r'WorkerThreadFunctionPv')
        if sym is None: raise Undecided('no worker function')
        self.sym = sym
        q0 = lay.ring['WorkerQueue'][0]
        class S(TSpec):
            def slot(s, ex, st, off):
                r = off - q0
                f = r.cval() % lay.isz if not r.isconst() else r.cval() % lay.isz
                return (r - f).divexact(lay.isz), f
            def ringload(s, ex, st, off, ty):
                if off.isconst() and off.cval() < q0:
                    f, j = lay.rfield(off.cval())
                    v = A_(ex.fresh(f or 'ring'))
                    if f == 'WorkIndex' and j is not None:
                        st.facts.append(ccmp('<=', -v))
                    ev(st, ('rl', f, j, v))
                    return v if ty != 'ptr' else Ptr('ring.%s' % f, C0)
                sl, f = s.slot(ex, st, off)
                if sl is None: raise Undecided('address in the ring: %s' % off)
                name = lay.ifield(f)[0]
                if ty == 'ptr': return Ptr('fn:%s' % name, sl)
                v = A_(ex.fresh(name or 'item')); ev(st, ('il', name, sl, v)); return v
            def ringstore(s, ex, st, off, ty, v): ex.oblige('frame', False, 'a worker stores to the ring (%s)' % off)
            def term(s, ex, key, paths): return True      # the worker serves until the process ends: no termination claim
        sp = S(lay); ex = Ex(self.mods, sp, sym); self.ex = ex; ex.deadline = time.time() + deadline
        sp.hooks(ex); sp.B = A_('B')
        for w in ('printf', 'puts', 'putchar'): ex.hooks[w] = lambda ex, s, a, i: A_(ex.fresh('p'))
        def at(ex, s, ins):
            p = ex.val(s, 'ptr', ins.a[0]); v = ex.val(s, ins.ty, ins.a[1])
            f = lay.rfield(p.o.cval())[0] if isinstance(p, Ptr) and p.b == 'ring' and p.o.isconst() else None
            ex.oblige('frame', f == 'WorkThread' and ins.x == 'add', 'a worker modifies nothing of the ring but the thread counter (%s)' % f)
            s.env[ins.d] = c_(core - 1)
        ex.hooks['atomicrmw'] = at
        me.did = 0
        def ind(ex, s, f, a, ins):
            if ins.d is not None: s.env[ins.d] = A_(ex.fresh('did'))
            if not isinstance(f, Ptr) or f.b != 'fn:DoWorkCallback': raise Undecided('call through %s' % (f,))
            if ex.dry: return
            me.did += 1
            evs = s.g.get('ev', ())
            it, c = a[0][1], a[1][1]
            pool = core//lay.npool if False else core//4
            sl = sp.slot(ex, s, it.o) if isinstance(it, Ptr) and it.b == 'ring' else (None, None)
            ex.oblige('work', sl[0] is not None and sl[1] == 0 and sl[0] == f.o, 'the callback is given its own item')
            ex.oblige('work', isinstance(c, Poly) and ex.proves(s, ccmp('==', c - core)), 'the callback is given this worker\'s core')
            wi = [e for e in evs if e[0] == 'rl' and e[1] == 'WorkIndex' and e[2] is not None]
            wc = [e for e in evs if e[0] == 'rl' and e[1] == 'WorkIndexCompleted']
            ex.oblige('work', bool(wi and wc), 'announcement was looked at')
            if wi and wc and sl[0] is not None:
                oks = [x for x in wi if ex.proves(s, ccmp('==', sl[0] - ex.rem(s, x[3], lay.nq))) is True]
                ex.oblige('work', bool(oks), 'the item that was announced is worked on (slot %s)' % sl[0])
                for x in oks[:1]:
                    ex.oblige('work', x[2] == pool and all(y[2] == pool for y in wc), 'the announcement to the worker\'s own pool %d is used' % pool)
                    ex.oblige('work', any(ex.proves(s, ccmp('<=', y[3] - x[3] + 1)) is True for y in wc), 'only an item that is not finished is worked on')
            tw = [e for e in evs if e[0] == 'il' and e[1] == 'ThreadWakeup' and e[2] == sl[0]]
            ex.oblige('work', bool(tw) and any(ex.proves(s, ccmp('<=', c_(core) - e[3])) is True for e in tw), 'only items for at least %d workers' % core)
        ex.hooks['indirect'] = ind
        mod = next(m for m in self.mods if m.func(sym))
        mem = worker_mem(lay, A_('M'))
        st = start(ex, sym, [Ptr('ring', C0)], mod=mod, mem=mem)
        rs = ex.explore(st, None)
        for o in ex.obls: self.ob(o[0], o[1], 'worker %d: %s' % (core, o[2]))
        self.ob('work', True if self.did else None, 'worker %d works on announced items' % core)
        return self

class Complete:
    """CompleteWorkBlock: one ordered increment of the completion counter and nothing else"""
    def __init__(self, mods, lay): self.mods = mods; self.lay = lay; self.obls = []
    def ob(self, k, ok, t): self.obls.append((k, ok, t))
    def run(self, deadline=60):
        lay = self.lay
        sym = regs.finder(self.mods, r'stMATH_WORKER_ITEM17CompleteWorkBlockE')
        if sym is None: raise Undecided('no such function')
        self.sym = sym
        sp = TSpec(lay); ex = Ex(self.mods, sp, sym); self.ex = ex; ex.deadline = time.time() + deadline; sp.hooks(ex); sp.B = A_('B')
        mod = next(m for m in self.mods if m.func(sym))
        st = start(ex, sym, [Ptr('item', C0), A_('core')], mod=mod, mem={'item': UCells('item', lay.isz, {})})
        st.g['ann'] = True
        rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        for o in ex.obls: self.ob(o[0], o[1], str(o[2]))
        for _, t, v in rs:
            f = [e for e in t.g.get('ev', ()) if e[0] == 'at']
            self.ob('complete', len(f) == 1 and f[0][1] == 'BlocksCompleted' and f[0][3] == 'add' and f[0][4] == c_(1), 'exactly one +1 of the completion counter')
        if not rs: self.ob('returns', None, 'no path returns')
        return self
