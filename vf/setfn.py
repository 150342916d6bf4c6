"""The settings functions under contract: each reads and writes exactly its own setting and returns what it says."""
import time, traceback, z3
from .poly import Poly
from . import ir, kern, regs
from .ex import Ex, Ptr, Cells, Undef, Undecided, C0, TRUE, FALSE, ccmp, bnot, band, bor
from .world import start, GP, PyObj, cstr
from .tspec import TSpec, UCells, worker_mem, ev, A_, c_, MAXW

TRU, FAL, NON = '_Py_TrueStruct', '_Py_FalseStruct', '_Py_NoneStruct'

class SSpec(TSpec):
    def gvar(self, ex, st, n, g):
        return TSpec.gvar(self, ex, st, n, g)

class SetFn:
    """one settings function; the contract is a list of clauses over the state before and the state after"""
    def __init__(self, mods, lay, sett, name): self.mods = mods; self.lay = lay; self.sett = sett; self.name = name; self.obls = []
    def ob(self, k, ok, t): self.obls.append((k, ok, '%s: %s' % (self.name, t)))
    # ---- locations
    def S(self, f): return ('@g_Settings', self.sett[f][0], 4)
    def P(self, f): return ('worker', self.lay.worker['GlobalWorkerParams'][0] + self.lay.par[f][0], 4)
    def Wk(self, f): return ('worker', self.lay.worker[f][0], 4)
    def old(self, loc): return A_('%s+%d:%d' % (loc[0], loc[1], loc[2]*8))
    def new(self, t, loc):
        c = t.mem[loc[0]].c.get(loc[1])
        if c is None: return self.old(loc)
        return c[1] if c[0] == loc[2] else None
    def run(self, deadline=60):
        sym = self.name; name = self.name
        mod = next((m for m in self.mods if m.func(sym)), None)
        if mod is None: raise Undecided('no function ' + sym)
        self.sym = sym
        sp = SSpec(self.lay); ex = Ex(self.mods, sp, sym); self.ex = ex; ex.deadline = time.time() + deadline
        sp.hooks(ex); sp.B = A_('B')
        n = [0]
        def parse(ex, s, a, i):
            x = s.copy(); ev(x, ('parse', 0)); s.g['args'] = ()
            fmt = cstr(ex, s, a[1]).split(':')[0]
            y = s.copy(); out = []
            for k, (ch, p) in enumerate(zip(fmt, a[2:])):
                if ch == 'i':
                    v = A_('arg%d' % k); y.facts += [ccmp('<=', v - (2**31-1)), ccmp('<=', -v - 2**31)]
                    ex.store(y, ('i', 32), v, p, None)
                elif ch == 's': v = Ptr('py:cstr', C0); ex.store(y, 'ptr', v, p, None)
                else: raise Undecided('argument format ' + fmt)
                out.append(v)
            y.g['args'] = tuple(out); ev(y, ('parse', 1))
            return [(x, C0), (y, c_(1))]
        ex.hooks['PyArg_ParseTuple'] = parse
        def long_(ex, s, a, i):
            n[0] += 1; b = 'py:long%d' % n[0]; s.g['long:' + b] = a[0]; return Ptr(b, C0)
        for f in ('PyLong_FromLong', 'PyLong_FromLongLong', 'PyLong_FromSsize_t'): ex.hooks[f] = long_
        gd = regs.finder(self.mods, r'GetFromDictPKci')
        def fromdict(ex, s, a, i):
            ev(s, ('lookup', a[0], a[1]))
            x = s.copy(); y = s.copy(); ev(x, ('entry', 0)); ev(y, ('entry', 1))
            return [(x, Ptr(None, C0)), (y, Ptr('entry', C0))]
        if gd: ex.hooks[gd] = fromdict
        for f in ('_Py_Dealloc', 'Py_DecRef', 'Py_IncRef'): ex.hooks[f] = lambda ex, s, a, i: None
        mem = worker_mem(self.lay, A_('worker+%d:32' % self.P('FutexWakeCount')[1]))
        mem['worker'].c.pop(self.P('FutexWakeCount')[1], None)
        mem['@g_Settings'] = UCells('@g_Settings', 4096, {}); mem['entry'] = UCells('entry', 32, {})
        P = lambda b: Ptr(b, C0)
        st = start(ex, sym, [P('py:self'), P('py:args')], mod=mod, mem=mem)
        wtc = self.old(self.Wk('WorkerThreadCount')); fut = self.old(self.P('FutexWakeCount'))
        # invariants of the settings, established at start up (StartWorkerThreads) and by every function below
        st.facts += [ccmp('<=', c_(1) - wtc), ccmp('<=', wtc - MAXW - 1), ccmp('<=', -fut), ccmp('<=', fut - MAXW), ccmp('<=', fut - wtc + 1)]
        rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        for o in ex.obls: self.ob(o[0], o[1], str(o[2]))
        if not rs: self.ob('returns', None, 'no path returns')
        self.paths = len(rs)
        for _, t, v in rs: self.path(ex, t, v)
        return self
    def ret(self, t, v, want, k='result'):
        """want: a struct name or a Poly"""
        if not isinstance(v, Ptr): self.ob(k, None, 'returns %s' % (v,)); return
        if isinstance(want, str): self.ob(k, v.b is not None and want in v.b, 'returns %s, must be %s' % (v.b, want)); return
        x = t.g.get('long:' + str(v.b))
        self.ob(k, False if x is None else self.ex.proves(t, ccmp('==', x - want)), 'returns the number %s (%s)' % (want, v.b))
    def frame(self, t, allowed):
        """only the given locations may change"""
        al = set(allowed)
        for ob, o in t.mem.items():
            if not isinstance(o, Cells) or ob not in ('@g_Settings', 'worker', 'ring', 'entry'): continue
            for off, (w, v, ty) in o.c.items():
                if (ob, off, w) in al: continue
                if isinstance(v, Ptr): continue
                if ob == 'ring' : continue
                was = A_('%s+%d:%d' % (ob, off, w*8))
                self.ob('frame', self.ex.proves(t, ccmp('==', v - was)) if isinstance(v, Poly) else None, '%s+%d is not changed' % (ob, off))
        for e in t.g.get('ev', ()):
            if e[0] in ('ring', 'ringat'): self.ob('frame', False, 'the work ring is modified')
    def setto(self, t, loc, v, txt):
        x = self.new(t, loc)
        self.ob('effect', self.ex.proves(t, ccmp('==', x - v)) if isinstance(x, Poly) else None, txt)
    def truth(self, t, c): return self.ex.proves(t, c)
    def flag(self, t, v, loc, neg=False):
        z = ccmp('==', self.old(loc))
        a = self.truth(t, z)
        b = self.truth(t, bnot(z)) if a is not True else False
        if a is True: self.ret(t, v, TRU if neg else FAL)
        elif b is True: self.ret(t, v, FAL if neg else TRU)
        else: self.ob('result', None, 'answer not tied to the setting')
    def path(self, ex, t, v):
        n = self.name; S, P, Wk = self.S, self.P, self.Wk
        evs = t.g.get('ev', ())
        parse = [e[1] for e in evs if e[0] == 'parse']
        if n in SIMPLE:
            f, val = SIMPLE[n]
            loc = S(f) if f != 'NoThreading' else Wk(f)
            self.setto(t, loc, c_(val), 'sets %s to %d' % (f, val)) if val else self.setto(t, loc, C0, 'clears %s' % f)
            self.ret(t, v, NON); self.frame(t, [loc]); return
        if n in QUERY:
            f, neg = QUERY[n]
            self.flag(t, v, S(f) if f != 'NoThreading' else Wk(f), neg); self.frame(t, []); return
        if n in ('ledger_info', 'recycler_info'): self.ret(t, v, NON); self.frame(t, []); return
        if n == 'thread_zigzag':
            loc = P('ZigZag'); x = self.new(t, loc)
            self.frame(t, [loc])
            if isinstance(x, Poly):
                self.ob('effect', x.isconst() and x.cval() in (0, 2, 3), 'ZigZag becomes 0, 2 or 3 (%s)' % x)
                self.ret(t, v, TRU if x.isconst() and x.cval() else FAL)
                self.ob('effect', self.truth(t, bor(band(ccmp('==', x), ccmp('!=', self.old(loc))), band(ccmp('!=', x), ccmp('==', self.old(loc))))), 'toggles')
            else: self.ob('effect', None, 'ZigZag')
            return
        if n == 'thread_getworkers':
            self.ret(t, v, self.old(P('FutexWakeCount'))); self.frame(t, []); return
        if n == 'thread_setworkers':
            loc = P('FutexWakeCount'); self.frame(t, [loc])
            if parse == [0]:
                self.setto(t, loc, self.old(loc), 'a rejected argument changes nothing'); self.ob('result', isinstance(v, Ptr) and v.b is None, 'error is passed on'); return
            self.ret(t, v, self.old(loc))
            x = self.new(t, loc)
            if not isinstance(x, Poly): self.ob('effect', None, 'worker count'); return
            wtc = self.old(Wk('WorkerThreadCount')); a = A_('arg0')
            self.ob('effect', self.truth(t, ccmp('<=', -x)), 'at least 0 workers'); self.ob('effect', self.truth(t, ccmp('<=', x - wtc + 1)), 'at most the workers that exist'); self.ob('effect', self.truth(t, ccmp('<=', x - MAXW)), 'at most %d workers' % MAXW)
            ok = band(ccmp('<=', c_(1) - a), ccmp('<=', a - wtc + 1))
            self.ob('effect', self.truth(t, bor(bnot(ok), ccmp('==', x - a))), 'a count within range is taken as it is')
            return
        if n == 'atop_setworkers':
            loc = ('entry', 24, 4)
            off = self.entryoff
            loc = ('entry', off, 4)
            en = [e[1] for e in evs if e[0] == 'entry']
            self.frame(t, [loc])
            x = self.new(t, loc)
            changed = None if not isinstance(x, Poly) else self.truth(t, ccmp('==', x - self.old(loc))) is not True
            if parse == [0]:
                self.ob('effect', changed is False, 'a rejected argument changes nothing'); self.ob('result', isinstance(v, Ptr) and v.b is None, 'error is passed on'); return
            if changed:
                self.ob('effect', en == [1] and self.truth(t, ccmp('==', x - A_('arg2'))) , 'the entry gets the given worker count')
                self.ob('effect', self.truth(t, ccmp('<=', -x)) and self.truth(t, ccmp('<=', x - 63)), 'the worker count is between 0 and 63')
                self.ob('effect', self.truth(t, ccmp('!=', self.old(S('AtopEnabled')))), 'only with acceleration on')
                self.ret(t, v, self.old(loc))
            else:
                # nothing changed: refused, or set to the value it had
                if isinstance(v, Ptr) and FAL not in str(v.b): self.ret(t, v, self.old(loc))
                else:
                    ok = self.truth(t, ccmp('==', self.old(S('AtopEnabled')))) is True or en == [0] or (not en and not parse) or self.truth(t, bor(ccmp('<=', A_('arg2') + 1), ccmp('<=', c_(64) - A_('arg2')))) is True
                    self.ob('effect', True if ok else None, 'refused only with acceleration off, an unknown entry or a count out of range')
            for e in evs:
                if e[0] == 'lookup': self.ob('effect', isinstance(e[1], Ptr) and e[1].b == 'py:cstr' and isinstance(e[2], Poly) and self.truth(t, ccmp('==', e[2] - A_('arg1'))) is True, 'the entry of the given name and type is looked up')
            return
        raise Undecided('no contract')
SIMPLE = {'atop_enable': ('AtopEnabled', 1), 'atop_disable': ('AtopEnabled', 0), 'ledger_enable': ('LedgerEnabled', 1), 'ledger_disable': ('LedgerEnabled', 0),
          'recycler_enable': ('RecyclerEnabled', 1), 'recycler_disable': ('RecyclerEnabled', 0), 'thread_enable': ('NoThreading', 0), 'thread_disable': ('NoThreading', 1)}
QUERY = {'atop_isenabled': ('AtopEnabled', False), 'ledger_isenabled': ('LedgerEnabled', False), 'recycler_isenabled': ('RecyclerEnabled', False), 'thread_isenabled': ('NoThreading', True)}
CTEXT = {n: 'ensures %s == %d, nothing else changed, returns None' % SIMPLE[n] for n in SIMPLE}
CTEXT.update({n: 'ensures returns whether %s is %s, nothing changed' % (QUERY[n][0], 'off' if QUERY[n][1] else 'on') for n in QUERY})
CTEXT.update(thread_zigzag='ensures ZigZag toggled between 0 and on (2, 3), returns whether it is now on, nothing else changed', thread_getworkers='ensures returns the worker count, nothing changed',
             thread_setworkers='requires 0 <= count <= min(14, WorkerThreadCount-1); ensures the same for the new count, equal to the argument when that is in range, returns the previous count; argument error changes nothing',
             atop_setworkers='ensures only MaxThreads of the entry of (name, type) changes, to the argument, and only with acceleration on and 0 <= argument < 64; returns the previous value', ledger_info='ensures nothing changed', recycler_info='ensures nothing changed')

class Reserve:
    """GetWorkItem(len) / GetWorkItemCount(len): a fresh slot of the ring or null"""
    def __init__(self, mods, lay, count): self.mods = mods; self.lay = lay; self.count = count; self.obls = []
    def ob(self, k, ok, t): self.obls.append((k, ok, t))
    def run(self, deadline=60):
        lay = self.lay; q0 = lay.ring['WorkerQueue'][0]
        sym = regs.finder(self.mods, r'CMathWorker16GetWorkItemCountE' if self.count else r'CMathWorker11GetWorkItemE')
        if sym is None: raise Undecided('no such function')
        self.sym = sym
        class Q(TSpec):
            def ringload(s, ex, st, off, ty):
                if off.isconst() and off.cval() < q0:
                    f, j = lay.rfield(off.cval())
                    if ty == 'ptr': return st.mem['ring'].load(ex, st, off, ty, None)
                    v = A_(ex.fresh(f)); ev(st, ('rl', f, j, v)); return v
                raise Undecided('load from a work item')
            def ringstore(s, ex, st, off, ty, v):
                if off.isconst() and off.cval() < q0:
                    ev(st, ('ring', lay.rfield(off.cval())[0], None, v)); return
                r = off - q0; f = r.cval() % lay.isz; sl = (r - f).divexact(lay.isz)
                if sl is None: raise Undecided('store at %s' % off)
                ev(st, ('item', lay.ifield(f)[0], sl, v))
        sp = Q(lay); ex = Ex(self.mods, sp, sym); ex.deadline = time.time() + deadline; self.ex = ex
        sp.hooks(ex); sp.B = A_('B')
        def at(ex, s, ins):
            p = ex.val(s, 'ptr', ins.a[0]); v = ex.val(s, ins.ty, ins.a[1])
            f = lay.rfield(p.o.cval())[0] if isinstance(p, Ptr) and p.b == 'ring' and p.o.isconst() else None
            old = A_(ex.fresh('old')); ev(s, ('at', f, ins.x, v, old)); s.env[ins.d] = old
        ex.hooks['atomicrmw'] = at
        mod = next(m for m in self.mods if m.func(sym))
        nt = A_('worker+%d:32' % lay.worker['NoThreading'][0])
        st = start(ex, sym, [Ptr('worker', C0), A_('n')], mod=mod, mem=worker_mem(lay, A_('M')))
        rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        for o in ex.obls: self.ob(o[0], o[1], str(o[2]))
        if not rs: self.ob('returns', None, 'no path returns')
        zz = A_('worker+%d:32' % (lay.worker['GlobalWorkerParams'][0] + lay.par['ZigZag'][0]))
        for _, t, v in rs:
            evs = t.g.get('ev', ())
            at = [e for e in evs if e[0] == 'at']; it = [e for e in evs if e[0] == 'item']; rg = [e for e in evs if e[0] == 'ring']
            mw = [e for e in at if e[1] == 'MainWorkIndex']; lk = [e for e in at if e[1] == 'ExclusiveLock']
            if not isinstance(v, Ptr): self.ob('result', None, 'result'); continue
            took = [e for e in lk if ex.proves(t, ccmp('==', e[4])) is True]
            rel = [e for e in rg if e[1] == 'ExclusiveLock']
            if took: self.ob('lock', len(rel) == 1 and isinstance(rel[0][3], Poly) and rel[0][3] == C0 and evs.index(rel[0]) > evs.index(took[0]), 'the lock is released once on every path that took it')
            else: self.ob('lock', not rel, 'the lock is not released by someone who does not hold it')
            for e in lk: self.ob('lock', e[2] == 'or' and e[3] == c_(1) or e[2] == 'xchg' and e[3] == c_(1), 'the lock is taken atomically')
            if v.b is None:
                self.ob('result', True, 'null'); self.ob('frame', not it and not mw, 'a refused reservation takes no slot')
                continue
            self.ob('off', ex.proves(t, ccmp('==', nt)), 'no work item with threading off')
            if not self.count:
                self.ob('small', ex.proves(t, ccmp('<=', c_(65536) - A_('n'))), 'no work item for fewer than 65536 elements')
                self.ob('lock', bool(took), 'the item is taken under the lock (threading inside threading)')
                if took and rel:
                    self.ob('lock', all(evs.index(took[0]) < evs.index(e) < evs.index(rel[0]) for e in mw + it), 'the item is taken while the lock is held')
            self.ob('slot', len(mw) == 1 and mw[0][2] == 'add' and mw[0][3] == c_(1), 'one new work index')
            if len(mw) != 1: continue
            wi = mw[0][4] + 1
            r = (v.o - q0).divexact(lay.isz) if v.b == 'ring' else None
            self.ob('slot', None if r is None else ex.proves(t, ccmp('==', r - ex.rem(t, wi, lay.nq))), 'the slot of the new index is returned')
            if r is None: continue
            f = {e[1]: e for e in it}
            for e in it: self.ob('slot', ex.proves(t, ccmp('==', e[2] - r)), 'only the reserved slot is written')
            self.ob('slot', 'WorkIndex' in f and ex.proves(t, ccmp('==', f['WorkIndex'][3] - wi)), 'the item knows its index')
            z = f.get('ZigZag')
            self.ob('slot', z is not None and ex.proves(t, ccmp('==', z[3] - zz)), 'the claiming strategy is fixed for the item')
            for e in rg:
                if e[1] != 'ExclusiveLock': self.ob('frame', False, 'ring field %s written' % e[1])
        return self

class StartThreads:
    """StartWorkerThreads: establishes 0 <= FutexWakeCount <= WorkerThreadCount-1"""
    def __init__(self, mods, lay): self.mods = mods; self.lay = lay; self.obls = []
    def ob(self, k, ok, t): self.obls.append((k, ok, t))
    def run(self, deadline=60):
        lay = self.lay
        sym = regs.finder(self.mods, r'CMathWorker18StartWorkerThreadsE')
        if sym is None: raise Undecided('no such function')
        self.sym = sym
        par = lay.worker['GlobalWorkerParams'][0]
        for wtc in range(1, 16):
            sp = TSpec(lay); ex = Ex(self.mods, sp, sym); self.ex = ex; ex.deadline = time.time() + deadline; sp.hooks(ex); ex.unroll_multi = True; sp.B = A_('B')
            s_ = regs.finder(self.mods, r'^_Z11StartThreadP')
            if s_ is None:
                for m in self.mods:
                    for d in m.decls:
                        if 'StartThread' in d: s_ = d
            if s_ is None: raise Undecided('starts threads in an unknown way')
            ex.hooks[s_] = lambda ex, s, a, i: (ev(s, ('thread', a[0])), A_(ex.fresh('h')))[1]
            cells = {lay.worker['WorkerThreadCount'][0]: (4, c_(wtc), ('i', 32))}
            for f in ('LogicalProcessorCount', 'ProcessorCoreCount'): cells[lay.worker[f][0]] = (8, C0, ('i', 64))
            mem = worker_mem(lay, A_('M'), cells)
            mod = next(m for m in self.mods if m.func(sym))
            st = start(ex, sym, [Ptr('worker', C0), A_('node')], mod=mod, mem=mem)
            st.facts += [ccmp('<=', -A_('M')), ccmp('<=', A_('M') - MAXW)]
            rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
            for o in ex.obls: self.ob(o[0], o[1], str(o[2]))
            if not rs: self.ob('returns', None, 'no path returns')
            for _, t, v in rs:
                x = t.mem['worker'].c.get(par + lay.par['FutexWakeCount'][0])
                x = x[1] if x else None
                self.ob('effect', ex.proves(t, band(ccmp('<=', -x), ccmp('<=', x - wtc + 1))) if isinstance(x, Poly) else None, '%d workers: the number woken is within the workers that exist' % wtc)
                th = [e for e in t.g.get('ev', ()) if e[0] == 'thread']
                self.ob('effect', len(th) <= wtc, '%d workers: at most that many threads are started' % wtc)
                for e in th: self.ob('effect', isinstance(e[1], Ptr) and e[1].b == 'ring', 'a worker serves the ring')
        return self
