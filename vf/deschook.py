"""The hooked type slots (sort, argsort, argmin/argmax, range fill) under contract.

For every registered slot (type t, slot o) called with arbitrary arguments, array shape, strides and settings: exactly one of
  old   the function found in that slot before, on exactly the caller's arguments, whose result is returned
  acc   the accelerated routine, on the caller's buffer, for the type and kind of the slot; if it declines (result < 0) old
"""
import time, z3
from . import ir, regs
from .ex import Ex, Ptr, Cells, Undef, Undecided, C0, TRUE, FALSE, ccmp, bnot, band, bor
from .world import start, PyObj
from .hookrun import HSpec, ev, A_, c_, ISZ
from .poly import Poly as Poly_
SLOT = {264: ('sort', 0), 272: ('sort', 1), 280: ('sort', 2), 288: ('argsort', 0), 296: ('argsort', 1), 304: ('argsort', 2), 208: ('argminmax', 0), 368: ('argminmax', 1), 248: ('arange', 0)}
ATOP = {0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 9: 7, 10: 8, 11: 12, 12: 13}
TEXT = {
 'sort': 'requires length>=0, data: length native elements of the type, an array of the type of any shape, byte order, alignment and strides; ensures the original sort of this slot runs once on exactly the caller\'s arguments and its result is returned, or Sort(mode, type, data, length, size, size, data, size) does the work, with a stable mode where a stable one is asked for; reads nothing outside the array\'s shape and strides',
 'argsort': 'as the sort slot: the original argsort on exactly the caller\'s arguments, or SortIndex64(no cut-offs, data, length, indices, mode, type, size)',
 'argminmax': 'the original function of this slot, once, on exactly the caller\'s arguments',
 'arange': 'requires length>=3; the original fill of this slot on exactly the caller\'s arguments, or ArangeFill(type, buffer, first=buffer, second=buffer+size, length)',
}
class ArrObj:
    """a NumPy array object of type t; dims and strides are arrays of nd elements"""
    def __init__(self, n): self.n = n
    def load(self, ex, st, off, ty, x):
        if not off.isconst(): raise Undecided('array field')
        o = off.cval()
        if o == 24 and ir.size(ty) == 4: return A_('nd')
        if o in (16, 32, 40, 56): return Ptr({16: 'arrdata', 32: 'shape', 40: 'strides', 56: 'descr'}[o], C0)
        if o in (0, 4): return c_(-1)
        if o == 64: return A_('arrflags')
        raise Undecided('array field %d' % o)
    def store(self, *a): raise Undecided('store to array object')
class ShapeObj:
    def __init__(self, n): self.n = n
    def load(self, ex, st, off, ty, x):
        if not off.isconst():
            if any(c % 8 for c in off.m.values()): raise Undecided('%s at %s' % (self.n, off))
            ex.oblige('bounds', ex.proves(st, band(ccmp('<=', -off), ccmp('<=', off + 8 - A_('nd')*8))), '%s at %s exists' % (self.n, off))
            v = A_(ex.fresh(self.n))
            if self.n == 'shape': st.facts.append(ccmp('<=', -v))
            return v
        if off.cval() % 8: raise Undecided('%s at %s' % (self.n, off))
        k = off.cval()//8
        ok = ex.proves(st, ccmp('<=', c_(k + 1) - A_('nd'))) if k >= 0 else False
        ex.oblige('bounds', ok, '%s[%d] of the array exists' % (self.n, k))
        v = A_('%s%d' % (self.n, k))
        if self.n == 'shape': st.facts.append(ccmp('<=', -v))
        return v
    def store(self, *a): raise Undecided('store to ' + self.n)
class DescrObj:
    def __init__(self, t): self.t = t
    def load(self, ex, st, off, ty, x):
        o = off.cval() if off.isconst() else None
        if o == 28: return c_(self.t)
        if o == 32: return c_(ISZ[self.t])
        if o == 36: return c_(ISZ[self.t])
        if o in (0, 4): return c_(-1)
        if o in (24, 25, 26, 27): return A_('descr%d' % o)
        raise Undecided('descr field %s' % off)
    def store(self, *a): raise Undecided('store to descr')
class DSpec(HSpec):
    def __init__(self, t): HSpec.__init__(self); self.t = t
    def obj(self, ex, st, p):
        if p.b == 'arr': return ArrObj('arr')
        if p.b in ('shape', 'strides'): return ShapeObj(p.b)
        if p.b == 'descr': return DescrObj(self.t)
        return HSpec.obj(self, ex, st, p)

class DescHook:
    def __init__(self, I, t, off, sym, fix=(None, None)):
        self.I = I; self.t = t; self.off = off; self.sym = sym; self.fix = fix; self.obls = []
        self.what, self.kind = SLOT[off]
    def ob(self, kind, ok, txt): self.obls.append((kind, ok, txt))
    def run(self, deadline=60):
        I = self.I; mods = I.mods
        sp = DSpec(self.t); ex = Ex(mods, sp, self.sym); self.ex = ex; ex.deadline = time.time() + deadline
        H = ex.hooks
        def old(t, o):
            def f(ex, s, a, i):
                r = A_(ex.fresh('oldret')); ev(s, ('old', t, o, tuple(a), r)); return r
            return f
        for t in ISZ:
            for o in SLOT: H['oldf:%d:%d' % (t, o)] = old(t, o)
        def acc(name):
            def f(ex, s, a, i):
                r = A_(ex.fresh('accret')); out = []
                for neg in (False, True):
                    x = s.copy(); x.facts.append(ccmp('<=', r + 1) if neg else ccmp('<=', -r))
                    ev(x, ('acc', name, tuple(a), r, neg)); out.append((x, r))
                return out
            return f
        for f in ('Sort', 'SortIndex64', 'SortIndex32', 'ArangeFill'): H[f] = acc(f)
        lr = None
        for m in mods:
            for d in list(m.decls) + list(m.ftext):
                if '13LedgerRecord2' in d: lr = d
        if lr: H[lr] = lambda ex, s, a, i: ev(s, ('ledger', tuple(a)))
        H['llvm.x86.rdtsc'] = lambda ex, s, a, i: A_(ex.fresh('tsc'))
        for k in ('printf', 'puts', 'putchar', 'fflush'): H[k] = lambda ex, s, a, i: C0
        mem = dict(I.st.mem)
        atop, ledger = A_('atop'), A_('ledger'); n = A_('n')
        facts = [ccmp('<=', (c_(3) if self.what == 'arange' else C0) - n), ccmp('<=', -A_('nd')), ccmp('<=', A_('nd') - 32)]
        for x, f in zip((atop, ledger), self.fix):
            facts += [ccmp('<=', -x), ccmp('<=', x - 1)]
            if f is not None: facts.append(ccmp('==', x - f))
        mem['@g_Settings'] = Cells('@g_Settings', 4096, {I.sett['AtopEnabled'][0]: (4, atop, ('i', 32)), I.sett['LedgerEnabled'][0]: (4, ledger, ('i', 32))})
        P = lambda b: Ptr(b, C0)
        self.args = {'sort': [P('data'), n, P('arr')], 'argsort': [P('data'), P('ix'), n, P('arr')], 'argminmax': [P('data'), n, P('ix'), P('arr')], 'arange': [P('data'), n, P('unused')]}[self.what]
        ex.params = frozenset(['n', 'nd', 'atop', 'ledger'])
        st = start(ex, self.sym, list(self.args), mod=next((m for m in mods if m.func(self.sym)), None), mem=mem)
        st.facts += [f for f in facts if f[0] != 'T']; st.g['ev'] = ()
        rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        self.obls += [(o[0], o[1], str(o[2])) for o in ex.obls]
        if not rs: self.ob('returns', None, 'no path returns')
        for _, t, v in rs: self.path(t, v)
        return self
    def eq(self, t, a, b):
        if isinstance(b, Ptr):
            if not isinstance(a, Ptr): return None
            if a.b != b.b: return False
            return self.eq(t, a.o, b.o)
        if not isinstance(a, Poly_): return None
        d = self.ex.norm(t, a - b)
        if d.isconst(): return d.cval() == 0
        return self.ex.proves(t, ccmp('==', d))
    def path(self, t, v):
        ex = self.ex; sett = t.mem['@g_Settings']; g = self.I.sett
        for f, w in (('AtopEnabled', 'atop'), ('LedgerEnabled', 'ledger')):
            c = sett.c.get(g[f][0])
            self.ob('settings', self.eq(t, c[1], A_(w)) if c else None, '%s is as before the call' % f)
        evs = list(t.g['ev'])
        led = [e for e in evs if e[0] == 'ledger']; evs = [e for e in evs if e[0] != 'ledger']
        if ex.proves(t, ccmp('==', A_('ledger') - 1)) is True:
            self.ob('ledger', len(led) == 1, 'one record per call with the ledger on (%d)' % len(led))
            for e in led: self.ob('ledger', self.eq(t, e[1][4], A_('n')), 'the record is given the length')
        elif ex.proves(t, ccmp('==', A_('ledger'))) is True: self.ob('ledger', not led, 'no record with the ledger off')
        acc = [e for e in evs if e[0] == 'acc']; old = [e for e in evs if e[0] == 'old']
        if ex.proves(t, ccmp('==', A_('atop'))) is True: self.ob('disabled', not acc, 'with acceleration off only the original function runs')
        self.ob('route', len(old) + sum(1 for e in acc if not e[4]) == 1 and len(acc) <= 1, 'exactly one computation: %s' % [e[0] + (':declined' if e[0] == 'acc' and e[4] else '') for e in evs])
        for e in old:
            self.ob('route', regs.SEM.get(e[1]) is not None and (regs.SEM.get(e[1]), e[2]) == (regs.SEM.get(self.t), self.off), 'the original function of type %d slot %d, called type %d slot %d' % (self.t, self.off, e[1], e[2]))
            for k, (a, w) in enumerate(zip(e[3], self.args)): self.ob('operand', self.eq(t, a, w), 'original function: argument %d is %s, must be %s' % (k, a, w))
            self.ob('result', self.eq(t, v, e[4]) if isinstance(v, Poly_) else None, 'the original function\'s result is returned')
        for e in acc:
            self.accelerated(t, e)
            if not e[4]:
                ok = self.eq(t, v, e[3]) if isinstance(v, Poly_) else None
                if ok is not True and self.eq(t, v, C0) is True: ok = True
                self.ob('result', ok, 'success is returned after the accelerated routine succeeded')
    def accelerated(self, t, e):
        _, name, a, r, neg = e
        isz = c_(ISZ[self.t]); n = A_('n'); data = Ptr('data', C0)
        want = {'sort': 'Sort', 'argsort': 'SortIndex64', 'arange': 'ArangeFill'}.get(self.what)
        self.ob('route', name == want, '%s for the %s slot' % (name, self.what))
        if name != want: return
        def arg(k, w, txt): self.ob('operand', self.eq(t, a[k], w), '%s: %s is %s, must be %s' % (name, txt, a[k], w))
        at = c_(ATOP[self.t])
        def mode(m):
            if not isinstance(m, Poly_) or not m.isconst(): self.ob('operand', None, 'sort mode'); return
            self.ob('operand', m.cval() == 2 if self.kind == 2 else 0 <= m.cval() <= 2, '%s: mode %d for kind %d' % (name, m.cval(), self.kind))
        if name == 'Sort':
            mode(a[0]); arg(1, at, 'type'); arg(2, data, 'source'); arg(3, n, 'length'); arg(4, isz, 'source stride'); arg(5, isz, 'item size'); arg(6, data, 'result'); arg(7, isz, 'result stride')
        elif name == 'SortIndex64':
            self.ob('operand', isinstance(a[0], Ptr) and a[0].b is None or self.eq(t, a[1], C0), 'no partitions')
            arg(2, data, 'keys'); arg(3, n, 'length'); arg(4, Ptr('ix', C0), 'indices'); mode(a[5]); arg(6, at, 'type'); arg(7, isz, 'item size')
        else:
            arg(0, at, 'type'); arg(1, data, 'buffer'); arg(2, data, 'first value'); arg(3, Ptr('data', isz), 'second value'); arg(4, n, 'length')
