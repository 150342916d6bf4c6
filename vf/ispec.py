"""I01: initialisation.  atop_init, the type tables and newinit are closed programs: they are executed symbolically on the
one state they start from (no free input except where named), and their postconditions are obligations on the state they leave."""
import time, traceback, json, subprocess, os
import numpy as np
from . import build, ir, kern, kcheck, regs, world, hcheck, hookrun, deschook
from .ex import Ex, Ptr, Cells, Undecided, C0, TRUE, FALSE, ccmp, bnot, band, bor
from .world import World, start
from .poly import Poly
c_ = Poly.const
A_ = Poly.atom
TEXT = {
 'atop_init': 'requires the library is not initialised; ensures for every mask m, byte j: table64[m] byte j == bit j of m, table32 likewise for 4 bits, the inverse tables hold 1 - that bit; the workers are started after the tables are complete',
 'again': 'requires the library is initialised; ensures FALSE is returned and nothing changes',
 'dtype_to_atop': 'for every int d: the element type of the same kind and size as NumPy type d when there is one, otherwise -1',
 'tables': 'for every element type with a NumPy counterpart: the NumPy type has the same kind and size, and the item size is that size',
 'newinit': 'requires AVX2; ensures every replaced loop exists in NumPy with exactly the signature given, no loop is replaced twice, and what is remembered for it is the loop that was there',
 'newinit2': 'requires the package is initialised; ensures nothing is replaced or forgotten by initialising again',
 'loop': 'with acceleration disabled the registered loop calls the remembered original of exactly its own ufunc and type',
}
# element type number -> (kind, size) as the enumeration documents it
ATOP = {0: ('b', 1), 1: ('i', 1), 2: ('u', 1), 3: ('i', 2), 4: ('u', 2), 5: ('i', 4), 6: ('u', 4), 7: ('i', 8), 8: ('u', 8), 11: ('f', 2), 12: ('f', 4), 13: ('f', 8), 14: ('f', 16), 16: ('c', 8), 17: ('c', 16), 18: ('c', 32), 19: ('S', 1), 20: ('U', 4), 21: ('V', 0)}
def numpy_types():
    """NumPy's own answer: type number -> (kind, size), from the interpreter the package runs in"""
    code = r'''
import numpy as np, json
t = {}
for i in range(24):
    c = '?bBhHiIlLqQfdgFDGOSUVMme'[i]
    d = np.dtype(c); assert d.num == i
    t[i] = (d.kind, d.itemsize if c not in 'SUV' else {'S': 1, 'U': 4, 'V': 0}[c])
u = {n: getattr(np, n).types for n in dir(np) if isinstance(getattr(np, n), np.ufunc)}
num = {c: np.dtype(c).num for c in '?bBhHiIlLqQfdgFDGOSUVMme'}
print(json.dumps([t, u, num]))
'''
    r = subprocess.run([build.PY, '-c', code], capture_output=True, text=True, timeout=120, cwd='/', env={'PATH': os.environ.get('PATH', '')})
    t, u, num = json.loads(r.stdout)
    return {int(k): tuple(v) for k, v in t.items()}, u, num
def guard(f):
    try: f(); return None
    except Undecided as e: return str(e)[:200]
    except Exception: return 'internal: ' + traceback.format_exc()[-300:]
def addint(st, tab, n, size):
    return None
def init_tables(M, deadline):
    """atop_init -> (obligations, symbol)"""
    ob = []
    W = World(); ex = Ex([M], W, 'atop_init'); ex.concrete = True; ex.params = frozenset(); ex.deadline = time.time() + deadline
    started = []
    tabs = (('gBooleanLUT64', 256, 8, 0), ('gBooleanLUT64Inverse', 256, 8, 1), ('gBooleanLUT32', 16, 4, 0), ('gBooleanLUT32Inverse', 16, 4, 1))
    def check(st):
        bad = []
        for name, n, w, inv in tabs:
            for i in range(n):
                v = ex.load(st, ('i', 8*w), Ptr('@' + name, c_(i*w)), None)
                if not (isinstance(v, Poly) and v.isconst()): raise Undecided('%s[%d] is not constant' % (name, i))
                want = sum((((i >> j) & 1) ^ inv) << (8*j) for j in range(w))
                if (v.cval() - want) % (1 << (8*w)): bad.append('%s[%d] == %#x, must be %#x' % (name, i, v.cval() % (1 << (8*w)), want))
        return bad
    def workers(ex, s, a, i): started.append(check(s)); return C0
    for f in list(M.ftext) + list(M.decls):
        if 'CMathWorkerC' in f: ex.hooks[f] = lambda ex, s, a, i: None
        elif 'StartWorkerThreads' in f: ex.hooks[f] = workers
        elif f in ('_Znwm', '_Znam'): ex.hooks[f] = lambda ex, s, a, i: Ptr('heap', C0)
        elif f in ('printf', 'puts'): ex.hooks[f] = lambda ex, s, a, i: C0
    r = [x for x in ex.explore(start(ex, 'atop_init', []), None) if x[0] == 'ret']
    ob.append(('reach', True if len(r) == 1 else False, 'initialisation returns'))
    for _, t, v in r:
        bad = check(t)
        for name, n, w, inv in tabs:
            b = [x for x in bad if x.startswith(name + '[')]
            ob += [('table', True, name)]*(n - len(b)) + [('table', False, x) for x in b[:4]]
        ob.append(('order', True if started and not any(started) else False, 'the tables are complete before the workers start'))
        ob.append(('result', True if isinstance(v, Poly) and v.isconst() and v.cval() % (1 << 32) not in (0,) else False, 'the first call reports success'))
        # a second call
        n0 = len(started); m0 = t.mem
        st = start(ex, 'atop_init', [], mem=dict(t.mem))
        for _, t2, v2 in [x for x in ex.explore(st, None) if x[0] == 'ret']:
            ob.append(('again', True if isinstance(v2, Poly) and v2.isconst() and v2.cval() == 0 and len(started) == n0 and not check(t2) else False, 'a second call changes nothing'))
    return ob
def kindsize(nt, d): return nt.get(d)
def type_map(I, nt, deadline):
    """dtype_to_atop for every int, and the tables"""
    mods = I.mods
    sym = regs.finder(mods, r'^_?Z?\d*dtype_to_atop') or regs.finder(mods, r'dtype_to_atopi$')
    ob = []
    if not sym: return ob, 'dtype_to_atop', 'no such function'
    mod = next(m for m in mods if m.func(sym))
    W = World()
    def one(facts, d):
        ex = Ex(mods, W, sym); ex.params = frozenset(['d']); ex.deadline = time.time() + deadline; ex.concrete = d.isconst()
        st = start(ex, sym, [d], mod=mod); st.facts += facts
        return ex, [x for x in ex.explore(st, None) if x[0] == 'ret']
    for facts, tx in (([ccmp('<=', A_('d') + 1), ccmp('<=', -A_('d') - 2**31)], 'negative'), ([ccmp('<=', c_(max(nt) + 1) - A_('d')), ccmp('<=', A_('d') - (2**31 - 1))], 'beyond the NumPy types')):
        ex, rs = one(facts, A_('d'))
        for _, t, v in rs: ob.append(('type', ex.proves(t, ccmp('==', v + 1)) if isinstance(v, Poly) else False, 'type numbers %s have no element type' % tx))
        ob.append(('reach', True if rs else False, 'returns for type numbers %s' % tx))
    for d in nt:
        ex, rs = one([], c_(d))
        for _, t, v in rs:
            if not (isinstance(v, Poly) and v.isconst()): raise Undecided('result for type %d' % d)
            x = v.cval()
            if x >= 2**31: x -= 2**32
            want = nt[d]
            has = [a for a in ATOP if ATOP[a] == want] if want[0] not in 'OMm' else []
            ob.append(('type', (x in has) if has else x == -1, 'NumPy type %d (%s%d) is element type %d' % (d, want[0], want[1], x)))
    return ob, sym, None
def tables(I, nt):
    ob = []
    for a, (k, s) in ATOP.items():
        d = I.rd('convert_atop_to_dtype', 4*a, ('i', 32)); z = I.rd('convert_atop_to_itemsize', 4*a, ('i', 32))
        for v in (d, z):
            if not (isinstance(v, Poly) and v.isconst()): raise Undecided('type table %d' % a)
        ob.append(('type', nt.get(d.cval()) == (k, s), 'element type %d is NumPy type %d (%s), must be %s%d' % (a, d.cval(), nt.get(d.cval()), k, s)))
        ob.append(('size', z.cval() == s, 'item size of element type %d is %d, must be %d' % (a, z.cval(), s)))
    return ob
def registered(I, ut, num):
    """every replaced loop exists, once, with exactly this signature"""
    ob = []; seen = set()
    for u, sym, sg in I.loops:
        T = ut.get(u)
        if T is None: ob.append(('signature', False, '%s is not a ufunc' % u)); continue
        n = len(T[0].replace('->', ''))
        have = {tuple(num[c] for c in x.replace('->', '')) for x in T}
        ob.append(('signature', tuple(sg[:n]) in have, '%s has a loop for %s' % (u, sg[:n])))
        ob.append(('once', (u, tuple(sg[:n])) not in seen, '%s %s is replaced once' % (u, sg[:n])))
        seen.add((u, tuple(sg[:n])))
        ob.append(('installed', sym is not None, '%s %s is replaced by a function' % (u, sg[:n])))
    sl = set()
    for t, off, sym in I.desc:
        ob.append(('once', (t, off) not in sl, 'slot %d of type %d is replaced once' % (off, t))); sl.add((t, off))
        ob.append(('installed', sym is not None and off in deschook.SLOT, 'slot %d of type %d is replaced by a function' % (off, t)))
    return ob
def again(I):
    """a second newinit on the state the first one left"""
    ex = I.ex; ex.deadline = time.time() + 60
    n1, n2 = len(I.loops), len(I.desc)
    before = {k: dict(v.c) for k, v in I.st.mem.items() if k.startswith(('@', 'funcs:')) and hasattr(v, 'c')}
    ob = []
    r = [x for x in ex.explore(start(ex, 'newinit', [Ptr('py:self', C0), Ptr('py:args', C0), Ptr('py:kw', C0)], mem=dict(I.st.mem)), None) if x[0] == 'ret']
    ob.append(('reach', True if r else False, 'initialising again returns'))
    ob.append(('again', len(I.loops) == n1 and len(I.desc) == n2, 'initialising again replaces nothing (%d loops, %d slots)' % (len(I.loops) - n1, len(I.desc) - n2)))
    del I.loops[n1:]; del I.desc[n2:]
    for _, t, v in r:
        diff = [k for k, c in before.items() if hasattr(t.mem.get(k), 'c') and {o: str(x) for o, x in t.mem[k].c.items()} != {o: str(x) for o, x in c.items()}]
        ob.append(('again', not diff, 'initialising again changes no table %s' % diff[:3]))
    return ob
def off(I, sett):
    """the state after newinit, acceleration and ledger off"""
    o = dict(I.st.mem)
    W = I.w
    st = I.st.copy()
    for f in ('AtopEnabled', 'LedgerEnabled'): I.ex.store(st, ('i', 32), C0, Ptr('@g_Settings', c_(sett[f][0])), None)
    return st
def loops(I, sett):
    """every registered loop, run with acceleration off on concrete operands: which original is called"""
    out = []
    keep = I.st; I.st = off(I, sett)
    try:
        for u, sym, sg in I.loops:
            if sym is None: continue
            und = None; ob = []
            for mode in ('elem', 'reduce') if regs.is_binary(u) else ('elem',):
                try: evs = regs.run_stub(I, sym, 3 if regs.is_binary(u) else 2, mode)
                except Undecided as e: und = str(e)[:200]; continue
                except Exception: und = 'internal: ' + traceback.format_exc()[-300:]; continue
                ok = len(evs) == 1 and evs[0][0] == 'old'
                name = evs[0][1] if evs else 'nothing'
                if ok:
                    _, ou, ot = name.split(':')
                    ok = ou == u and regs.SEM.get(int(ot)) == regs.SEM.get(sg[0])
                ob.append(('fallback', bool(ok), '%s type %d (%s) calls %s' % (u, sg[0], mode, name)))
            out.append((u, sym, sg, ob, und))
    finally: I.st = keep
    return out
def run_i01(R):
    w = build.Work()
    dl = 100 if R.tier == 'quick' else 400
    NI = w.ir(['atop'], ['-fno-inline', '-Dalways_inline=noinline'])
    am = ir.Module(NI['atop'], 'atop')
    nt, ut, num = numpy_types()
    ob = []; und = None
    try: ob = init_tables(am, dl)
    except Undecided as e: und = str(e)[:200]
    R.function('atop_init', TEXT['atop_init'] + '; second call: ' + TEXT['again'], ob, und, 0, '')
    S = hcheck.setup(R); I = S[2]
    for p in S[3]: R.undecided.append((p[2], 'registered loop of %s: %s' % (p[0], p[3])))
    try: ob, sym, und = type_map(I, nt, dl)
    except Undecided as e: ob, sym, und = [], 'dtype_to_atop', str(e)[:200]
    R.function(sym, TEXT['dtype_to_atop'], ob, und, 0, '')
    try: ob, und = tables(I, nt), None
    except Undecided as e: ob, und = [], str(e)[:200]
    R.function('convert_atop_to_dtype, convert_atop_to_itemsize', TEXT['tables'], ob, und, 0, '')
    R.function('newinit', TEXT['newinit'], registered(I, ut, num), None, 0, '')
    for u, sym, sg, ob, und in loops(I, I.sett): R.function('%s[%s:%d]' % (sym, u, sg[0]), TEXT['loop'], ob, und, 0, '%s type %d ' % (u, sg[0]))
    hcheck.slots(R, I, fix=(0, 0), kinds=None)
    try: ob, und = again(I), None
    except Undecided as e: ob, und = [], str(e)[:200]
    R.function('newinit (second call)', TEXT['newinit2'], ob, und, 0, '')
    hcheck.concrete(R, w, [('initial', 'acceleration off, every hooked ufunc and slot, short arrays; comparison tables')], 30)
    R.assume = [a for a in R.assume if a not in hcheck.ASSUME] + ['the processor has AVX2 (without it nothing is installed)', 'the two 64 bit integer types of NumPy (long, long long) share one remembered original per operation: they are the same computation on this platform']
