"""Which kernel runs for which registered (ufunc, dtype): the registered loops executed on the tables that initialisation leaves behind."""
import re, time
from .poly import Poly
from . import ir, kern
from .ex import Ex, Ptr, Cells, C0, Undecided
from .world import World, start
SEM = {0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 9: 7, 10: 8, 11: 12, 12: 13}   # numpy type number -> element type on this platform
WORLDMODS = ['_pnumpy', 'ops_binary', 'ops_compare', 'ops_unary', 'ops_trig', 'ops_log', 'common', 'threads', 'ledger', 'atop']
OPSMODS = ('ops_binary', 'ops_compare', 'ops_unary', 'ops_trig', 'ops_log')
UNARYN = 1

def finder(mods, pat):
    for m in mods:
        for f in m.ftext:
            if re.search(pat, f): return f
    return None

def opsfuncs(mods):
    out = {}
    for m in mods:
        if m.name in OPSMODS:
            for f in m.ftext: out[f] = m
    return out

def run_stub(I, sym, nargs, mode):
    """events of one registered loop on concrete arguments: mode 'elem' (disjoint arrays) or 'reduce'"""
    mods = I.mods
    w = World(); ex = Ex(mods, w, sym); ex.concrete = True; ex.params = frozenset(); ex.deadline = time.time() + 20
    ops = opsfuncs(mods)
    ev = []
    for f in ops:
        ex.hooks[f] = (lambda name: lambda ex, s, a, i: ev.append(('kernel', name, a)) or C0)(f)
    gw = finder(mods, r'CMathWorker11GetWorkItemE')
    if gw: ex.hooks[gw] = lambda ex, s, a, i: Ptr(None, C0)
    for n in ('_Z7FmAllocm',): ex.hooks[n] = lambda ex, s, a, i: Ptr('heap', C0)
    def other(ex, s, f, a, ins): raise Undecided('indirect call')
    ex.hooks['indirect'] = other
    mem = dict(I.st.mem)
    def oldhook(name): return lambda ex, s, a, i: ev.append(('old', name, a)) or C0
    names = set()
    for u, s_, sg in I.loops:
        o = 'old:%s:%s' % (u, sg[0]); names.add(o)
    for o in names: ex.hooks[o] = oldhook(o)
    P = lambda n: Ptr(n, C0)
    bufs = {'A': 64, 'B': 64, 'C': 64}
    for b in bufs: mem[b] = Cells(b, 64)
    A = Cells('args', 32); c = {}
    if mode == 'reduce': order = ['C', 'A', 'C']; st_ = [0, 8, 0]
    else: order = ['A', 'B', 'C'] if nargs == 3 else ['A', 'C']; st_ = [8, 8, 8]
    for i, b in enumerate(order): c[8*i] = (8, P(b), 'ptr')
    A.c = c; mem['args'] = A
    mem['dims'] = Cells('dims', 8, {0: (8, Poly.const(1), ('i', 64))})
    mem['steps'] = Cells('steps', 24, {8*i: (8, Poly.const(v), ('i', 64)) for i, v in enumerate(st_)})
    # far apart addresses
    base = {'A': 0x100000, 'B': 0x200000, 'C': 0x300000}
    def p2i(s, p):
        if p.b in base: return Poly.const(base[p.b]) + p.o
        return Ex.p2i(ex, s, p)
    ex.p2i = p2i
    def ptr_eq(ex_, st, a, b):
        if a.b in base and b.b in base: return kern.TRUE if a.b == b.b and a.o == b.o else kern.FALSE
        return World.ptr_eq(w, ex_, st, a, b)
    w.ptr_eq = ptr_eq
    f = None; mod = None
    for m in mods:
        if m.func(sym): mod = m; break
    st = start(ex, sym, [P('args'), P('dims'), P('steps'), Ptr(None, C0)], mod=mod, mem=mem)
    r = [x for x in ex.explore(st, None) if x[0] == 'ret']
    if len(r) != 1: raise Undecided('%d paths' % len(r))
    return ev

def derive(I):
    """(elementwise jobs, reduce jobs, problems); job = (ufunc, type, kernel, wanted output type number)"""
    elem = {}; red = {}; prob = []; direct = []
    for u, sym, sg in I.loops:
        nargs = 3 if sg[2] is not None and u not in () and is_binary(u) else 2
        try: ev = run_stub(I, sym, nargs, 'elem')
        except Undecided as e: prob.append((u, sg[0], sym, str(e))); continue
        t = SEM.get(sg[0]); ot = sg[nargs-1]
        for e in ev:
            if e[0] == 'kernel': elem.setdefault((u, t, e[1], SEM.get(ot)), []).append(sg[0])
        if is_binary(u):
            try: ev = run_stub(I, sym, 3, 'reduce')
            except Undecided as e: prob.append((u, sg[0], sym, 'reduce: ' + str(e))); continue
            for e in ev:
                if e[0] == 'kernel': red.setdefault((u, t, e[1]), []).append(sg[0])
    return elem, red, prob

BINARYU = {'add', 'subtract', 'multiply', 'true_divide', 'divide', 'floor_divide', 'minimum', 'maximum', 'fmin', 'fmax', 'logical_and', 'logical_or', 'logical_xor', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'equal', 'not_equal', 'less', 'greater', 'less_equal', 'greater_equal', 'power', 'remainder', 'mod', 'left_shift', 'right_shift', 'arctan2', 'hypot', 'fmod', 'logaddexp', 'logaddexp2', 'float_power'}
def is_binary(u): return u in BINARYU
