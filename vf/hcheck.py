"""D01/B06/B07/C01/L01: the replacement loops under contract, for every registered loop and aliasing of the operands."""
import time, traceback, re
from multiprocessing import Pool
from . import kcheck, hookrun, regs, world, build, pydiff, deschook
from .hookrun import *
G = {}
CONTRACT = {
 'D01': 'requires n>=1, any steps, any settings, operands disjoint, exactly in place, or (n==1) starting at the same address; ensures one of: the original loop of this ufunc and type runs once on exactly the caller\'s arguments; the accelerated routine registered for this ufunc and type runs once on exactly the caller\'s operands, steps and length; a work item of n elements is run whose callback applies one of those two to block*BLOCK.. for the claimed length of every claimed block and completes each claimed block exactly once. Settings unchanged',
 'B06': 'requires the reduce form (args[0]==args[2], both steps 0), n>=1; ensures one unsplit call of the reduction routine or original loop on exactly the caller\'s arguments, or, for splittable operations: every claimed block is folded from an identity (or idempotent) start value into the slot of that block inside the reserved buffer, every block exactly one slot, and all slots are folded into the caller\'s result once, starting from the caller\'s start value; buffer freed',
 'B07': 'requires that some input range overlaps the output range and is not exactly in place, n>=2; ensures exactly one unsplit call of the original loop on exactly the caller\'s arguments',
 'C01': 'requires acceleration disabled; ensures no accelerated routine runs in any operand configuration and the settings are unchanged',
 'L01': 'ensures exactly one ledger record given this call\'s arguments when the ledger is on, none when off, the settings restored, and the same obligations as without the ledger for what is computed',
}
def findmod(mods, sym):
    for m in mods:
        if m.func(sym): return m

def feedcontract(I, deadline=60):
    """the body of IsOutputFeedingInput against feeding(): -> (symbol, obligations, undecided)"""
    mods = I.mods
    sym = regs.finder(mods, r'IsOutputFeedingInputPclS_ll$')
    if sym is None: return None, [], 'no such function'
    sp = HSpec(); ex = Ex(mods, sp, sym); ex.deadline = time.time() + deadline
    n = A_('n'); si, so = A_('si'), A_('so')
    ex.params = frozenset(['si', 'so', 'n'])
    P = lambda b: Ptr(b, C0)
    ob = []
    for same in (False, True):
        ex.obls = []
        p, q = P('A'), P('A') if same else P('C')
        for b in ('A', 'B', 'C'):
            z = z3.Int('addr(%s)' % b); ex.ax['addr(%s)' % b] = ([z >= 4096, z < 2**47], set())
        st = start(ex, sym, [p, si, q, so, n], mod=findmod(mods, sym))
        st.facts.append(ccmp('<=', c_(1) - n))
        try: rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        except Undecided as e: return sym, ob, str(e)
        ob += [(o[0], o[1], str(o[2])) for o in ex.obls]
        for _, t, v in rs:
            want = feeding(ex, t, [p, si, q, so, n])
            if isinstance(v, Poly): v = ccmp('!=', v)
            if not isinstance(v, tuple): return sym, ob, 'result not understood'
            ob.append(('post', ex.proves(t, bor(bnot(v), want)), 'returns true only when an input element may be overwritten before it is read'))
            ob.append(('post', ex.proves(t, bor(bnot(want), v)), 'returns true whenever the element ranges intersect and are not processed exactly in place'))
    return sym, ob, None

def task(a):
    u, sym, t, form, rel, fix = a
    t0 = time.time()
    l = hookrun.Loop(G['I'], u, sym, t, form, rel)
    l.fix = fix
    try: l.run(G['deadline']); und = None
    except Undecided as e: und = str(e)[:200]
    except Exception: und = 'internal: ' + traceback.format_exc()[-300:]
    return a, [(k, ok, tx[:300]) for k, ok, tx in l.obls], und, getattr(getattr(l, 'ex', None), 'solver_s', 0), time.time() - t0

def setup(R):
    w = build.Work()
    M = kcheck.load(w)
    I = world.Install(list(M.values()), w.inc)
    L = w.layout('_pnumpy', {'stMATH_WORKER_ITEM', 'stSettings', 'UFUNC_CALLBACK', 'stUFunc'})
    I.witem = L['stMATH_WORKER_ITEM']; I.sett = L['stSettings']
    elem, red, prob = regs.derive(I)
    I.elem = {}; I.red = {}
    # the accelerated routines of (ufunc, type): those with an element contract in B01..B05
    for (u, t, s, ot), nts in elem.items():
        for n in nts: I.elem.setdefault((u, n), set()).add(s)
    for (u, t, s), nts in red.items():
        for n in nts: I.red.setdefault((u, n), set()).add(s)
    sym, ob, und = feedcontract(I)
    I.feedok = bool(sym and not und and all(o[1] is True for o in ob))
    if sym and R.pid in ('B07', 'D01'):
        R.function(sym, 'ensures result == (input and output element start ranges intersect and are not exactly aliased, or are exactly aliased with a zero step)', ob, und)
    return w, M, I, prob

def contracts(R, w, M, I, prob, sel, kinds=None, fix=(None, None)):
    """sel(u, form, rel) -> bool; kinds: obligation kinds that belong to the property"""
    for p in prob: R.undecided.append((p[2], 'registered loop of %s: %s' % (p[0], p[3])))
    jobs = []
    seen = set()
    for u, sym, sg in I.loops:
        t = sg[0]
        if sym is None or t not in hookrun.ISZ: R.undecided.append((str(sym), 'no loop contract for %s on type %s' % (u, t))); continue
        if (u, sym, t) in seen: continue
        seen.add((u, sym, t))
        for form, rel in hookrun.configs(u):
            if sel(u, form, rel): jobs.append((u, sym, t, form, rel, fix))
    G['I'] = I; G['deadline'] = 100 if R.tier == 'quick' else 400
    jobs.sort(key=lambda j: (j[4] != ('sep', 'sep'), j[3] != 'reduce', j[0], j[2]))
    R.notes.append('%d registered loops, %d loop x aliasing verification tasks' % (len(seen), len(jobs)))
    with Pool(8) as pool:
        for a, ob, und, ss, dt in R.take(pool.imap_unordered(task, jobs)):
            u, sym, t = a[:3]
            if kinds: ob = [o for o in ob if o[0] in kinds]
            R.function('%s[%s:%d]' % (sym, u, t), CONTRACT[R.pid], ob, und, ss, '%s type %d ' % (u, t))

def slottask(a):
    t, off, sym, fix = a
    d = deschook.DescHook(G['I'], t, off, sym, fix)
    try: d.run(G['deadline']); und = None
    except Undecided as e: und = str(e)[:200]
    except Exception: und = 'internal: ' + traceback.format_exc()[-300:]
    return a, d.what, [(k, ok, tx[:300]) for k, ok, tx in d.obls], und, getattr(getattr(d, 'ex', None), 'solver_s', 0)
def slots(R, I, what=None, fix=(None, None), kinds=None):
    '''the registered type slots (sort, argsort, argmin/argmax, range fill)'''
    G['I'] = I; G['deadline'] = 100 if R.tier == 'quick' else 400
    jobs = []
    for t, off, sym in I.desc:
        if off not in deschook.SLOT or t not in hookrun.ISZ or sym is None: R.undecided.append((str(sym), 'no contract for slot %s of type %s' % (off, t))); continue
        if what is None or deschook.SLOT[off][0] in what: jobs.append((t, off, sym, fix))
    if not jobs: R.undecided.append(('slots', 'no type slot is registered'))
    with Pool(8) as pool:
        for a, w, ob, und, ss in R.take(pool.imap_unordered(slottask, jobs)):
            if kinds: ob = [o for o in ob if o[0] in kinds]
            R.function('%s[type %d]' % (a[2], a[0]), deschook.TEXT[w], ob, und, ss, '%s slot of type %d ' % (w, a[0]))

TRUSTED = ['clang 18 front end and -O1 lowering of the C++ source to LLVM IR, calls kept (the g++ build is cross-checked on concrete inputs, not proved)', 'the VC generator in /verif/vf, z3',
           'the NumPy C API as modelled while executing the initialisation (which loop is replaced, what is remembered as the original)']
ASSUME = ['the dispatcher hands out disjoint blocks covering the range: claimed block b has 1 <= len <= BLOCK and b*BLOCK+len <= n (contract of GetNextWorkBlockCore/WorkMain, property T01/T02); GetWorkItem returns null for fewer than 65536 elements (T03)',
          'the accelerated routines meet their own contracts (B01-B05) and the original loops are NumPy\'s', 'pointer and index arithmetic is mathematical (no address wraps)', 'FmAlloc returns a fresh buffer of the requested size; rdtsc only feeds the ledger']
def concrete(R, w, suites, budget):
    path = w.package()
    n = len(suites)
    for s, txt in suites:
        nc, fails = pydiff.run(path, s, R.seed, R.tier, budget=(budget if R.tier == 'quick' else 10*budget)/n, parts=6)
        R.stand_in('whole extension compared with unhooked NumPy, suite %s' % s, txt, nc)
        for f in fails: R.found('%s %s' % (f['fail'], str(f['case'])[:200]), dict(kind='python', **f))
    R.trusted += TRUSTED; R.assume += ASSUME

def run_d01(R):
    S = setup(R)
    contracts(R, *S, sel=lambda u, form, rel: form == 'elem' and 'overlap' not in rel, kinds=None)
    concrete(R, S[0], [('arith', 'layouts, lengths <= 262145'), ('cmp', 'layouts, lengths <= 262145'), ('unary', 'layouts, lengths <= 262145'), ('trig', 'layouts, lengths <= 262145, float32/64, tolerance'), ('zero', 'zero-size, zero-dimensional, in place scalars')], 100)
def run_b06(R):
    S = setup(R)
    contracts(R, *S, sel=lambda u, form, rel: form == 'reduce')
    concrete(R, S[0], [('treduce', 'all hooked reductions, lengths 65536..524288, workers 0..14')], 60)
def run_b07(R):
    S = setup(R)
    contracts(R, *S, sel=lambda u, form, rel: form == 'elem' and 'overlap' in rel)
    concrete(R, S[0], [('order', 'accumulate, reduceat, at, overlapping operands, lengths <= 262145')], 60)
def run_c01(R):
    S = setup(R)
    contracts(R, *S, sel=lambda u, form, rel: True, fix=(0, None))
    slots(R, S[2], None, (0, None))
    from . import tcheck
    tcheck.setup(R)
    tcheck.settings(R, ['atop_enable', 'atop_disable', 'atop_isenabled', 'recycler_enable', 'recycler_disable', 'recycler_isenabled', 'ledger_enable', 'ledger_disable', 'ledger_isenabled', 'thread_enable', 'thread_disable', 'thread_isenabled'])
    concrete(R, S[0], [('settings', 'random sequences of settings calls with operations in between')], 60)
def run_l01(R):
    S = setup(R)
    contracts(R, *S, sel=lambda u, form, rel: True, fix=(None, 1))
    slots(R, S[2], None, (None, 1))
    from . import tcheck
    tcheck.setup(R)
    tcheck.settings(R, ['ledger_enable', 'ledger_disable', 'ledger_isenabled', 'ledger_info'])
    concrete(R, S[0], [('ledger', 'operations with the ledger on, ledger queried in between')], 60)
