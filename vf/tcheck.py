"""T01/T02/T03: the work dispatcher and the worker settings under contract."""
import time, traceback, subprocess, os, json
from multiprocessing import Pool
from . import build, ir, regs, tspec, setfn, pydiff, report
from .ex import Undecided
G = {}
NI = ['-fno-inline', '-Dalways_inline=noinline']
MODS = ['_pnumpy', 'threads', 'fill', 'recarray', 'atop']
C = {
 'wm': 'WorkMain(item,len,wake,bs,generic): requires len>=1, the item reserved by the caller, any wake, 0<=FutexWakeCount<=14; ensures the item is announced with its channels, counters and worker count set, worked on by the caller, waited for until BlocksCompleted has reached the number of blocks, and retired from every pool it was announced to; after the announcement only atomic +1 on its counters',
 'wb': 'GetNextWorkBlockCoreInternal/GetNextWorkBlockCore on an announced item: a successful claim takes exactly one so far unclaimed block, 0<=block<number of blocks, its elements are inside 0..n-1 and full except at the end; different channels and different claims give different blocks and all blocks are handed out; a failed claim means none are left',
 'core': 'GetNextWorkBlockCore: one successful channel claim is returned unchanged; failure only after every channel is exhausted or as many blocks as exist were claimed; only channels 0..ThreadWakeup are touched',
 'ctr': 'GetNextWorkBlock/GetNextWorkIndex: the claims of one item hand out 0,1,2,... each once and stop at the number of blocks/jobs',
 'cb': 'claiming callback: each claimed block/job is passed to the caller\'s function exactly once and then completed exactly once; returns only when nothing is left',
 'do': 'DoMultiThreadedWork/ChunkWork: the whole range exactly once: serially without a work item, otherwise by one WorkMain run of the claiming callback',
 'worker': 'WorkerThreadFunction: works only on the announced, not yet retired item of its own pool, with its own core number, when the item is for that many workers; modifies nothing of the ring',
 'done': 'CompleteWorkBlock: exactly one atomic +1 of BlocksCompleted with release ordering',
 'resv': 'GetWorkItem/GetWorkItemCount: null, or a fresh ring slot initialised with its index and the claiming strategy; null when threading is off (and for fewer than 65536 elements, or when the ring is locked, for GetWorkItem)',
 'start': 'StartWorkerThreads: ensures 0 <= FutexWakeCount <= WorkerThreadCount-1, at most WorkerThreadCount threads started',
}
T01K = {'channel', 'count', 'claim', 'next', 'range', 'disjoint', 'cover', 'exhausted', 'result', 'split', 'operand', 'serial', 'counter', 'wake', 'item', 'slot', 'inv:claim', 'inv:affine', 'inv:bound'}
T02K = {'complete', 'retire', 'announce', 'ordering', 'shared', 'work', 'frame', 'lock', 'termination', 'returns'}

def setup(R):
    w = build.Work()
    L = w.layout('_pnumpy', {'stMATH_WORKER_ITEM', 'stWorkerRing', 'CMathWorker', 'stGlobalWorkerParams', 'stWorkerChannel', 'stWorkerPool', 'stSettings', 'stUFunc'})
    lay = tspec.Lay(L)
    T = w.ir(MODS, NI)
    M = {k: ir.Module(T[k], k) for k in T}
    G.update(M=M, lay=lay, L=L, main=[M['_pnumpy'], M['threads']], all=list(M.values()), deadline=90 if R.tier == 'quick' else 300)
    return w
def guard(f):
    """-> (symbol, obligations, undecided, solver seconds, object)"""
    try: o = f(); return getattr(o, 'sym', '?'), o.obls, None, o.ex.solver_s if hasattr(o, 'ex') else 0, o
    except Undecided as e: return None, [], str(e)[:200], 0, None
    except Exception: return None, [], 'internal: ' + traceback.format_exc()[-300:], 0, None
def slim(ob): return [(k, ok, str(t)[:300]) for k, ok, t in ob]

def t_wm(a):
    M, req, gen = a
    s, ob, und, ss, o = guard(lambda: tspec.WorkMain(G['main'], G['lay'], M, req, gen).run(G['deadline']))
    return s, slim(ob), und, ss, [(x[0], x[4]) for x in o.snaps] if o else []
def t_claims(a):
    M, req, gen, keys = a
    out = []
    try: wm = tspec.WorkMain(G['main'], G['lay'], M, req, gen).run(G['deadline'])
    except Undecided: return [('?', [], 'no announced item', 0)]
    for sn in wm.snaps:
        if sn[4] not in keys: continue
        if not gen:
            for mods in G['counter'][1]:
                s, ob, und, ss, _ = guard(lambda: tspec.Counter(mods, G['lay'], wm, sn, True).run(G['deadline']))
                out.append((s or 'GetNextWorkIndex', slim(ob), und, ss))
            continue
        for mods in G['counter'][0]:
            s, ob, und, ss, _ = guard(lambda: tspec.Counter(mods, G['lay'], wm, sn, False).run(G['deadline']))
            out.append((s or 'GetNextWorkBlock', slim(ob), und, ss))
        for zig in (0, 3, 2):
            s, ob, und, ss, _ = guard(lambda: tspec.ModClaims(G['main'], G['lay'], wm, sn, zig).run(G['deadline']))
            if und or tspec.bad(ob) or G['coreold'].get(sn[0]):
                # the pieces do not meet the intermediate contract: judge the whole function instead
                s2, ob2, und2, ss2, _ = guard(lambda: tspec.Claims(G['main'], G['lay'], wm, sn, zig).run(G['deadline']))
                if ob2 or und2: s, ob, und, ss = s2 or s, ob2, und2, ss + ss2
            out.append((s or 'GetNextWorkBlockCore', slim(ob), und, ss))
    return out
def t_core(W):
    s, ob, und, ss, _ = guard(lambda: tspec.Core(G['main'], G['lay'], W).run(G['deadline']))
    return W, s, slim(ob), und, ss
def t_misc(a):
    kind, arg = a
    lay = G['lay']; M = G['M']
    if kind == 'worker': f = lambda: tspec.Worker([M['threads']], lay, arg).run(G['deadline'])
    elif kind == 'done': f = lambda: tspec.Complete(arg and [M[arg]] or G['main'], lay).run(G['deadline'])
    elif kind == 'cb':
        mn, sym, ix = arg
        f = lambda: tspec.Callback([M[mn]], lay, sym, ix).run(G['deadline'])
    elif kind == 'do':
        mn, sym, ix = arg
        f = lambda: tspec.DoMT([M[mn]], lay, ix, {sym}).run(G['deadline'])
    elif kind == 'resv': f = lambda: setfn.Reserve(G['all'], lay, arg).run(G['deadline'])
    elif kind == 'start': f = lambda: setfn.StartThreads([M['atop']], lay).run(G['deadline'])
    elif kind == 'set':
        def f():
            s = setfn.SetFn(G['main'], lay, G['L']['stSettings'], arg); s.entryoff = G['L']['stUFunc']['MaxThreads'][0]; return s.run(G['deadline'])
    s, ob, und, ss, _ = guard(f)
    return kind, arg, s, slim(ob), und, ss
def callbacks():
    out = []
    for mn in ('fill', 'recarray'):
        for pat, ix in ((r'CMathWorker26MultiThreadedChunkCallbackE', False), (r'CMathWorker28MultiThreadedCounterCallbackE', True)):
            s = regs.finder([G['M'][mn]], pat)
            if s: out.append((mn, s, ix))
    return out

def combos():
    out = []
    for gen in (True, False):
        for M in range(15):
            out.append((M, 'default', gen)); out.append((M, 'max', gen))
            for r in range(1, M + 1): out.append((M, r, gen))
    return out

def dispatcher(R, kinds):
    sel = lambda ob: [o for o in ob if o[0] in kinds]
    M = G['M']
    G['counter'] = ([[M[m], M['threads']] for m in ('fill',)], [[M[m], M['threads']] for m in ('recarray',)])
    G['coreold'] = {}
    with Pool(8) as pool:
        for W, s, ob, und, ss in R.take(pool.imap_unordered(t_core, range(15))):
            if und or tspec.bad(ob): G['coreold'][W] = True
            elif 'claim' in kinds: R.function(s, C['core'], sel(ob), None, ss, '%d workers ' % W)
            else: R.function(s, C['core'], sel(ob), None, ss, '%d workers ' % W)
    with Pool(8) as pool:
        cs = combos()
        keys = {}
        for a, (s, ob, und, ss, ks) in R.take(zip(cs, pool.imap(t_wm, cs, chunksize=4))):
            R.function(s or 'WorkMain', C['wm'], sel(ob), und, ss, 'configured %s, requested %s, %s ' % (a[0], a[1], 'ranges' if a[2] else 'jobs'))
            for W, k in ks:
                if k not in keys: keys[k] = (W, a)
        R.notes.append('%d set-ups of a work item verified, %d distinct announced items' % (len(cs), len(keys)))
        if 'claim' in kinds:
            by = {}
            for k, (W, a) in keys.items(): by.setdefault(a, []).append(k)
            jobs = []
            for a, ks in by.items():
                ch = 3 if a[2] else 100
                for i in range(0, len(ks), ch): jobs.append((a[0], a[1], a[2], set(ks[i:i+ch])))
            jobs.sort(key=lambda j: -j[0])
            for r in R.take(pool.imap_unordered(t_claims, jobs)):
                for s, ob, und, ss in r: R.function(s, C['wb'] if 'Core' in s else C['ctr'], sel(ob), und, ss)
        misc = [('worker', c) for c in range(1, 16)] if 'work' in kinds else []
        misc += [('done', None)] + [('cb', x) for x in callbacks()] + [('do', x) for x in callbacks()]
        if 'lock' in kinds or 'slot' in kinds: misc += [('resv', False), ('resv', True)]
        for kind, arg, s, ob, und, ss in R.take(pool.imap_unordered(t_misc, misc)):
            R.function(s or kind, C[kind], sel(ob), und, ss)

TRUSTED = ['clang 18 front end and -O1 lowering with calls kept; the VC generator in /verif/vf; z3',
           'x86-64 memory ordering: atomic read-modify-write operations are sequentially consistent and total, plain aligned loads and stores are not torn']
ASSUME = ['an atomic +1 returns a value no other +1 of the same counter of the same item returns, and every value between the start and the current one is returned to somebody (atomicity); claims of one item are the only modifications of its counters (obligation "shared" on every function that touches an item)',
          'a worker that looks at an announcement finishes with that item before 1024 further items are started (ring slot reuse)',
          'a worker that still holds a finished item only finds out that no block is left; it does not dereference the caller\'s argument before a successful claim (obligation on the claiming callbacks: the claim precedes the call)',
          'the number of CPUs the process may use is between 1 and 15 (GetProcCount clamps; its counting loop is covered by a bounded stand-in only)']
def native(R, w, budget):
    exe = os.path.join(w.dir, 'tharness')
    src = os.path.join(report.ROOT, 'vf', 'native', 'tharness.cpp')
    r = subprocess.run(['g++', '-O2', '-std=c++11', '-fpermissive', '-w', '-pthread', '-mavx2', '-fwrapv', '-DNDEBUG', '-I' + os.path.join(w.src, 'atop'), src, w.path('threads'), '-o', exe], capture_output=True, text=True)
    if r.returncode:
        R.undecided.append(('tharness', 'concrete schedules could not be built: ' + r.stderr[-200:])); return
    ps = [subprocess.Popen([exe, str(R.seed*100 + i), str(budget)], stdout=subprocess.PIPE, text=True) for i in range(6)]
    n = 0
    for p in ps:
        try: o, _ = p.communicate(timeout=budget + 60)
        except subprocess.TimeoutExpired:
            p.kill(); o, _ = p.communicate()
        for l in o.splitlines():
            if l.startswith('CASES'): n += int(l.split()[1])
            if l.startswith('FAIL '):
                q = json.loads(l[5:])
                R.found('dispatcher: %s (%s)' % (q['what'], l[5:200]), dict(kind='native', harness='vf/native/tharness.cpp', case=q))
        if p.returncode not in (0, None) and p.returncode < 0: R.found('dispatcher crashed with signal %d' % -p.returncode, dict(kind='native', harness='vf/native/tharness.cpp', case=None))
    R.stand_in('concrete schedules of the compiled dispatcher', 'random claim orders and real interleavings, delayed completions, <= 40 blocks, 0..14 workers', n)

def run_t01(R):
    w = setup(R)
    dispatcher(R, T01K)
    native(R, w, 15 if R.tier == 'quick' else 200)
    concrete(R, w, [('treduce', 'hooked reductions, 65536..524288 elements, workers 0..14')], 30)
def run_t02(R):
    w = setup(R)
    dispatcher(R, T02K)
    native(R, w, 15 if R.tier == 'quick' else 200)
    concrete(R, w, [('treduce', 'hooked reductions, 65536..524288 elements, workers 0..14')], 30)
def settings(R, names):
    with Pool(8) as pool:
        for kind, arg, s, ob, und, ss in pool.imap_unordered(t_misc, [('set', n) for n in names]):
            R.function(arg, setfn.CTEXT[arg], ob, und, ss)
def run_t03(R):
    w = setup(R)
    settings(R, [n for n in setfn.CTEXT if n.startswith('thread_')] + ['atop_setworkers'])
    with Pool(4) as pool:
        for kind, arg, s, ob, und, ss in pool.imap_unordered(t_misc, [('resv', False), ('resv', True), ('start', None)]): R.function(s or kind, C[kind], ob, und, ss)
        # any worker count within the contract of the setters gives an item that covers the range: T01
        cs = [(M, r, g) for M in (0, 1, 7, 14) for r in ('default', 'max') for g in (True, False)]
        for a, (s, ob, und, ss, ks) in zip(cs, pool.imap(t_wm, cs)):
            R.function(s or 'WorkMain', C['wm'], [o for o in ob if o[0] in ('wake', 'complete', 'item')], und, ss, 'configured %s, requested %s ' % a[:2])
    concrete(R, w, [('settings', 'random sequences of settings calls with operations in between'), ('treduce', 'hooked reductions, workers 0..14')], 35)
    cpus(R, w)
def cpus(R, w):
    """number of CPUs -> worker count, operations finish"""
    path = w.package(); n = 0
    ncpu = len(os.sched_getaffinity(0))
    code = "import os,sys\nos.sched_setaffinity(0,set(list(os.sched_getaffinity(0))[:int(sys.argv[1])]))\nimport numpy as np, pnumpy as pn\npn.enable()\na=np.arange(300000.0)\nb=a+a\nk=pn.thread_getworkers()\nprint('R',k,bool((b==2*a).all()),float(np.add.reduce(a))==299999*150000.0)\n"
    for c in sorted({1, 2, 3, ncpu}):
        if c > ncpu: continue
        env = build.pyenv(path)
        try: r = subprocess.run([build.PY, '-c', code, str(c)], capture_output=True, text=True, env=env, timeout=60); out = r.stdout
        except subprocess.TimeoutExpired: out = 'timeout'
        l = [x for x in out.splitlines() if x.startswith('R ')]
        n += 1
        ok = False
        if l:
            k, e, s = l[0].split()[1:]
            ok = 0 <= int(k) <= max(0, min(c, 15) - 1) and e == 'True' and s == 'True'
        if not ok: R.found('with %d CPUs: %s' % (c, (l or [out[-200:]])[0]), dict(kind='cpus', cpus=c, out=out[-500:]))
    R.stand_in('worker count from the CPUs of the process', '1, 2, 3 and all CPUs', n)
def concrete(R, w, suites, budget):
    path = w.package()
    for s, txt in suites:
        nc, fails = pydiff.run(path, s, R.seed, R.tier, budget=(budget if R.tier == 'quick' else 10*budget)/len(suites), parts=6)
        R.stand_in('whole extension compared with unhooked NumPy, suite %s' % s, txt, nc)
        for f in fails: R.found('%s %s' % (f['fail'], str(f['case'])[:200]), dict(kind='python', **f))
    R.trusted += TRUSTED; R.assume += ASSUME
