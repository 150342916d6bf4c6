"""S01/S02/S03: sorting under contract."""
import time, traceback
from multiprocessing import Pool
from . import build, ir, tspec, sspec, hcheck, pydiff
from .ex import Undecided
G = {}
NI = ['-fno-inline', '-Dalways_inline=noinline']
C = dict(sspec.TEXT)
C['wrap'] = 'entry of a merge sort (mergesort_, amergesort_, ParMergeNormal, single_amergesort, ...): ensures the recursion of exactly this type is started once on [first,first+n) with a workspace of at least n/2 elements, freed afterwards; success reported'
C['copy'] = 'CopyData(in,n,strideIn,itemSize,out,itemSize): requires n>=0, out disjoint from in; ensures out[i]==in[i] for all i<n, whole elements, nothing else written, every access inside the arrays'
TYPES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 19, 20, 21, 9, 15]
TRUSTED = ['clang 18 front end and -O1 lowering of the C++ source to LLVM IR, calls kept (the g++ build is cross-checked on concrete inputs, not proved)', 'the VC generator in /verif/vf, z3']
ASSUME = ['sequential routines named by template (quicksort_, heapsort_, mergesort0_ and the merges) do what their name says on the range, type and workspace they are given (bounded suites)',
          'WorkMain runs the callback of the announced item on every job once and returns when all are completed (T01/T02)', 'the atomic OR on a level word orders the two buddies: exactly the second one sees the bit of the first, after the first finished (x86 lock or)',
          'FmAlloc returns a fresh buffer of the requested size or the sort reports failure', 'pointer and index arithmetic is mathematical (no address wraps)']
def setup(R):
    w = build.Work()
    L = w.layout('_pnumpy', {'stMATH_WORKER_ITEM', 'stWorkerRing', 'CMathWorker', 'stGlobalWorkerParams', 'stWorkerChannel', 'stWorkerPool', 'stSettings', 'stUFunc'})
    T = w.ir(['sort'], NI)
    G.update(M=ir.Module(T['sort'], 'sort'), lay=tspec.Lay(L), deadline=100 if R.tier == 'quick' else 400)
    return w
def task(a):
    k = a[0]; o = None
    try:
        if k == 'sort': o = sspec.SortFn([G['M']], G['lay'], *a[1:]); o.sym = a[1]
        elif k == 'wrap': o = sspec.Wrap([G['M']], *a[1:])
        elif k == 'copy': o = sspec.Copy(G['M'], *a[1:])
        else: o = sspec.Buddy([G['M']])
        o.run(G['deadline']); und = None
    except Undecided as e: und = str(e)[:200]
    except Exception: und = 'internal: ' + traceback.format_exc()[-300:]
    ob = [(x[0], x[1], str(x[2])[:300]) for x in (o.obls if o is not None else []) if und is None or x[1] is not False]
    ss = o.ex.solver_s if o is not None and hasattr(o, 'ex') else 0
    return a, getattr(o, 'sym', '?'), ob, und, ss, (a[2], sorted(map(str, o.stypes)), o.single, list(o.stypes)) if k == 'sort' and o is not None else None
def contracts(R, entries, kinds=None, wraps=(), copy=True, buddy=True):
    jobs = []
    if buddy: jobs.append(('buddy',))
    if copy: jobs += [('copy', es, c) for es in (1, 2, 4, 8, 16, 3, 12, 40) for c in (False, True)]
    for e in entries:
        for t in TYPES:
            for m in (0, 1, 2):
                for cfg in (('same', 'diff') if e == 'Sort' else ('all', 'cut')): jobs.append(('sort', e, t, m, cfg))
    for s in sorted(G['M'].ftext):
        q = sspec.WRAP.match(s)
        if q and q.group(1) in wraps and q.group(1) != 'single_amergesort': jobs.append(('wrap', s))
    if wraps and not any(j[0] == 'wrap' for j in jobs): R.undecided.append(('merge sort entries', 'not found'))
    singles = set()
    def report(a, sym, ob, und, ss, ex):
        if kinds and a[0] == 'sort': ob = [o for o in ob if o[0] in kinds or o[0].startswith(('inv:', 'termination'))]
        txt = C['wrap' if a[0] == 'wrap' else a[0] if a[0] in C else 'Sort' if a[1] == 'Sort' else 'SortIndex']
        fn = '%s[type %d mode %d]' % a[1:4] if a[0] == 'sort' else sym or a[0]
        R.function(fn, txt, ob, und, ss, '')
        if ex and ex[2]:
            for st in ex[3]: singles.add((ex[2], st, ex[0]))
    with Pool(8) as pool:
        for r in R.take(pool.imap_unordered(task, jobs)): report(*r)
        if 'single_amergesort' in wraps:
            js = []
            for (k, codes), st, t in sorted(singles, key=str):
                if st is None: R.undecided.append((k, 'sort type is not constant')); continue
                for s in sorted(G['M'].ftext):
                    q = sspec.WRAP.match(s)
                    if q and q.group(1) == k and tuple(sspec.tcodes(q.group(2))) == codes: js.append(('wrap', s, st, t if t in (19, 20, 21) else None)); break
                else: R.undecided.append((k, 'no instance for %s' % (codes,)))
            for r in R.take(pool.imap_unordered(task, js)): report(*r)
def done(R, w, suites, budget):
    hcheck.concrete(R, w, suites, budget)
    R.assume = [a for a in R.assume if a not in hcheck.ASSUME] + ASSUME
WIN = ('mergesort_', 'mergesortstring_')
WIX = ('amergesort_', 'amergesortworkspace_', 'ParMergeString', 'ParMergeNormal', 'single_amergesort')
def hook(R, what):
    S = hcheck.setup(R)
    hcheck.slots(R, S[2], what)
def run_s01(R):
    hook(R, {'sort'})
    w = setup(R)
    contracts(R, ['Sort'], wraps=WIN)
    done(R, w, [('sort', 'all hooked types, kinds, layouts, patterns, lengths <= 10007'), ('bigsort', 'lengths 65535..200003, workers 0..14')], 55)
def run_s02(R):
    hook(R, {'argsort'})
    w = setup(R)
    contracts(R, ['SortIndex32', 'SortIndex64'], wraps=WIX, copy=False)
    done(R, w, [('argsort', 'argsort, lexsort, partitions; all types, kinds, layouts, lengths <= 10007'), ('bigargsort', 'lengths 65535..200003, workers 0..14')], 60)
def run_s03(R):
    w = setup(R)
    contracts(R, ['Sort', 'SortIndex32', 'SortIndex64'], {'split', 'merge', 'range', 'workspace', 'copy', 'operand', 'shared', 'route', 'stable', 'result', 'heap'}, wraps=WIN + WIX)
    done(R, w, [('bigsort', 'lengths 65535..200003, workers 0..14'), ('bigargsort', 'lengths 65535..200003, workers 0..14')], 100)
