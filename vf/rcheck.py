"""B05: every registered reduction kernel folds the start value and every element exactly once."""
import time, traceback
from multiprocessing import Pool
from . import kcheck, rkern, regs, world, build, diff, pydiff, dispatch
from .kern import *
RED = {'add': 1, 'multiply': 3, 'minimum': 5, 'maximum': 6}
G = {}
def task(a):
    (u, t, sym, al) = a
    mod = None
    for m in regs.OPSMODS:
        if m in G['M'] and G['M'][m].func(sym): mod = G['M'][m]; break
    t0 = time.time()
    try: e, und = rkern.verify(mod, sym, u, t, al, G['deadline'])
    except Exception: return a, None, 'internal: ' + traceback.format_exc()[-300:], 0, 0
    good = {}; bad = []
    for o in e.obls:
        if o[1] is True: good[o[0]] = good.get(o[0], 0) + 1
        else: bad.append((o[0], o[1], str(o[2])[:400], None))
    return a, (good, bad), und, e.solver_s, time.time() - t0
def contract(u, t):
    return 'requires n>=1, in addressable at base+i*stride for i<n, out and start one element each (out==start or disjoint, both disjoint from in); ensures *out == fold of %s over the multiset {*start, in[0..n-1]} on %s (float sums and products: the same terms, any association, the accumulator may be wider), nothing else written, no access outside the arguments' % (u, TNAME[t])
def run(R):
    w = build.Work()
    M = kcheck.load(w)
    I = world.Install(list(M.values()), w.inc)
    elem, red, prob = regs.derive(I)
    for p in prob:
        if 'reduce' in p[3]: R.undecided.append((p[2], 'registered loop of %s: %s' % (p[0], p[3])))
    jobs = []
    for (u, t, sym), nts in red.items():
        if t is None or u not in RED: R.undecided.append((sym, 'no reduction contract for %s on numpy type %s' % (u, nts))); continue
        for al in (True, False): jobs.append((u, t, sym, al))
    R.notes.append('reduction kernels: %s' % ' '.join(sorted('%s:%s' % (u, TNAME[t]) for (u, t, s) in red)))
    G['M'] = M; G['deadline'] = 150 if R.tier == 'quick' else 600
    with Pool(8) as pool:
        for a, ob, und, ss, dt in R.take(pool.imap_unordered(task, jobs)):
            u, t, sym, al = a
            where = '%s %s %s: ' % (u, TNAME[t], 'out==start' if al else 'out, start distinct')
            good, bad = ob if ob else ({}, [])
            R.function(sym, contract(u, t), [(kd, True, '') for kd, c in good.items() for _ in range(c)] + bad, und, ss, where)
    dj = []
    for (u, t, sym), nts in red.items():
        if t is None or u not in RED: continue
        ops = [RED[u], t]
        if any(s == sym for s, _ in dispatch.lookup(M['ops_binary'], 'GetReduceMathOpFast', ops, out=False)):
            dj.append(dict(name=u, t=t, reduce=True, fns=['GetReduceMathOpFast'], ops=ops))
    if dj:
        res = diff.run(w.atoplib(), dj, w.dir, R.seed, rounds=1 if R.tier == 'quick' else 12, budget=40 if R.tier == 'quick' else 300)
        R.stand_in('reduction kernels called directly (g++ build) against exact sums/products, guard pages around every buffer', '%d kernels; lengths <= 4099; 5 strides; with and without distinct start' % len(dj), sum(r['ran'] for r in res))
        for r in res:
            if r['fail']: R.found('%s.reduce on %s: %s' % (r['job']['name'], TNAME[r['job']['t']], r['fail']), dict(kind='kernel', job=r['job'], case=r.get('case'), fail=r['fail']))
    nc, fails = pydiff.run(w.package(), 'reduce', R.seed, R.tier, budget=25 if R.tier == 'quick' else 300)
    R.stand_in('ufunc.reduce through the whole extension compared with unhooked NumPy', '19 ufuncs, all numeric types, 1-d and 2-d layouts, initial/where/keepdims, lengths < 65536', nc)
    for f in fails: R.found('%s %s' % (f['fail'], str(f['case'])[:200]), dict(kind='python', **f))
    R.trusted += kcheck.TRUSTED
    R.assume += ['floating additions and products are treated as the abstract terms of the fold: association and the precision of the intermediate accumulator are left open, as the property allows',
                 'integer arithmetic is exact two\'s complement; index arithmetic is mathematical', 'the reduce hook passes arguments satisfying the precondition (property B06/D01)']
