"""B01/B02/B03: every registered elementwise kernel against the NumPy meaning of its ufunc."""
import time, traceback, os
from multiprocessing import Pool
from . import ir, kern, specs, regs, world, build, diff, pydiff, dispatch, fp
from .kern import *
from .ex import Undecided

BINOPS = {'add': 1, 'subtract': 2, 'multiply': 3, 'minimum': 5, 'maximum': 6, 'floor_divide': 9, 'true_divide': 13, 'divide': 13, 'logical_and': 16, 'logical_or': 18, 'bitwise_and': 21, 'bitwise_xor': 22, 'bitwise_or': 23}
CMPOPS = {'equal': 0, 'not_equal': 1, 'less': 2, 'greater': 3, 'less_equal': 4, 'greater_equal': 5}
UNOPS = {'abs': 1, 'absolute': 1, 'signbit': 2, 'fabs': 3, 'invert': 4, 'floor': 5, 'ceil': 6, 'trunc': 7, 'rint': 12, 'negative': 9, 'positive': 10, 'sign': 11, 'sqrt': 15, 'square': 16, 'reciprocal': 17, 'logical_not': 18, 'isinf': 19, 'isnan': 20, 'isfinite': 21}
ZTOL = ('minimum', 'maximum')
G = {}

def load(work, mods=regs.WORLDMODS):
    T = work.ir(mods)
    M = {k: ir.Module(T[k], k) for k in mods}
    return M

def task(a):
    (u, t, sym, k, al) = a
    M = G['M']
    mod = None
    for m in regs.OPSMODS:
        if m in M and M[m].func(sym): mod = M[m]; break
    sp = specs.binary(u, t) if k == 2 else specs.unary(u, t)
    fn, ot, tol = sp
    S = KSpec(u, [t]*k, ot, fn, al, None, tolerant=tol)
    t0 = time.time()
    try: e, und = kern.verify(mod, sym, S, G['deadline'])
    except Exception:
        return a, [], 'internal: ' + traceback.format_exc()[-300:], 0, time.time()-t0
    ob = []
    good = {}
    for o in e.obls:
        if o[1] is True: good[o[0]] = good.get(o[0], 0) + 1
        else:
            md = None
            if isinstance(o[3], dict): md = {str(x): str(y) for x, y in list(o[3].items())[:12]}
            ob.append((o[0], o[1], str(o[2])[:400], md))
    return a, (good, ob), und, e.solver_s, time.time()-t0

def aliases(k, t, ot):
    al = [('A', 'B', 'C'), ('A', 'A', 'C'), ('A', 'B', 'A'), ('A', 'B', 'B'), ('A', 'A', 'A')] if k == 2 else [('A', 'C'), ('A', 'A')]
    if SIZE[ot] != SIZE[t]: al = al[:2] if k == 2 else al[:1]
    return al

def hintval(s):
    try: return int(s)
    except Exception: return None

def run(R, names, suite, alt=()):
    """R: report; names: ufuncs of the property"""
    w = build.Work()
    M = load(w)
    I = world.Install(list(M.values()), w.inc)
    elem, red, prob = regs.derive(I)
    jobs = []
    for (u, t, sym, ot), nts in elem.items():
        if u not in names: continue
        k = 2 if regs.is_binary(u) else 1
        sp = None if t is None else specs.binary(u, t) if k == 2 else specs.unary(u, t)
        if sp is None:
            if not u in alt: R.undecided.append((sym, 'no element contract for %s on numpy type %s' % (u, nts)))
            continue
        R.oblige(sym, 'signature', ot == sp[1], '%s on %s is registered with output %s, NumPy has %s' % (u, TNAME[t], TNAME.get(ot), TNAME[sp[1]]))
        for al in aliases(k, t, sp[1]): jobs.append((u, t, sym, k, al))
    for p in prob:
        if p[0] in names: R.undecided.append((p[2], 'registered loop of %s: %s' % (p[0], p[3])))
    got = {u for (u, t, s, o) in elem if u in names}
    R.notes.append('kernels: %d (ufunc, dtype) pairs, %d kernel x aliasing verification tasks; ufuncs: %s' % (len({j[:3] for j in jobs}), len(jobs), ' '.join(sorted(got))))
    if not jobs: R.undecided.append(('-', 'no kernel is registered for these operations'))
    G['M'] = M; G['deadline'] = 150 if R.tier == 'quick' else 600
    hints = {}
    # slow ones first
    jobs.sort(key=lambda j: (-(SIZE[j[1]] == 8), j[4].count('A') == 3))
    with Pool(8) as pool:
        for a, ob, und, ss, dt in R.take(pool.imap_unordered(task, jobs)):
            u, t, sym, k, al = a
            where = '%s %s %s: ' % (u, TNAME[t], ''.join(al))
            if not ob:
                R.function(sym, contract(u, t), [], und, 0, where); continue
            good, bad = ob
            R.function(sym, contract(u, t), [(kd, True, '') for kd, c in good.items() for _ in range(c)] + bad, und, ss, where)
            for b in bad:
                if b[1] is False and b[3]:
                    for x in ('A', 'B'):
                        v = hintval(b[3].get(x))
                        if v is not None: hints.setdefault((u, t), []).append(v)
    # concrete cross-check on the g++ build; also the witness search and the bounded stand-in
    bad = {(f[0]) for f in R.failed} | {f[0] for f in R.undecided}
    dj = []
    for (u, t, sym, ot), nts in elem.items():
        if u not in names or t is None: continue
        k = 2 if regs.is_binary(u) else 1
        sp = specs.binary(u, t) if k == 2 else specs.unary(u, t)
        if sp is None: continue
        try: j = cjob(M, u, t, sym, k)
        except Undecided: j = None
        if j: j['hint'] = hints.get((u, t), [])[:2]; dj.append(j)
    lib = w.atoplib()
    if dj:
        res = diff.run(lib, dj, w.dir, R.seed, rounds=1 if R.tier == 'quick' else 12, budget=60 if R.tier == 'quick' else 600)
        n = sum(r['ran'] for r in res)
        R.stand_in('kernels called directly through their lookup functions, compiled by g++ as the product is, compared with NumPy element by element, guard pages around every buffer', '%d kernels; lengths <= 1025, %d stride patterns, 5 aliasings' % (len(dj), 16), n)
        for r in res:
            if r['fail']: R.found('%s on %s: %s' % (r['job']['name'], TNAME[r['job']['t']], r['fail']), dict(kind='kernel', job=r['job'], case=r.get('case'), fail=r['fail']))
    path = w.package()
    nc, fails = pydiff.run(path, suite, R.seed, R.tier, budget=30 if R.tier == 'quick' else 400)
    R.stand_in('ufunc calls through the whole extension compared with unhooked NumPy', 'suite %s: lengths <= 262145, strided/reversed/offset/broadcast/in-place/overlapping layouts' % suite, nc)
    for f in fails: R.found('%s' % f['fail'] + ' ' + str(f['case'])[:200], dict(kind='python', **f))
    R.trusted += TRUSTED
    R.assume += ASSUME

def cjob(M, u, t, sym, k):
    if u in BINOPS and k == 2: fns, ops, mod = ['GetSimpleMathOpFast'], [BINOPS[u], t, t], 'ops_binary'
    elif u in CMPOPS: fns, ops, mod = ['GetComparisonOpFast'], [CMPOPS[u], t, t], 'ops_compare'
    elif u in UNOPS: fns, ops, mod = ['GetUnaryOpFast', 'GetUnaryOpSlow'], [UNOPS[u], t], 'ops_unary'
    else: return None
    fns = [f for f in fns if any(s == sym for s, _ in dispatch.lookup(M[mod], f, ops))]
    if not fns: return None
    return dict(name=u, kind='bin' if k == 2 else 'un', t=t, fns=fns[:1], ops=ops, tol=u in ZTOL)

def contract(u, t):
    return 'requires n>=1, arrays addressable at base+i*stride for i<n, out exactly aliased with or disjoint from each input; ensures for all i<n: out[i] == %s(in[i]) on %s as NumPy defines it, nothing else written, no access outside the arrays, aligned where the instruction needs it' % (u, TNAME[t])

TRUSTED = ['clang 18 front end and -O1 lowering of the C++ source to LLVM IR (the g++ build is cross-checked on concrete inputs, not proved)',
           'the VC generator in /verif/vf (IR semantics, Intel intrinsic semantics in intrin.py)', 'z3',
           'element meaning of each ufunc in specs.py (NumPy semantics transcribed; cross-checked against NumPy concretely)']
ASSUME = ['IEEE-754 add/sub/mul/div/compare and the C math functions are uninterpreted functions with identical meaning in kernel and specification; equality of floating point results is up to the payload of NaN, and for minimum/maximum the sign of zero',
          'integer arithmetic is exact two\'s complement (-fwrapv); pointer and index arithmetic is treated as mathematical integers (no address wraps)',
          'boolean expansion tables hold the bit patterns that initialisation writes (property I01)',
          'array arguments satisfy the contract precondition; the ufunc hooks establish it (property D01)']
