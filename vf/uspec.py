"""B04: the accelerated transcendental kernels.

kernel        for every i<n: out[i] = U(in[i]), where U stands for "a value some verified lane routine gives for that element"; frame, bounds, alignment as B03
lane routine  a function of vectors: lane l of the result is one and the same function F of lane l of the argument, for every l; no memory is read or written
accuracy      F and the scalar routine, over the finite domain of all 2^32 values: within the bound of the true value, special values exact (evaluated on the g++ build)
"""
import time, traceback, os, re, subprocess, z3
from multiprocessing import Pool
from . import build, ir, kern, kcheck, regs, world, hcheck, fp, specs
from .ex import Ex, Ptr, Vec, Cells, Undecided, C0, TRUE, FALSE
from .world import World, start
from .kern import KSpec
from .poly import Poly
G = {}
ULP = 4
OPS = {'sin': 1, 'cos': 2, 'tan': 3, 'arcsin': 4, 'arccos': 5, 'arctan': 6, 'sinh': 7, 'cosh': 8, 'tanh': 9, 'arcsinh': 10, 'arccosh': 11, 'arctanh': 12, 'log': 13, 'log2': 14, 'log10': 15, 'exp': 16, 'exp2': 17, 'expm1': 18, 'log1p': 19, 'cbrt': 20}
TEXT = {
 'kernel': 'requires n>=1, arrays addressable at base+i*stride, output disjoint from or exactly aliased with the input; ensures for all i<n: out[i] is the value of the lane routine or of the scalar routine for in[i]; nothing else is written, nothing outside the input is read',
 'lane': 'ensures lane l of the result is the same function of lane l of the argument for every l, of nothing else; no memory of the caller is touched',
 'acc': 'for every one of the 2^32 values x, in a vector and one at a time: |result - f(x)| <= %d units in the last place of the exact value, NaN exactly where f is NaN, infinities and signs of zero as f' % ULP,
}
NI = ['-fno-inline', '-Dalways_inline=noinline']
def vecsig(f):
    """('lane', lane bits, lanes) or ('scalar', bits) of a function of one floating value to the same type"""
    if len(f.params) != 1: return None
    t = f.params[0][0]
    if isinstance(t, tuple) and t[0] == 'v' and isinstance(t[2], tuple) and t[2][0] == 'f': return ('lane', t[2][1], t[1])
    if isinstance(t, tuple) and t[0] == 'f': return ('scalar', t[1], 1)
    return None
def U(x): return fp.uf('U%d' % x.size(), x)
class Kernel:
    def __init__(self, mod, sym, t, alias): self.mod = mod; self.sym = sym; self.t = t; self.alias = alias; self.obls = []; self.used = set()
    def run(self, deadline):
        hooks = {}
        def hook(name, w):
            def h(ex, s, a, i):
                self.used.add(name)
                if len(a) != 1: raise Undecided('arguments of ' + name)
                v = a[0]
                if isinstance(v, Vec): return Vec([U(x) for x in ex.lanes(v, w, 256//w)], w)
                return U(ex.bv(v, w))
            return h
        for n in self.mod.ftext:
            f = self.mod.func(n)
            sg = vecsig(f) if f is not None and n != self.sym else None
            if sg: hooks[n] = hook(n, sg[1])
        sp = KSpec('U', [self.t], self.t, U, self.alias, None)
        # library routines called directly count as scalar routines
        self.ex, und = kern.verify(self.mod, self.sym, sp, deadline, hooks)
        self.obls = [(o[0], o[1], str(o[2])[:300]) for o in self.ex.obls]
        if und: raise Undecided(und)
class LaneWorld(World):
    def merge(self, ex, states):
        """paths that differ in the value of some memory only: one path with the choice in the values"""
        while True:
            for a in range(len(states)):
                for b in range(a + 1, len(states)):
                    m = self.join(ex, states[a], states[b])
                    if m is not None: states = [x for k, x in enumerate(states) if k not in (a, b)] + [m]; break
                else: continue
                break
            else: return states
    def join(self, ex, p, q):
        if (p.blk, p.prev, p.ip) != (q.blk, q.prev, q.ip): return None
        if [repr(x) for x in p.facts] != [repr(x) for x in q.facts]: return None
        ids = {x.get_id() for x in q.data}; common = [x for x in p.data if x.get_id() in ids]
        cid = {x.get_id() for x in common}
        c = z3.And(*[x for x in p.data if x.get_id() not in cid]); d = z3.And(*[x for x in q.data if x.get_id() not in cid])
        z = z3.Solver(); z.set('timeout', 2000); z.add(c == d)
        if z.check() != z3.unsat: return None       # the two ways must exclude and complete each other
        r = p.copy(); r.data = common
        def val(x, y):
            if x is y or repr(x) == repr(y): return x
            if isinstance(x, z3.BitVecRef) and isinstance(y, z3.BitVecRef) and x.size() == y.size(): return z3.If(c, x, y)
            return None
        for k in set(p.env) | set(q.env):
            if k not in p.env or k not in q.env: r.env.pop(k, None); continue
            v = val(p.env[k], q.env[k])
            if v is None:
                if isinstance(p.env[k], Vec): return None
                r.env.pop(k, None)
            else: r.env[k] = v
        for k in set(p.mem) | set(q.mem):
            x, y = p.mem.get(k), q.mem.get(k)
            if x is y: continue
            if type(x) is not Cells or type(y) is not Cells or x.size != y.size or x.size is None or x.size % 4: return None
            cell = {}
            for o in range(0, x.size, 4):
                u, v = [m.load(ex, s, Poly.const(o), ('i', 32), None) for m, s in ((x, p), (y, q))]
                try: u, v = ex.bv(u, 32), ex.bv(v, 32)
                except Undecided: return None
                w = u if u.eq(v) else z3.If(c, u, v)
                cell[o] = (4, w, ('i', 32))
            r.mem[k] = Cells(k, x.size, cell)
        return r
def atoms(e):
    out = set(); seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        st += x.children()
    return out
def lanesig(f):
    """(lanes, lane bits of every argument, of the result) of a function from vectors (or the scalars of one lane) to a vector"""
    def one(t):
        if isinstance(t, tuple) and t[0] == 'v' and isinstance(t[2], tuple) and t[2][0] in ('f', 'i') and t[2][1] > 1: return (t[1], t[2][1])
        return None
    ps = [one(t[0]) for t in f.params]; r = one(f.ret)
    if not ps or r is None or None in ps or any(p[0] != r[0] for p in ps): return None
    return (r[0], [p[1] for p in ps], r[1])
def callees(mod, sym):
    f = mod.func(sym); out = []
    for b in f.blocks.values():
        for i in b:
            for n in re.findall(r'call[^@]*@([\w.$]+)', i.txt or '') if i.op in ('call', 'invoke') else ():
                if n != sym and n not in out and mod.func(n) is not None: out.append(n)
    return out
class Lane:
    """a vector routine is one function applied to each lane; the vector routines it calls are replaced by their own contract"""
    def __init__(self, mod, sym, lanewise): self.mod = mod; self.sym = sym; self.obls = []; self.lanewise = lanewise
    def hooks(self):
        def hook(name, n, ws, rw):
            def h(ex, s, a, i):
                A = [ex.lanes(v, k, n) for v, k in zip(a, ws)]
                return Vec([fp.uf('L.%s%d' % (name, rw), *[q[l] for q in A], ret=rw) for l in range(n)], rw)
            return h
        return {c: hook(c, *lanesig(self.mod.func(c))) for c in self.lanewise if c != self.sym}
    def run(self, deadline):
        f = self.mod.func(self.sym); n, ws, w = lanesig(f)
        W = LaneWorld(); ex = Ex([self.mod], W, self.sym); self.ex = ex; ex.concrete = True; ex.params = frozenset(); ex.deadline = time.time() + deadline
        ex.hooks.update(self.hooks())
        X = [[z3.BitVec('x%d.%d' % (l, k), v) for k, v in enumerate(ws)] for l in range(n)]; own = [{str(v) for v in q} for q in X]
        st = start(ex, self.sym, [Vec([X[l][k] for l in range(n)], v) for k, v in enumerate(ws)])
        rs = [r for r in ex.explore(st, None) if r[0] == 'ret']
        ob = self.obls
        for o in ex.obls: ob.append((o[0], o[1], str(o[2])[:200]))
        ob.append(('reach', True if rs else False, 'returns'))
        R = [([c for c in t.data], ex.lanes(v, w, n)) for _, t, v in rs]
        Y = [z3.BitVec('y.%d' % k, v) for k, v in enumerate(ws)]
        # what one lane gives, and the conditions on that lane alone under which it does
        vals = []
        for pc, ls in R:
            for l, e in enumerate(ls):
                if atoms(e) <= own[l]:
                    E = fp.canon(z3.substitute(e, *zip(X[l], Y)))
                    cs = [fp.canon(z3.substitute(c, *zip(X[l], Y))) for c in pc if atoms(c) <= own[l]]
                    h = next((v for v in vals if v[0].eq(E)), None)
                    if h is None: vals.append((E, cs))
                    elif len(h[1]) > len(cs) and cs: vals[vals.index(h)] = (E, cs)
            if len(vals) > 4: break
        vals.sort(key=lambda v: -len(v[1]))
        if not vals: ob.append(('lane', False, 'no lane of the result is a function of its own lane only')); return
        F = vals[-1][0]
        for E, cs in reversed(vals[:-1]): F = z3.If(z3.And(*cs), E, F) if cs else F
        conds = [c for E, cs in vals[:-1] for c in cs]
        best = []
        for pc, ls in R:
            keep = [fp.canon(c) for c in pc]
            for l, e in enumerate(ls):
                G1 = F
                for c in conds:
                    cl = fp.canon(z3.substitute(c, *zip(Y, X[l])))
                    if any(cl.eq(k) for k in keep): G1 = z3.substitute(G1, (c, z3.BoolVal(True)))
                    elif any(z3.simplify(z3.Not(cl)).eq(k) for k in keep): G1 = z3.substitute(G1, (c, z3.BoolVal(False)))
                want = fp.canon(z3.substitute(G1, *zip(Y, X[l]))); e = fp.canon(e)
                if e.eq(want): best.append((True, l)); continue
                z = z3.Solver(); z.set('timeout', 10000); z.add(*pc); z.add(e != want)
                t0 = time.time(); r = z.check(); ex.solver_s += time.time() - t0
                best.append((True if r == z3.unsat else False if r == z3.sat else None, l))
                if len([1 for k in best if k[0] is not True]) > 8: break
            if len([1 for k in best if k[0] is not True]) > 8: break
        for ok, l in best: ob.append(('lane', ok, 'lane %d of the result is the common function of lane %d of the argument' % (l, l)))
def task(a):
    k = a[0]; o = None; used = []
    try:
        if k == 'kernel': o = Kernel(G['M'], *a[1:])
        else: o = Lane(G['M'], a[1], a[2])
        o.run(G['deadline']); und = None; used = sorted(getattr(o, 'used', ()))
    except Undecided as e:
        if os.environ.get('VF_DEBUG'): traceback.print_exc()
        und = str(e)[:200]; used = sorted(getattr(o, 'used', ()))
    except Exception: und = 'internal: ' + traceback.format_exc()[-300:]
    ob = [x for x in (o.obls if o is not None else [])]
    return a, ob, und, getattr(getattr(o, 'ex', None), 'solver_s', 0), used
def lanes(pool, mod, roots):
    """verify every vector routine reachable from the roots, callees first; a routine whose contract is not proved is looked into by its callers"""
    need = {}; st = list(roots)
    while st:
        n = st.pop()
        if n in need: continue
        need[n] = callees(mod, n); st += need[n]
    done = {}; good = set(); out = []
    while len(done) < len(need):
        lev = [n for n in need if n not in done and all(c in done for c in need[n])] or [n for n in need if n not in done]
        todo = []
        for n in lev:
            if lanesig(mod.func(n)): todo.append(('lane', n, sorted(good)))
            else: done[n] = 1
        for r in pool.imap_unordered(task, todo):
            n = r[0][1]; done[n] = 1
            ok = not r[2] and all(o[1] is True for o in r[1])
            if ok: good.add(n)
            if ok or n in roots: out.append(r)
    return out
def evaluate(R, w, lib, names):
    """all 2^32 values through the built kernels: [(name, max, bad lines, values)]"""
    exe = os.path.join(w.dir, 'trig')
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'native', 'trig.cpp')
    r = subprocess.run(['g++', '-O2', '-ftree-vectorize', '-mavx2', '-fopenmp-simd', '-fno-math-errno', '-o', exe, src, '-ldl', '-lm'], capture_output=True, text=True)
    if r.returncode: raise build.BuildError(r.stderr[-800:])
    P = 16; N = 2**32//P
    jobs = [(n, k) for n in names for k in range(P)]
    def one(j):
        n, k = j
        try: r = subprocess.run([exe, lib, str(OPS[n]), n, str(k*N), str(N), str(ULP), '1'], capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired: return n, None, [], 0, 'timeout'
        m = re.search(r'max (\S+) at (\S+) (\S*) n (\d+)', r.stdout)
        bad = [l for l in r.stdout.splitlines() if l.startswith('bad')]
        if r.returncode or not m: return n, None, bad, 0, 'ended with %s' % r.returncode if r.returncode else 'no kernel'
        return n, float(m.group(1)), bad, int(m.group(4)), None
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as p: return list(p.map(one, jobs))
def run_b04(R):
    w = build.Work()
    M = kcheck.load(w)
    I = world.Install(list(M.values()), w.inc)
    elem, red, prob = regs.derive(I)
    T = w.ir(['ops_trig', 'ops_log'], NI)
    mods = [ir.Module(T[k], k) for k in T]
    G['deadline'] = 100 if R.tier == 'quick' else 400
    for p in prob:
        if p[0] in OPS: R.undecided.append((p[2], 'registered loop of %s: %s' % (p[0], p[3])))
    jobs = []; floats = []
    for (u, t, sym, ot), nts in sorted(elem.items(), key=str):
        if u not in OPS: continue
        R.oblige(sym, 'signature', ot == t, '%s on numpy type %s gives type %s' % (u, nts, ot))
        mod = next((m for m in mods if m.func(sym)), None)
        if t not in (12,): R.undecided.append((sym, '%s on type %s: no accuracy contract for this type' % (u, t))); continue
        if mod is None: R.undecided.append((sym, 'not in the trigonometric modules')); continue
        floats.append(u)
        for al in (('A', 'C'), ('A', 'A')): jobs.append((mod, ('kernel', sym, t, al), u))
    if not jobs: R.notes.append('no transcendental kernel is registered')
    used = set()
    for mod in mods:
        js = [j[1] for j in jobs if j[0] is mod]
        if not js: continue
        G['M'] = mod
        with Pool(8) as pool:
            for a, ob, und, ss, us in R.take(pool.imap_unordered(task, js)):
                R.function(a[1], TEXT['kernel'], ob, und, ss, ''.join(a[3]) + ': ')
                used |= set(us)
            for a, ob, und, ss, _ in R.take(lanes(pool, mod, [s for s in sorted(used) if lanesig(mod.func(s))])): R.function(a[1], TEXT['lane'], ob, und, ss, '')
    lib = w.atoplib()
    if not R.enough():
        res = {}
        for n, mx, bad, cnt, err in evaluate(R, w, lib, sorted(set(floats))):
            e = res.setdefault(n, [0, [], 0, None]); e[1] += bad; e[2] += cnt
            if err: e[3] = err
            else: e[0] = max(e[0], mx)
        for n, (mx, bad, cnt, err) in res.items():
            R.notes.append('%s: largest error over all values %.3g units in the last place' % (n, mx))
            if err: R.undecided.append((n, 'evaluation of all values: ' + err)); continue
            ob = [('accuracy', not bad, '%s: %s' % (n, bad[0] if bad else 'all %d values, vector and scalar' % cnt))]
            R.function('%s (all 2^32 values)' % n, TEXT['acc'], ob, None, 0, '')
            for b in bad[:2]: R.found('%s of a float32: %s (limit %d)' % (n, b, ULP), dict(kind='trig', name=n, line=b))
    hcheck.concrete(R, w, [('trig', 'layouts, lengths <= 262145, float32/64, to 5 units in the last place')], 20)
    R.trusted = kcheck.TRUSTED + ['the double routines of libm as reference for float32 (their error is below 2^-28 of a float32 unit)', 'the accuracy lemma is evaluated on the g++ build over its whole finite domain, not derived from the contract of the arithmetic']
    R.assume = list(kcheck.ASSUME) + ['the scalar routines called (sinf, cosf, expf, logf) have no state and depend on their argument only']
