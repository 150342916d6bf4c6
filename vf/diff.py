"""Directed concrete search on the compiled kernels of the current tree (witnesses for failed obligations, and a
cross-check of the trusted IR semantics against the g++ build).  Every buffer ends at a guard page."""
import sys, os, json, ctypes, mmap, itertools, random, warnings, subprocess, time
import numpy as np
warnings.simplefilter('ignore'); np.seterr(all='ignore')
DT = {0: np.bool_, 1: np.int8, 2: np.uint8, 3: np.int16, 4: np.uint16, 5: np.int32, 6: np.uint32, 7: np.int64, 8: np.uint64, 12: np.float32, 13: np.float64}
BINF = ctypes.CFUNCTYPE(None, *([ctypes.c_void_p]*3 + [ctypes.c_int64]*4))
UNF = ctypes.CFUNCTYPE(None, *([ctypes.c_void_p]*2 + [ctypes.c_int64]*3))
REDF = ctypes.CFUNCTYPE(None, *([ctypes.c_void_p]*3 + [ctypes.c_int64]*2))
libc = ctypes.CDLL(None, use_errno=True)
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
UF = {'abs': np.absolute, 'bitwise_not': np.invert}
def ufunc(n): return UF.get(n) or getattr(np, n)

class Guard:
    """writable pages with inaccessible pages on both sides"""
    def __init__(self, pages=24):
        self.m = mmap.mmap(-1, (pages+2)*4096)
        self.base = ctypes.addressof(ctypes.c_char.from_buffer(self.m))
        self.lo = self.base + 4096; self.hi = self.base + (pages+1)*4096
        libc.mprotect(self.base, 4096, 0); libc.mprotect(self.hi, 4096, 0)
        self.size = self.hi - self.lo
        self.b = np.frombuffer((ctypes.c_uint8*self.size).from_address(self.lo), np.uint8)
    def place(self, n, stride, es, end, mis):
        """address of element 0 of n strided elements touching the end (or start) of the pages"""
        span = abs(stride)*(n-1) + es
        lo = (self.hi - span - mis) if end else self.lo + mis
        return lo if stride >= 0 else lo + abs(stride)*(n-1)
    def view(self, addr, n, stride, dt):
        return np.ndarray((n,), dt, buffer=self.b, offset=addr - self.lo, strides=(stride,)) if n else np.empty(0, dt)

def specials(dt):
    dt = np.dtype(dt)
    if dt == np.bool_: return np.array([0, 1], np.bool_)
    if dt.kind == 'f':
        fi = np.finfo(dt)
        v = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -2.5, 0.1, 0.3, 3.0, -3.0, 7.0, -7.0, np.inf, -np.inf, np.nan, -np.nan, fi.max, -fi.max, fi.tiny, -fi.tiny, fi.eps, 1+fi.eps, 1-fi.eps/2, 0.49999997, 0.49999999999999994, 2.0**(fi.nmant), 2.0**fi.nmant+1, 2.0**(fi.nmant-1)+0.5, 2.0**31, 2.0**63, -2.0**63, 1e10, 1e-10]
        a = np.array(v, dt)
        sub = np.array([1, 2, (1 << (fi.nmant))-1], np.uint32 if dt.itemsize == 4 else np.uint64).view(dt)
        return np.concatenate([a, sub, -sub])
    ii = np.iinfo(dt)
    v = {0, 1, 2, 3, 5, 7, 8, 16, 100, ii.max, ii.max-1, ii.min, ii.min+1, ii.max//2, ii.max//2+1, (ii.max >> (dt.itemsize*4))}
    if ii.min < 0: v |= {-1, -2, -3, -7, ii.min//2}
    if dt.itemsize == 8: v |= {1 << 32, (1 << 32)-1, (1 << 31), (1 << 33)+5}
    return np.array(sorted(v), dt)
def fill(rng, dt, n, hint=()):
    dt = np.dtype(dt)
    sp = specials(dt)
    m = rng.integers(0, 4)
    a = sp[rng.integers(0, len(sp), n)] if n else sp[:0].copy()
    if m:
        if dt == np.bool_: r = rng.integers(0, 2, n).astype(dt)
        elif dt.kind == 'f': r = (rng.standard_normal(n)*10.0**rng.integers(-3, 6)).astype(dt)
        else:
            ii = np.iinfo(dt); r = rng.integers(ii.min, ii.max, n, dtype=dt, endpoint=True) if m == 1 else rng.integers(0, 20, n).astype(dt)
        k = rng.integers(0, 2, n).astype(bool) if m < 3 else np.ones(n, bool)
        a = np.where(k, r, a).astype(dt)
    for h in hint:
        if n and rng.integers(0, 2): a[rng.integers(0, n)] = h
    return a
def same(got, want, tol):
    """elementwise equality as the property states it"""
    if got.dtype.kind == 'f':
        u = {4: np.uint32, 8: np.uint64}[got.dtype.itemsize]
        ok = (got.view(u) == want.view(u)) | (np.isnan(got) & np.isnan(want))
        if tol: ok |= (got == 0) & (want == 0)
        return ok
    return got == want

class Lib:
    def __init__(self, path):
        self.l = ctypes.CDLL(path)
        for n in ('atop_init',):
            f = getattr(self.l, n, None)
            if f is not None: f()
        self.w = ctypes.c_int(-1)
    def get(self, fn, *a, out=True):
        f = getattr(self.l, fn); f.restype = ctypes.c_void_p
        if out:
            self.w.value = -1
            p = f(*[ctypes.c_int(x) for x in a], ctypes.byref(self.w))
            return p, self.w.value
        return f(*[ctypes.c_int(x) for x in a]), None

NS = list(range(1, 36)) + [47, 48, 49, 63, 64, 65, 66, 79, 95, 96, 97, 100, 127, 128, 129, 130, 160, 191, 255, 256, 257, 260, 384, 513, 1000, 1025]
def stridesets(kind, es, eo):
    if kind == 'bin':
        return [(es, es, eo), (0, es, eo), (es, 0, eo), (0, 0, eo), (2*es, es, eo), (es, 2*es, eo), (es, es, 2*eo), (-es, es, eo), (es, -es, eo), (es, es, -eo), (3*es, -2*es, 2*eo), (0, 2*es, eo), (2*es, 0, eo), (es, 0, 2*eo), (0, es, 2*eo), (-es, -es, -eo)]
    return [(es, eo), (0, eo), (2*es, eo), (es, 2*eo), (-es, eo), (es, -eo), (3*es, 2*eo), (-es, -eo)]

def cases(kind, es, eo, rng, rounds):
    al = ['ABC', 'AAC', 'ABA', 'ABB', 'AAA'] if kind == 'bin' else ['AC', 'AA']
    if es != eo: al = al[:2] if kind == 'bin' else al[:1]
    for r in range(rounds):
        for n in NS:
            for ss in stridesets(kind, es, eo) if n < 70 or n % 32 in (0, 1) else stridesets(kind, es, eo)[:5]:
                a = al[int(rng.integers(0, len(al)))] if rng.integers(0, 2) else al[0]
                s = list(ss)
                if a[-1] in a[:-1]:
                    if s[-1] == 0: continue
                    for i, ch in enumerate(a[:-1]):
                        if ch == a[-1]: s[i] = s[-1]
                if kind == 'bin' and a[0] == a[1]: pass
                yield dict(n=n, s=s, al=a, end=bool(rng.integers(0, 3)), mis=[int(rng.integers(0, 33)) * (es if rng.integers(0, 2) else 0) for _ in range(len(a))], seed=int(rng.integers(0, 2**31)))

G = None
def runcase(f, name, kind, t, to, tol, c, hint=()):
    """None or a description of the failure"""
    global G
    if G is None: G = [Guard(), Guard(), Guard()]
    rng = np.random.default_rng(c['seed'])
    n = c['n']; al = c['al']; k = len(al)
    es = np.dtype(DT[t]).itemsize; eo = np.dtype(DT[to]).itemsize
    addr = {}
    for i, ch in enumerate(al):
        e = eo if i == k-1 else es
        span = max(abs(s) for j, s in enumerate(c['s']) if al[j] == ch)
        if ch not in addr:
            ss = [s for j, s in enumerate(c['s']) if al[j] == ch]
            g = G[len(addr)]
            # both strides of a shared input must stay inside
            big = max(ss, key=abs); neg = min(ss) < 0
            mis = c['mis'][i] // e * e
            if neg and max(ss) > 0:
                a = g.lo + g.size//2//e*e
            else: a = g.place(n, big, e, c['end'], mis)
            if neg and max(ss) <= 0 or not neg: pass
            addr[ch] = (a, g)
    for g in G: g.b[:] = rng.integers(0, 256, g.size, np.uint8) if False else 0xA5
    ins = []
    for i in range(k-1):
        a, g = addr[al[i]]
        v = g.view(a, n, c['s'][i], DT[t])
        if c['s'][i] == 0: v[:1] = fill(rng, DT[t], 1, hint[i:i+1] if rng.integers(0, 2) else ())
        else: v[:] = fill(rng, DT[t], n, hint[i:i+1])
        ins.append(v)
    before = [g.b.copy() for g in G]
    ref = [v.copy() for v in ins]
    want = np.asarray(ufunc(name)(*ref))
    if want.dtype != np.dtype(DT[to]): return 'result type %s, numpy %s' % (np.dtype(DT[to]), want.dtype)
    a, g = addr[al[-1]]
    args = [addr[ch][0] for ch in al] + [n] + c['s']
    f(*args)
    got = g.view(a, n, c['s'][-1], DT[to]).copy()
    if to == 0 and (got.view(np.uint8) > 1).any():
        i = int(np.nonzero(got.view(np.uint8) > 1)[0][0]); return 'element %d: boolean byte %d' % (i, got.view(np.uint8)[i])
    ok = same(got, want, tol)
    if not ok.all():
        i = int(np.nonzero(~ok)[0][0])
        return 'element %d of %d: inputs %s -> %r, numpy %r' % (i, n, [repr(x[i]) for x in ref], got[i], want[i])
    # nothing else written
    vi = g.view(a, n, c['s'][-1], DT[to])
    for g2, b in zip(G, before):
        d = np.nonzero(g2.b != b)[0]
        if g2 is g:
            m = np.zeros(g.size, bool)
            o = a - g.lo + np.arange(n)*c['s'][-1]
            for j in range(eo): m[o + j] = True
            d = d[~m[d]]
        if len(d): return 'byte %d outside the output was changed' % d[0]
    return None

def main():
    """stdin: json {lib, jobs, seed, rounds, until}; one json line per result"""
    q = json.load(sys.stdin)
    L = Lib(q['lib'])
    prog = os.open(q['progress'], os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    out = {}
    end = time.time() + q['budget']
    total = 0
    for j in q['jobs']:
        if j.get('reduce'):
            r = redjob(L, j, q, prog, end)
        else: r = elemjob(L, j, q, prog, end)
        print(json.dumps(r), flush=True)
def elemjob(L, j, q, prog, end):
    name, kind, t = j['name'], j['kind'], j['t']
    p = None
    for fn in j['fns']:
        p, w = L.get(fn, *j['ops'])
        if p: break
    if not p: return dict(job=j, ran=0, fail=None, missing=True)
    f = (BINF if kind == 'bin' else UNF)(p)
    es = np.dtype(DT[t]).itemsize
    if w not in DT: return dict(job=j, ran=0, fail='out type %s' % w, case=None)
    eo = np.dtype(DT[w]).itemsize
    rng = np.random.default_rng(q['seed'])
    hint = [np.array([h], np.uint64).astype({1: np.uint8, 2: np.uint16, 4: np.uint32, 8: np.uint64}[es]).view(DT[t])[0] for h in j.get('hint', [])]
    only = j.get('case')
    ran = 0
    for c in ([only] if only else cases(kind, es, eo, rng, q['rounds'])):
        os.pwrite(prog, (json.dumps(dict(job=j, case=c)) + ' '*400).encode(), 0)
        r = runcase(f, name, kind, t, w, j.get('tol'), c, hint)
        ran += 1
        if r: return dict(job=j, ran=ran, fail=r, case=c)
        if time.time() > end: break
    return dict(job=j, ran=ran, fail=None)

def redref(name, t, a, start):
    """the value numpy's reduce contract fixes: exact for integers; for floats checked with a tolerance by the caller"""
    dt = np.dtype(DT[t])
    x = np.concatenate([np.array([start], dt), a])
    if t == 0:
        return {'add': np.any, 'multiply': np.all, 'maximum': np.any, 'minimum': np.all}[name](x)
    if dt.kind == 'f':
        return {'add': np.sum, 'multiply': np.prod, 'maximum': np.max, 'minimum': np.min}[name](x.astype(np.longdouble))
    with np.errstate(all='ignore'):
        return {'add': lambda v: np.add.reduce(v, dtype=dt), 'multiply': lambda v: np.multiply.reduce(v, dtype=dt), 'maximum': np.max, 'minimum': np.min}[name](x)
def redjob(L, j, q, prog, end):
    global G
    if G is None: G = [Guard(), Guard(), Guard()]
    name, t = j['name'], j['t']
    p, _ = L.get(j['fns'][0], *j['ops'], out=False)
    if not p: return dict(job=j, ran=0, fail=None, missing=True)
    f = REDF(p)
    dt = np.dtype(DT[t]); es = dt.itemsize
    rng = np.random.default_rng(q['seed'])
    ran = 0
    def cs():
        if j.get('case'): yield j['case']; return
        for r in range(q['rounds']):
            for n in NS + [1500, 2049, 4099]:
                for s in (es, 2*es, 0, -es, 3*es):
                    if abs(s)*n > 80000: continue
                    yield dict(n=n, s=s, seed=int(rng.integers(0, 2**31)), end=bool(rng.integers(0, 2)), mis=int(rng.integers(0, 33))*es, ip=bool(rng.integers(0, 2)))
    for c in cs():
        os.pwrite(prog, (json.dumps(dict(job=j, case=c)) + ' '*400).encode(), 0)
        rg = np.random.default_rng(c['seed'])
        n = c['n']; s = c['s']
        g = G[0]; o = G[1]; st = G[2]
        for x in G: x.b[:] = 0xA5
        a = g.place(n, s, es, c['end'], c['mis'])
        v = g.view(a, n, s, dt)
        if dt.kind == 'f':
            # values whose sums and products are exact, each element distinguishable
            if name == 'add': d = rg.integers(-1000, 1000, n).astype(dt)
            else: d = np.where(rg.integers(0, 8, n) == 0, np.array([2, .5, -1, 1.5])[rg.integers(0, 4, n)], 1).astype(dt)
        else: d = fill(rg, dt, n) if name != 'multiply' or t == 0 else (rg.integers(0, 2, n)*2+1).astype(dt) if rg.integers(0, 2) else fill(rg, dt, n)
        if t == 0 and rg.integers(0, 2): d[:] = name in ('multiply', 'minimum'); d[rg.integers(0, n)] ^= True
        if s == 0: v[:1] = d[:1]
        else: v[:] = d
        a0 = v.copy()
        start = fill(rg, dt, 1)[0] if dt.kind != 'f' else dt.type(rg.integers(-3, 4) or 1)
        if name == 'add' and t == 0: start = np.bool_(rg.integers(0, 2))
        od = o.hi - es; sd = od if c['ip'] else st.hi - es
        (o if c['ip'] else st).b[-es:].view(dt)[0] = start
        b = [x.b.copy() for x in G]
        f(a, od, sd, n, s)
        got = o.b[-es:].view(dt)[0]
        ran += 1
        want = redref(name, t, a0, start)
        fail = None
        if dt.kind == 'f':
            if not (float(got) == float(dt.type(want))):
                lim = 0 if name == 'add' else 1e-5
                if abs(float(got) - float(want)) > lim*abs(float(want)): fail = 'got %r, exact %r' % (got, want)
        elif got != want or (t == 0 and o.b[-1] > 1): fail = 'got %r, numpy %r' % (got, want)
        o.b[-es:] = b[1][-es:]
        for x, y in zip(G, b):
            if (x.b != y).any(): fail = fail or 'wrote outside the result'
        if fail: return dict(job=j, ran=ran, fail='n=%d stride=%d start=%r: %s' % (n, s, start, fail), case=c)
        if time.time() > end: break
    return dict(job=j, ran=ran, fail=None)

def run(lib, jobs, work, seed=1, rounds=1, budget=60, procs=8):
    """-> (results, crashes) ; a crash is itself a witness"""
    res = []
    chunks = [jobs[i::procs] for i in range(procs)]
    ps = []
    me = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for i, ch in enumerate(chunks):
        if not ch: continue
        prog = os.path.join(work, 'prog%d.%d' % (os.getpid(), i))
        p = subprocess.Popen([sys.executable, '-m', 'vf.diff'], cwd=me, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        ps.append((p, prog, json.dumps(dict(lib=lib, jobs=ch, seed=seed, rounds=rounds, budget=budget, progress=prog))))
    from concurrent.futures import ThreadPoolExecutor
    def comm(x):
        try: return x[0].communicate(x[2], timeout=budget + 120)
        except subprocess.TimeoutExpired:
            x[0].kill(); o = x[0].communicate(); return (o[0], 'TIMEOUT')
    with ThreadPoolExecutor(procs) as ex: outs = list(ex.map(comm, ps))
    for (p, prog, _), (so, se) in zip(ps, outs):
        for l in so.splitlines():
            try: res.append(json.loads(l))
            except ValueError: pass
        if p.returncode != 0:
            try: pr = json.loads(open(prog).read().strip())
            except Exception: pr = None
            if se == 'TIMEOUT' or (p.returncode < 0 and pr):
                if pr: res.append(dict(job=pr['job'], case=pr['case'], ran=1, fail='crashed with signal %d' % -p.returncode if se != 'TIMEOUT' else 'did not return', crash=True))
            else: raise RuntimeError('differential driver failed: ' + (se or '')[-1500:])
    return res
if __name__ == '__main__': main()
