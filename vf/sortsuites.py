"""Sort, argsort, lexsort, indexing, conversion and fill cases (vf.suites registers them)."""
import numpy as np
from .pyrun import same
from . import suites as S

TY = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'Q', 'f2', 'f4', 'f8', 'g', 'S1', 'S3', 'S8', 'S11', 'U1', 'U3', 'M8[s]', 'm8[ns]', 'F', '>i4', '>f8', '>u2', '>U2']
LEN = [0, 1, 2, 3, 4, 5, 7, 8, 13, 14, 15, 16, 17, 18, 29, 30, 31, 32, 33, 34, 47, 60, 61, 62, 63, 64, 65, 100, 127, 250, 255, 600, 1000, 3000, 10007]
BIGL = [65535, 65536, 65537, 65543, 70001, 98303, 131072, 131079, 200003]
KINDS = ['quicksort', 'heapsort', 'stable']
PAT = ['rand', 'few', 'sorted', 'rev', 'organ', 'saw', 'const', 'killer', 'near', 'two', 'ends', 'blocks']

def ranks(rng, n, pat):
    """n integers ordered in a way that exercises one branch of the algorithms"""
    if n == 0: return np.zeros(0, 'i8')
    a = np.arange(n)
    if pat == 'rand': return rng.permutation(n)
    if pat == 'few': return rng.integers(0, 4, n)
    if pat == 'sorted': return a
    if pat == 'rev': return a[::-1].copy()
    if pat == 'organ': return np.minimum(a, n - 1 - a)
    if pat == 'saw': return a % max(1, int(rng.integers(2, 40)))
    if pat == 'const': return np.zeros(n, 'i8')
    if pat == 'near':
        b = a.copy(); k = int(rng.integers(1, 6))
        for _ in range(k):
            i, j = rng.integers(0, n, 2); b[i], b[j] = b[j], b[i]
        return b
    if pat == 'two': return rng.integers(0, 2, n)
    if pat == 'ends':
        b = a.copy(); b[0], b[-1] = b[-1], b[0]; return b
    if pat == 'blocks':
        # every eighth sorted, some neighbours already in order
        k = max(1, n//8); m = n//k + 1; o = rng.permutation(m)
        return np.concatenate([np.arange(k) + (o[i] if rng.integers(0, 2) else i)*k for i in range(m)])[:n]
    # median of three killer
    b = np.empty(n, 'i8'); k = n//2
    for i in range(1, k + 1):
        if i & 1: b[i - 1] = i; b[min(i, n - 1)] = k + i
        b[min(k + i - 1, n - 1)] = 2*i
    b[-1] = n
    return b

def tovals(rng, r, t, nan=True):
    dt = np.dtype(t)
    n = len(r)
    if dt == np.bool_: return (r % 2).astype(bool)
    if dt.kind in 'iu':
        ii = np.iinfo(dt); k = rng.integers(0, 3)
        if k == 0: return (r % 200 - (100 if dt.kind == 'i' else 0)).astype(dt)
        b = (r.astype('i8') - (len(r)//2 if dt.kind == 'i' else 0)).astype(dt.newbyteorder('='))
        if k == 1 and n:
            m = rng.integers(0, 6, n) == 0
            b[m] = rng.choice(np.array([ii.min, ii.max, 0], b.dtype), int(m.sum()))
        return b.astype(dt)
    if dt.kind in 'fc':
        b = ((r.astype('f8') - n//2)/4).astype(dt.newbyteorder('='))
        if dt.kind == 'c': b = b + (1j*rng.integers(0, 3, n)).astype(b.dtype)
        if n and nan:
            k = rng.integers(0, 4)
            if k:
                sp = [[np.nan], [np.nan, np.inf, -np.inf, 0.0, -0.0], [0.0, -0.0]][k - 1]
                m = rng.integers(0, [4, 12, 2][int(rng.integers(0, 3))], n) == 0
                b[m] = rng.choice(np.array(sp, b.real.dtype), int(m.sum()))
                if k == 1 and rng.integers(0, 4) == 0: b[:] = np.nan
        return b.astype(dt)
    if dt.kind in 'SU':
        m = dt.itemsize if dt.kind == 'S' else dt.itemsize//4
        pre = 'x'*int(rng.integers(0, max(1, m - 1)))
        b = np.array([(pre + str(int(x)))[-m:] if x % 7 else '' for x in r % 100003], 'U%d' % m) if n < 4000 else (r % 100003).astype('U%d' % m)
        if dt.kind == 'S':
            b = b.astype(dt)
            if n and rng.integers(0, 2):
                v = b.view('u1').reshape(n, m).copy(); v[rng.integers(0, n), rng.integers(0, m)] = 200; b = v.reshape(-1).view(dt)
            return b
        return b.astype(dt)
    if dt.kind in 'mM':
        b = (r.astype('i8') - n//2).view(dt)
        if n and rng.integers(0, 2): b[rng.integers(0, 5, n) == 0] = 'NaT'
        return b
    raise ValueError(t)

def nat(x):
    """native byte order (pickling an array loses the byte order, not the values)"""
    if isinstance(x, (list, tuple)): return [nat(y) for y in x]
    return x.astype(x.dtype.newbyteorder('=')) if isinstance(x, np.ndarray) else x

def place(rng, a, how):
    """the values of a with another memory layout, in a buffer whose other bytes are known"""
    n = len(a); dt = a.dtype
    if how == 'c': return a, None
    if how in 's2':
        k = 3 if how == 's' else 2
        b = tovals(rng, rng.permutation(k*n + 2), dt.str) if dt.kind not in 'SU' else np.zeros(k*n + 2, dt)
        v = b[1:1 + k*n:k] if n else b[:0]
        v[...] = a; return v, b
    if how == 'r':
        b = np.zeros(n, dt); v = b[::-1]; v[...] = a; return v, b
    if how == 'm':
        b = np.full(n*dt.itemsize + 17, 7, 'u1'); v = b[1:1 + n*dt.itemsize].view(dt); v[...] = a; return v, b
    raise ValueError(how)

def workers(rng, pn, np):
    w = int(rng.choice([1, 2, 3, 7, 100])); off = rng.integers(0, 8) == 0
    if pn is not None:
        pn.enable(); pn.thread_setworkers(w)
        if off: pn.thread_disable()

class Sort(S.Suite):
    lens = LEN
    types = TY
    def cases(self, rng, tier):
        while True:
            n = int(rng.choice(self.lens)) if rng.integers(0, 3) else int(rng.integers(self.lens[0], self.lens[-1]))
            t = str(rng.choice(self.types))
            if n > 60000 and t == '?' : continue
            yield dict(t=t, n=n, pat=str(rng.choice(PAT)), kind=str(rng.choice(KINDS)), how=str(rng.choice(list('cccs2rm'))), fn=str(rng.choice(['np', 'meth', 'pn', '2d', '_'])), s=int(rng.integers(0, 2**31)))
    def make(self, c):
        rng = np.random.default_rng(c['s'])
        n = c['n']
        a = tovals(rng, ranks(rng, n, c['pat']), c['t'])
        v, b = place(rng, a, c['how'])
        return rng, v, b
    def run(self, np, c, pn):
        rng, v, b = self.make(c)
        workers(rng, pn, np)
        k = c['kind']; f = c['fn']
        if f == 'meth':
            v.sort(kind=k)
            if c['how'] == 'm': b = np.concatenate([b[:1], b[1 + v.nbytes:]])   # what surrounds the array
            return [v.copy(), None if b is None else b.copy()]
        if f == 'pn': f2 = (pn or np).sort; return [f2(v, kind=k), f2(v, axis=None, kind=k), v.copy()]
        if f == '_' and pn is not None and v.dtype.kind not in 'cmM' and v.dtype.isnative and c['how'] in 'cm':
            return [pn._pnumpy.sort(v, kind=k), v.copy()]
        if f == '2d' and c['n'] >= 4:
            m = v[:c['n']//3*3].reshape(3, -1); return [np.sort(m, axis=0, kind=k), np.sort(m, axis=1, kind=k), np.sort(m, axis=None, kind=k)]
        return [np.sort(v, kind=k), v.copy()]
    def cmp(self, c, ref, got):
        ref = nat(ref); got = nat(got)
        if c['kind'] == 'stable' and np.dtype(c['t']).kind != 'c': return same(ref, got, {})
        d = same(ref, got, {'zero': True})
        if d: return d
        # the same values: signs of zero may move, not change in number
        # (NumPy's own AVX512 quicksort changes the number: layouts and types that are left to NumPy are not compared)
        _, v, _ = self.make(c)
        if c['t'] in ('f4', 'f8', 'g') and c['how'] == 'c' and c['fn'] != '2d' and np.signbit(v[v == 0]).sum() != np.signbit(got[0][got[0] == 0]).sum(): return 'values changed: %d negative zeros, %d after sorting' % (np.signbit(v[v == 0]).sum(), np.signbit(got[0][got[0] == 0]).sum())
        return None

class ArgSort(Sort):
    def cases(self, rng, tier):
        for c in Sort.cases(self, rng, tier):
            c['fn'] = str(rng.choice(['np', 'np', 'lex', 'lex32', 'lex64', 'cut', 'pn', '2d', 'index']))
            c['nk'] = int(rng.integers(1, 4)); c['t2'] = [str(x) for x in rng.choice(TY, 2)]
            yield c
    def keys(self, c, rng, v):
        ks = [v]
        for i in range(c['nk'] - 1): ks.append(tovals(rng, ranks(rng, c['n'], str(rng.choice(['few', 'two', 'rand', 'saw']))), c['t2'][i]))
        if rng.integers(0, 2): ks.reverse()
        return ks
    def run(self, np, c, pn):
        rng, v, b = self.make(c)
        workers(rng, pn, np)
        f, k = c['fn'], c['kind']
        if f == 'pn': return (pn or np).argsort(v, kind=k)
        if f == '2d' and c['n'] >= 4:
            m = v[:c['n']//3*3].reshape(3, -1); return [np.argsort(m, axis=0, kind=k), np.argsort(m, axis=1, kind=k)]
        if f in ('lex', 'lex32', 'lex64', 'cut', 'index'):
            ks = self.keys(c, rng, v)
            if f == 'lex':
                return (pn or np).lexsort(tuple(ks)) if c['nk'] > 1 or True else None
            n = c['n']
            ok = n > 0 and all(x.dtype.isnative and x.dtype.kind not in 'cmM' and x.strides[0] == x.itemsize for x in ks)
            fn = None if pn is None else getattr(pn._pnumpy, 'lexsort64' if f == 'lex64' or c['s'] & 1 else 'lexsort32')
            if f == 'cut' and ok:
                cut = np.unique(np.concatenate([rng.integers(0, n + 1, int(rng.integers(0, 6))), [n]])).astype('i8')
                if rng.integers(0, 3) == 0: cut = np.sort(np.concatenate([cut, cut[:1]]))
                if pn is None:
                    out = []; p = 0
                    for e in cut: out.append(np.lexsort([x[p:e] for x in ks])); p = e
                    return np.concatenate(out)
                return np.asarray(fn(ks, cutoffs=cut)).astype('i8')
            if f == 'index' and ok:
                m = int(rng.integers(1, n + 1)); ix = rng.permutation(n)[:m]
                if pn is None:
                    for x in ks: ix = ix[np.argsort(x[ix], kind='stable')]
                    return ix
                ix = ix.astype('i8' if fn.__name__ == 'lexsort64' else 'i4')
                return np.asarray(fn(ks, index=ix)).astype('i8')
            if pn is None or not ok or f in ('cut', 'index'): return np.lexsort(ks)
            return np.asarray(fn(ks)).astype('i8')
        return np.argsort(v, kind=k)
    def cmp(self, c, ref, got):
        if c['fn'] == 'lex' and isinstance(got, np.ndarray): got = got.astype('i8')
        if c['kind'] == 'stable' or c['fn'] in ('lex', 'lex32', 'lex64', 'cut', 'index'): return same(ref, got, {})
        rng, v, b = self.make(c)
        if isinstance(ref, list) and ref and isinstance(ref[0], str): return same(ref, got)
        two = c['fn'] == '2d' and c['n'] >= 4
        m = v[:c['n']//3*3].reshape(3, -1) if two else v
        for ax, r, g in (zip((0, 1), ref, got) if two else [(-1, ref, got)]):
            if not isinstance(g, np.ndarray): return 'got %r' % (g,)
            if g.shape != r.shape or g.dtype != r.dtype: return 'shape or type %s %s' % (g.shape, g.dtype)
            if not (np.sort(g, axis=ax) == np.sort(r, axis=ax)).all(): return 'not a permutation'
            d = same(np.take_along_axis(m, r, ax), np.take_along_axis(m, g, ax), {'zero': True})
            if d: return d
        return None
class BigSort(Sort):
    lens = BIGL
    types = ['i1', 'u2', 'i4', 'u8', 'i8', 'f4', 'f8', 'g', 'S3', 'U2', 'f2', 'i2', 'u4', 'u1', '>f8']
class BigArgSort(ArgSort):
    lens = BIGL
    types = BigSort.types
class Arange(S.Suite):
    def cases(self, rng, tier):
        T = ['i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'Q', 'f2', 'f4', 'f8', 'g', 'F', 'D', 'M8[s]', 'm8[s]', '>i4', '>f8', '?']
        while True:
            k = int(rng.integers(0, 6))
            n = int(rng.integers(0, 300)) if k < 3 else int(rng.choice(LEN)) if k == 3 else int(rng.integers(16300, 16500)) if k == 4 else int(rng.choice(BIGL)) + int(rng.integers(-3, 9))
            yield dict(t=str(rng.choice(T)), n=n, how=str(rng.choice(['arange', 'arange', 'fill', 'linlike', 'infer'])), s=int(rng.integers(0, 2**31)))
    def run(self, np, c, pn):
        rng = np.random.default_rng(c['s'])
        dt = np.dtype(c['t']); n = c['n']; k = dt.kind
        workers(rng, pn, np)
        if k in 'iub':
            i = np.iinfo(dt) if k != 'b' else None
            if k == 'b': return np.arange(min(n, 2), dtype=dt)
            a = int(rng.integers(max(int(i.min), -2**62), min(int(i.max), 2**62))) if rng.integers(0, 2) else int(rng.integers(0, 5))
            d = int(rng.choice([1, 1, 2, 3, 7, -1, -3, 100, 2**20 + 1])) if rng.integers(0, 3) else int(rng.integers(1, 2**40))
            if rng.integers(0, 2): d = -d
        elif k in 'mM': a, d = int(rng.integers(-10**9, 10**9)), int(rng.choice([1, -1, 3600, 86400, 7]))
        else:
            a = float(rng.choice([0, 1, -1, 0.1, 1e6, -3.7, 1e-3, 2.0**24, 1e30])) + float(rng.standard_normal())*int(rng.integers(0, 2))
            d = float(rng.choice([1, 0.1, -0.1, 1/3, 2, 1e-9, 1e5, -7.3, 1e30])) * (1 + float(rng.random())*int(rng.integers(0, 2)))
        how = c['how']
        try:
            if how == 'infer' and k in 'if': r = np.arange(a, a + d*n, d)
            elif how == 'linlike': r = np.arange(n, dtype=dt)
            elif k == 'M': r = np.arange(np.datetime64(a, 's'), np.datetime64(a + d*n, 's'), np.timedelta64(d, 's'))
            elif k == 'm': r = np.arange(np.timedelta64(a, 's'), np.timedelta64(a + d*n, 's'), np.timedelta64(d, 's'))
            else: r = np.arange(a, a + d*n, d, dtype=dt)
        except (ValueError, OverflowError, TypeError, MemoryError) as e: return [type(e).__name__]
        if r.size > 2**20: return r.size
        return [r.astype(r.dtype.newbyteorder('=')), r.dtype.str]
class Records(S.Suite):
    def cases(self, rng, tier):
        while True:
            k = int(rng.integers(0, 8))
            n = int(rng.integers(0, 70)) if k < 4 else int(rng.choice([0, 1, 2, 5, 100, 333, 1000, 4096])) if k < 6 else int(rng.choice([16383, 16384, 16385, 32768, 32769, 40000, 50001]))
            yield dict(n=n, how=str(rng.choice(['c', 'c', 'c', 'v', 'r', '2d', 'f', 't', 'ro', '0d'])), par=bool(rng.integers(0, 6)), s=int(rng.integers(0, 2**31)))
    def make(self, c):
        rng = np.random.default_rng(c['s']); n = c['n']
        F = ['?', 'i1', 'u1', 'i2', 'u2', 'f2', 'i4', 'u4', 'f4', 'i8', 'u8', 'f8', 'g', 'F', 'D', 'M8[s]', 'm8[ns]', 'S1', 'S2', 'S3', 'S4', 'S5', 'S7', 'S8', 'S9', 'S11', 'S16', 'S17', 'S33', 'U1', 'U2', 'U3', 'U9', '>i4', '>f8', '>u2', 'S0', 'S100']
        if n < 2000: F = F + ['S1500', 'S5000']
        fs = [str(x) for x in rng.choice(F, int(rng.integers(1, 10)))]
        nm = ['f%d' % i for i in range(len(fs))]
        kind = int(rng.integers(0, 6))
        if kind == 0: dt = np.dtype({'names': nm, 'formats': fs}, align=True)
        elif kind == 1:
            off = []; p = int(rng.integers(0, 5))
            for f in fs: off.append(p); p += np.dtype(f).itemsize + int(rng.integers(0, 9))
            dt = np.dtype({'names': nm, 'formats': fs, 'offsets': off, 'itemsize': p + int(rng.integers(0, 40))})
        elif kind == 2:
            sz = max(np.dtype(f).itemsize for f in fs) + 8
            dt = np.dtype({'names': nm, 'formats': fs, 'offsets': [int(rng.integers(0, sz - np.dtype(f).itemsize + 1)) for f in fs], 'itemsize': sz})
        elif kind == 3 and len(fs) > 1: dt = np.dtype([(('title %s' % a, a), f) if i % 2 else (a, f) for i, (a, f) in enumerate(zip(nm, fs))])
        elif kind == 4 and rng.integers(0, 2): dt = np.dtype([(a, f, (2,)) if i == 1 else (a, f) for i, (a, f) in enumerate(zip(nm, fs))])
        else: dt = np.dtype(list(zip(nm, fs)))
        tot = dt.itemsize*n*2
        b = np.frombuffer(rng.bytes(tot), 'u1') if tot else np.zeros(0, 'u1')
        x = np.ndarray((2*n,), dt, buffer=b.copy() if tot else None)
        h = c['how']
        if h == 'v': return x[::2]
        if h == 'r': return x[:n][::-1]
        if h in ('2d', 'f', 't') and n >= 6:
            m = x[:n//3*3].reshape(3, -1); return m if h == '2d' else np.asfortranarray(m) if h == 'f' else m.T
        x = x[:n]
        if h == 'ro': x.flags.writeable = False
        if h == '0d' and n: return x[0:1].reshape(())
        return x
    def run(self, np, c, pn):
        x = self.make(c)
        rng = np.random.default_rng(c['s'])
        workers(rng, pn, np)
        before = x.tobytes()
        if pn is None: d = {k: x[k].copy() for k in x.dtype.names}
        else: d = pn.recarray_to_colmajor(x, parallel=c['par'])
        return [list(d), [a.dtype.newbyteorder('=').str.replace('0', '1') if a.dtype.kind == 'S' and a.dtype.itemsize < 2 else a.dtype.str for a in d.values()], [list(a.shape) for a in d.values()], [np.frombuffer(np.ascontiguousarray(a).tobytes(), 'u1') if x.dtype[k].itemsize else 0 for k, a in d.items()], bool(before == x.tobytes())]
class GetItem(S.Suite):
    MODES = ['bool', 'hook', 'int', 'int']
    F = ['?', 'i1', 'u1', 'i2', 'u2', 'f2', 'i4', 'u4', 'f4', 'i8', 'u8', 'f8', 'g', 'F', 'D', 'G', 'M8[s]', 'm8[ns]', 'S1', 'S3', 'S5', 'S7', 'S8', 'S9', 'S16', 'S33', 'U1', 'U2', 'U4', 'U9', '>i4', '>f8', '>u2', '>U3', '>M8[us]', 'V3', 'V16', 'V130', 'i4,f8', 'S1500', 'U300']
    def cases(self, rng, tier):
        while True:
            k = int(rng.integers(0, 8))
            n = int(rng.integers(0, 90)) if k < 4 else int(rng.choice([0, 1, 31, 32, 33, 255, 256, 257, 1000, 8160, 8192, 8193, 16383, 16384, 16385])) if k < 6 else int(rng.choice([65535, 65536, 65537, 70001, 98304, 131073]))
            yield dict(n=n, what=str(rng.choice(self.MODES)), s=int(rng.integers(0, 2**31)))
    def vals(self, rng, dt, n):
        dt = np.dtype(dt)
        k = int(rng.choice([1, 1, 1, 2, 3])); rev = rng.integers(0, 4) == 0
        base = np.empty(n*k + 1, dt)
        v = base.view('u1')
        v[:] = rng.integers(0, 256, v.size, dtype='u1') if dt.kind not in 'bU' else rng.integers(0, 2, v.size, dtype='u1') if dt.kind == 'b' else 0
        if dt.kind == 'U': base.view(np.dtype('u4').newbyteorder(dt.byteorder))[:] = rng.integers(0, 200, base.size*(dt.itemsize//4))
        x = base[:n*k:k]
        return x[::-1] if rev else x
    def mask(self, rng, n):
        k = int(rng.choice([1, 1, 1, 2, 5])); p = float(rng.choice([0, 0.02, 0.5, 0.98, 1]))
        m = (rng.random(n*k) < p)
        if rng.integers(0, 2) and n: # runs of equal values
            m = np.repeat(rng.random(n*k//8 + 1) < p, 8)[:n*k].copy()
        m = m[:n*k:k]
        return m[::-1] if rng.integers(0, 4) == 0 else m
    def default(self, rng, dt):
        """(argument, the item expected for an index out of range)"""
        dt = np.dtype(dt); k = dt.kind; one = np.zeros(1, dt)
        if k in 'bui' and dt.isnative and rng.integers(0, 2):
            if k == 'b': d = [0, 1, 5, -1, True, False, 0.0, 2.5][int(rng.integers(0, 8))]; return d, np.array([bool(d)])
            lo, hi = int(np.iinfo(dt).min), int(np.iinfo(dt).max)
            d = [lo, hi, 0, 1, hi//3, True][int(rng.integers(0, 6))]; one[0] = d
            return (np.dtype(dt).type(d) if d is not True and rng.integers(0, 2) else d), one
        if k == 'f' and dt.itemsize in (4, 8, 16) and rng.integers(0, 2):
            d = [1.5, -2.25, float('inf'), 0.0, 1e10][int(rng.integers(0, 5))]; one[0] = d
            return d, one
        if k == 'S' and rng.integers(0, 2): d = [b'', b'a', b'abc', b'abcdefghijklm'][int(rng.integers(0, 4))]; one[0] = d; return d, one
        if k == 'U' and rng.integers(0, 2): d = ['', 'a', 'abc', '\u20ac\U0001f600', 'abcdefghijklm'][int(rng.integers(0, 5))]; one[0] = d; return d, one
        if k == 'f' and dt.itemsize > 2: one[0] = np.nan
        elif k == 'i': one[0] = np.iinfo(dt).min
        elif k == 'u': one[0] = np.iinfo(dt).max
        elif k in 'mM': one.view(np.dtype('i8').newbyteorder(dt.byteorder))[0] = np.iinfo('i8').min
        else: pass
        return None, one
    def out(self, r):
        if not isinstance(r, np.ndarray): return r
        return [type(r).__name__, r.dtype.str if r.dtype.names is None else str(r.dtype), list(r.shape), bool(r.flags.owndata), np.frombuffer(np.ascontiguousarray(r).tobytes(), 'u1') if r.nbytes else 0]
    def run(self, np, c, pn):
        rng = np.random.default_rng(c['s']); n = c['n']
        big = n > 2000
        workers(rng, pn, np)
        F = [f for f in self.F if not big or np.dtype(f).itemsize < 200]
        dt = str(rng.choice(F))
        v = self.vals(rng, dt, n); before = v.tobytes()
        if c['what'] == 'bool':
            m = self.mask(rng, n)
            r = v[m] if pn is None else pn.getitem(v, m)
            return [self.out(r), bool(before == v.tobytes())]
        if c['what'] == 'hook':
            m = self.mask(rng, n); how = int(rng.integers(0, 9))
            if how == 1 and n >= 6: v = v[:n//6*6].reshape(3, -1); m = m[:n//6*6].reshape(3, -1)
            if how == 2 and n >= 6: v = v[:n//6*6].reshape(3, -1); m = m[:n//6*6]
            if how == 3 and n >= 6: v = v[:n//6*6].reshape(3, -1); m = m[:3]
            if how == 4 and n >= 6: v = np.asfortranarray(v[:n//6*6].reshape(3, -1)); m = np.asfortranarray(m[:n//6*6].reshape(3, -1))
            if how == 5: m = m[:n//2]
            if how == 6:
                class Sub(np.ndarray): pass
                v = v.view(Sub)
            if how == 7: m = rng.integers(-n, n, 7) if n else np.zeros(0, int)
            if how == 8: v = np.array([{1}, 'a', None]*5, object); m = m[:15] if n >= 15 else np.ones(15, bool)
            if pn is None:
                try: return [self.out(v[m])] if how != 8 else list(v[m])
                except IndexError as e: return str(e)
            pn._pnumpy.hook_enable()
            try:
                try: r = v[m]
                except IndexError as e: r = e
            finally: pn._pnumpy.hook_disable()
            if isinstance(r, IndexError): return str(r)
            return [self.out(r)] if how != 8 else list(r)
        it = np.dtype(str(rng.choice(['i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8'])))
        k = int(rng.choice([1, 1, 1, 2, 3])); N = int(rng.integers(0, 400)) if n < 60000 else n
        nv = int(rng.choice([0, 1, 5, 100, 127, 128, 129, 200, 255, 256, 300, 40000])) if n >= 60000 or rng.integers(0, 2) else n
        v = self.vals(rng, dt, nv if np.dtype(dt).itemsize < 200 else min(nv, 300)); nv = len(v); before = v.tobytes()
        ii = np.iinfo(it)
        lo, hi = [(-nv, nv), (-nv - 5, nv + 5), (ii.min, int(ii.max) + 1), (0, nv), (-3*nv - 2, 3*nv + 2)][int(rng.integers(0, 5))]
        lo = max(lo, int(ii.min)); hi = min(hi, int(ii.max) + 1)
        ix = rng.integers(lo, max(hi, lo + 1), N*k, dtype=it)[:N*k:k]
        if rng.integers(0, 4) == 0: ix = ix[::-1]
        d, one = self.default(rng, dt)
        if pn is None:
            o = np.empty(N, v.dtype); iv = ix.astype('i8') if it != np.dtype('u8') else np.where(ix < 2**62, ix, 2**62).astype('i8')
            ok = (iv >= -nv) & (iv < nv)
            o[ok] = v[iv[ok]]; o[~ok] = one[0] if o.dtype.kind != 'V' else np.zeros(1, v.dtype)[0]
            if np.dtype(dt).kind == 'c' and N: o.view('u1').reshape(N, -1)[~ok] = 0
            r = o
        else: r = pn.getitem(v, ix) if d is None else pn.getitem(v, ix, d)
        if dt in 'gG' and r.size:        # padding bytes
            r = r.copy(); r.view('u1').reshape(-1, 16)[:, 10:] = 0
        return [self.out(r), bool(before == v.tobytes())]
class GetBool(GetItem): MODES = ['bool', 'bool', 'hook']
class GetInt(GetItem): MODES = ['int']
SUITES = {'getbool': GetBool(), 'getint': GetInt(), 'getitem': GetItem(), 'records': Records(), 'arange': Arange(), 'sort': Sort(), 'argsort': ArgSort(), 'bigsort': BigSort(), 'bigargsort': BigArgSort()}
