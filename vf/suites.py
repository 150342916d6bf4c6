"""Case generators for the Python level comparisons.  run(np, case, pn): pn is None in the reference process."""
import numpy as np
from .pyrun import same

F = ['f4', 'f8']; SI = ['i1', 'i2', 'i4', 'i8']; UI = ['u1', 'u2', 'u4', 'u8']
LL = ['q', 'Q']
ALL = ['?'] + SI + UI + F
ARITH = ['add', 'subtract', 'multiply', 'minimum', 'maximum', 'true_divide', 'floor_divide']
BITS = ['bitwise_and', 'bitwise_or', 'bitwise_xor', 'logical_and', 'logical_or', 'logical_xor', 'left_shift', 'right_shift', 'remainder', 'power', 'fmin', 'fmax']
CMPS = ['equal', 'not_equal', 'less', 'greater', 'less_equal', 'greater_equal']
UN = ['absolute', 'signbit', 'fabs', 'invert', 'floor', 'ceil', 'trunc', 'rint', 'negative', 'positive', 'sign', 'sqrt', 'square', 'reciprocal', 'logical_not', 'isinf', 'isnan', 'isfinite']
TRIG = ['sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'log', 'log2', 'log10', 'log1p', 'exp', 'exp2', 'expm1', 'cbrt']
SMALL = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 8191, 16383, 16384, 16385, 65535]
BIG = [65536, 65537, 70001, 81920, 98304, 131071, 131072, 163841, 200003, 262145]

def values(rng, dt, n, kind='mix'):
    dt = np.dtype(dt)
    if dt == np.bool_: return rng.integers(0, 2, n).astype(bool)
    if dt.kind == 'f':
        a = (rng.standard_normal(n)*10.0**rng.integers(-2, 4)).astype(dt)
        if kind == 'exact': return rng.integers(-50, 50, n).astype(dt)
        if kind in ('mix', 'nan') and n:
            sp = np.array([0.0, -0.0, np.inf, -np.inf, np.nan, 1, -1, 0.5, 2.5, -2.5, np.finfo(dt).max, np.finfo(dt).tiny, np.finfo(dt).tiny/4, 2**24, 2**53], dt)
            m = rng.integers(0, 4, n) == 0
            a[m] = sp[rng.integers(0, len(sp), int(m.sum()))]
        return a
    if dt.kind in 'iu':
        ii = np.iinfo(dt)
        k = rng.integers(0, 3)
        if k == 0: return rng.integers(ii.min, ii.max, n, dtype=dt, endpoint=True)
        a = rng.integers(max(ii.min, -20), 20, n).astype(dt)
        if n and k == 1:
            m = rng.integers(0, 5, n) == 0
            a[m] = rng.choice(np.array([ii.min, ii.max, 0, 1, ii.max - 1, ii.min + 1], dt), int(m.sum()))
        return a
    if dt.kind == 'c': return (rng.standard_normal(n) + 1j*rng.standard_normal(n)).astype(dt)
    if dt.kind == 'S': return np.array([bytes(rng.integers(97, 100, rng.integers(0, dt.itemsize+1)).astype(np.uint8)) for _ in range(n)], dt) if n < 3000 else rng.integers(97, 100, (n, dt.itemsize)).astype(np.uint8).reshape(-1).view(dt)
    if dt.kind == 'U': return (values(rng, 'S%d' % (dt.itemsize//4), n)).astype(dt)
    if dt.kind in 'mM': return rng.integers(-1000, 1000, n).view(dt)
    raise ValueError(dt)

def layout(rng, dt, n, kind, how):
    """array of n elements: how = c contiguous, s strided, r reversed, o offset, 0 broadcast scalar, m misaligned start, f swapped"""
    if how == 's': b = values(rng, dt, 3*n + 1, kind); return b[1:3*n+1:3]
    if how == 'r': return values(rng, dt, n, kind)[::-1]
    if how == '2': return values(rng, dt, 2*n + 1, kind)[1::2][:n]
    if how == 'o':
        k = int(rng.integers(1, 9)); return values(rng, dt, n + k, kind)[k:]
    if how == '0': return values(rng, dt, 1, kind)[0]
    if how == 'b': return np.broadcast_to(values(rng, dt, 1, kind), (n,))
    return values(rng, dt, n, kind)

class Suite:
    opts = {}
    def finding(self, c): return None
    def cmp(self, c, ref, got):
        return same(ref, got, self.opts)

class Ufunc(Suite):
    """elementwise calls, all layouts, threaded and not"""
    def __init__(self, names, nin, types=ALL, opts=None, kind='mix'):
        self.names = names; self.nin = nin; self.types = types; self.opts = opts or {}; self.kind = kind
    def cases(self, rng, tier):
        rounds = 1 if tier == 'quick' else 12
        L = ['c', 's', 'r', 'o', '2'] + (['0', 'b'] if self.nin == 2 else [])
        rr = np.random.default_rng(7)
        for r in range(1000 if tier != 'quick' else 40):
            perm = [(u, t) for u in self.names for t in self.types + LL]
            for i in rr.permutation(len(perm)):
                u, t = perm[i]
                big = rr.integers(0, 3) == 0
                n = int(rr.choice(BIG if big else SMALL))
                how = [str(rr.choice(L)) for _ in range(self.nin)]
                if self.nin == 2 and all(h in '0b' for h in how): how[0] = 'c'
                out = str(rr.choice(['new', 'new', 'new', 'in0', 'ss', 'rev', 'shift', 'in1' if self.nin == 2 else 'shift']))
                yield dict(u=u, t=t, n=n, how=how, out=out, seed=int(rr.integers(0, 2**31)))
    def cmp(self, c, ref, got):
        return same(ref, got, {'rtol': 1e-6 if c['t'] == 'f4' else 1e-13} if c['u'] == 'power' else self.opts)
    def run(self, np, c, pn):
        rng = np.random.default_rng(c['seed'])
        u = getattr(np, c['u']); n = c['n']
        a = [layout(rng, c['t'], n, self.kind, h) for h in c['how']]
        with np.errstate(all='ignore'):
            if c['out'] == 'new': return u(*a)
            if c['out'] in ('in0', 'in1'):
                k = 1 if c['out'] == 'in1' else 0
                if isinstance(a[k], np.ndarray) and a[k].flags.writeable:
                    return u(*a, out=a[k], casting='unsafe')
                return u(*a)
            if c['out'] == 'shift':
                # overlapping output: numpy buffers it, or leaves it to the loop when in order processing is safe
                b = values(rng, c['t'], n + 8, self.kind)
                k = int(rng.integers(0, 9)); st = 1 if rng.integers(0, 4) else -1
                x, o = b[:n][::st], b[k:k+n][::st]
                if rng.integers(0, 2): x, o = o, x
                if pn is None: o[...] = u(x.copy(), *a[1:]).astype(o.dtype)
                else: u(x, *a[1:], out=o, casting='unsafe')
                return b
            r = u(*[x[:1] if isinstance(x, np.ndarray) else x for x in a])
            b = np.zeros(3*n + 2, np.asarray(r).dtype)
            o = b[1:3*n+1:3] if c['out'] == 'ss' else b[1:n+1][::-1]
            if pn is None: o[...] = u(*a)      # numpy 1.26 itself mishandles strided outputs of some boolean loops
            else: u(*a, out=o)
            return b

RBIN = ['add', 'multiply', 'minimum', 'maximum', 'logical_and', 'logical_or', 'logical_xor', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'subtract', 'floor_divide', 'true_divide', 'remainder', 'left_shift', 'right_shift', 'power', 'fmin', 'fmax']
IDENT = {'add', 'multiply', 'logical_and', 'logical_or', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'logical_xor'}
def exactvals(rng, u, t, n):
    """float operands for which every association gives the same exact result"""
    dt = np.dtype(t)
    if dt == np.float16 and u in ('add', 'subtract'): return rng.integers(-1, 2, n).astype(dt)
    if dt == np.float16 and u == 'multiply': return np.where(rng.integers(0, 40, n) == 0, dt.type(-1), dt.type(1)).astype(dt)
    if u in ('add', 'subtract'): return rng.integers(-30, 30, n).astype(dt)
    if u == 'multiply': return np.where(rng.integers(0, 4000, n) == 0, np.array([2, .5, -1], dt)[rng.integers(0, 3, n)], dt.type(1)).astype(dt)
    if u in ('true_divide', 'floor_divide', 'remainder', 'power'): return np.where(rng.integers(0, 5000, n) == 0, dt.type(2), dt.type(1)).astype(dt)
    return values(rng, t, n)
class Reduce(Suite):
    """ufunc.reduce over one axis: 1-d of every layout, 2-d both axes, start value, mask, output dtype"""
    opts = {'zero': True}
    def __init__(self, big): self.big = big
    def cases(self, rng, tier):
        rr = np.random.default_rng(11)
        perm = [(u, t) for u in RBIN for t in ALL + LL + ['f2', 'F', 'D', 'O'][:3]]
        for r in range(40 if tier == 'quick' else 100000):
            for i in rr.permutation(len(perm)):
                u, t = perm[i]
                n = int(rr.choice(BIG + [393217, 524288] if self.big else SMALL))
                how = str(rr.choice(['c', 'c', 's', 'r', 'o', '2', 'b', 'C2', 'F2', 'T2', 'K2']))
                yield dict(u=u, t=t, n=n, how=how, axis=int(rr.integers(0, 2)), init=int(rr.integers(-2, 3)) if rr.integers(0, 3) == 0 else None, where=int(rr.integers(0, 8)) == 0, seed=int(rr.integers(0, 2**31)), workers=int(rr.choice([0, 1, 3, 7, 14])) if self.big else None, kd=int(rr.integers(0, 4)) == 0)
    def run(self, np, c, pn):
        rng = np.random.default_rng(c['seed'])
        u = getattr(np, c['u']); n = c['n']; t = c['t']
        if pn is not None and c['workers'] is not None: pn._pnumpy.thread_setworkers(c['workers'])
        dt = np.dtype(t)
        mk = (lambda k: exactvals(rng, c['u'], t, k)) if dt.kind in 'fc' else (lambda k: values(rng, t, k))
        h = c['how']; ax = 0
        if h == 's': a = mk(3*n + 1)[1:3*n+1:3]
        elif h == 'r': a = mk(n)[::-1]
        elif h == '2': a = mk(2*n + 1)[1::2][:n]
        elif h == 'o': a = mk(n + 3)[3:]
        elif h == 'b': a = np.broadcast_to(mk(1), (n,))
        elif h in ('C2', 'F2', 'T2', 'K2'):
            m = int(rng.integers(1, 6)); ax = c['axis']
            a = mk(n*m).reshape((n, m))
            if h == 'F2': a = np.asfortranarray(a)
            if h == 'T2': a = a.T
            if h == 'K2': a = a[::-1, ::2]
        else: a = mk(n)
        if c['u'] in ('floor_divide', 'remainder') and dt.kind in 'iu': a = np.where(a == 0, dt.type(1), a)
        if c['u'] in ('left_shift', 'right_shift') and dt.kind in 'iu': a = (a & 1).astype(dt)
        if c['u'] == 'power' and dt.kind == 'i': a = np.abs(a)
        kw = {}
        if c['init'] is not None and c['u'] in ('add', 'multiply', 'minimum', 'maximum', 'bitwise_or', 'bitwise_and', 'bitwise_xor', 'subtract'):
            kw['initial'] = dt.type(abs(c['init']) if dt.kind in 'ub' else c['init'])
        if c['where'] and (c['u'] in IDENT or 'initial' in kw): kw['where'] = rng.integers(0, 3, a.shape) > 0
        if c['kd']: kw['keepdims'] = True
        if c['u'] in ('add', 'multiply') and dt.kind in 'biuf': kw['dtype'] = dt
        with np.errstate(all='ignore'): return u.reduce(a, axis=ax, **kw)
ONE = ['negative', 'absolute', 'sign', 'invert', 'floor', 'sqrt', 'logical_not', 'rint']
class Order(Suite):
    """accumulate, reduceat, ufunc.at and overlapping operands: strictly in order"""
    opts = {'zero': True}
    def cases(self, rng, tier):
        rr = np.random.default_rng(13)
        names = RBIN + ['less', 'greater', 'equal', 'not_equal', 'less_equal', 'greater_equal'] + ONE
        perm = [(u, t, m) for u in names for t in ALL + LL for m in ('accumulate', 'reduceat', 'at', 'overlap')]
        for r in range(40 if tier == 'quick' else 100000):
            for i in rr.permutation(len(perm)):
                u, t, m = perm[i]
                if u in ONE and (m != 'overlap' or (u in ('invert', 'logical_not') and t in F)): continue
                if u in ('less', 'greater', 'equal', 'not_equal', 'less_equal', 'greater_equal') and t != '?': continue
                n = int(rr.choice(BIG if rr.integers(0, 2) else SMALL))
                if m == 'at': n = min(n, 5000)
                yield dict(u=u, t=t, m=m, n=n, how=str(rr.choice(['c', 's', 'r', '2', 'K2', 'C2'])), axis=int(rr.integers(0, 2)), out=str(rr.choice(['new', 'new', 'in', 'ss', 'rev'])), seed=int(rr.integers(0, 2**31)), workers=int(rr.choice([3, 7, 14])))
    def run(self, np, c, pn):
        rng = np.random.default_rng(c['seed'])
        u = getattr(np, c['u']); n = c['n']; t = c['t']
        if pn is not None: pn._pnumpy.thread_setworkers(c['workers'])
        dt = np.dtype(t)
        def mk(k):
            if dt.kind == 'f' and c['u'] in ('add', 'subtract', 'multiply', 'true_divide', 'floor_divide', 'remainder', 'power'): return exactvals(rng, c['u'], t, k)
            a = values(rng, t, k)
            if c['u'] in ('floor_divide', 'remainder') and dt.kind in 'iu': a = np.where(a == 0, dt.type(1), a)
            if c['u'] in ('left_shift', 'right_shift') and dt.kind in 'iu': a = (a & 1).astype(dt)
            if c['u'] == 'power' and dt.kind in 'iu': a = (a & 1).astype(dt)
            return a
        h = c['how']; ax = 0
        if h == 's': a = mk(3*n + 1)[1:3*n+1:3]
        elif h == 'r': a = mk(n)[::-1]
        elif h == '2': a = mk(2*n + 1)[1::2][:n]
        elif h in ('K2', 'C2'):
            m = int(rng.integers(1, 5)); ax = c['axis']
            a = mk(n*m).reshape((n, m) if n < 40000 else (m, n))
            if h == 'K2': a = a[:, ::-1]
        else: a = mk(n)
        kw = dict(dtype=dt) if c['u'] in ('add', 'multiply') else {}
        with np.errstate(all='ignore'):
            if c['m'] == 'accumulate':
                if c['out'] == 'in': a = a.copy(); u.accumulate(a, axis=ax, out=a); return a
                if c['out'] in ('ss', 'rev') and a.ndim == 1:
                    b = np.zeros(2*n + 2, a.dtype)
                    o = b[1:2*n+1:2] if c['out'] == 'ss' else b[1:n+1][::-1]
                    u.accumulate(a, out=o, **kw); return b
                return u.accumulate(a, axis=ax, **kw)
            if c['m'] == 'reduceat':
                L = a.shape[ax]
                if L == 0: return 0
                k = int(rng.integers(1, 6))
                ix = np.sort(rng.integers(0, L, k)) if rng.integers(0, 2) else rng.integers(0, L, k)
                return u.reduceat(a, ix, axis=ax, **kw)
            if c['m'] == 'at':
                a = np.ascontiguousarray(a.ravel())
                if not len(a): return 0
                k = int(rng.integers(1, 200))
                u.at(a, rng.integers(0, len(a), k) if rng.integers(0, 2) else np.full(k, len(a)//2), mk(k)); return a
            # overlap: the output starts a few elements before or after an operand
            a = np.ascontiguousarray(a.ravel()); L = len(a)
            if L < 20: return 0
            k = int(rng.integers(1, 17)); b = mk(L)
            if c['u'] in ONE:
                x, o = (a[:-k], a[k:]) if rng.integers(0, 2) else (a[k:], a[:-k])
                if rng.integers(0, 3) == 0: x, o = x[::-1], o[::-1]
                u(x, out=o, casting='unsafe'); return a
            if rng.integers(0, 2): u(a[:-k], b[:-k], out=a[k:], casting='unsafe')
            else: u(b[:-k], a[k:], out=a[:-k], casting='unsafe')
            return a

class Trig(Ufunc):
    def __init__(self): Ufunc.__init__(self, TRIG, 1, ['f4', 'f8', 'i4', 'u1'])
    def cmp(self, c, ref, got): return same(ref, got, {'ulp': 5})

class Zero(Suite):
    """zero-size and zero-dimensional operands, in-place scalars"""
    opts = {'ulp': 5}
    def cases(self, rng, tier):
        rr = np.random.default_rng(19)
        names = [(u, 2) for u in ARITH + BITS[:6] + CMPS] + [(u, 1) for u in UN + TRIG]
        for r in range(6 if tier == 'quick' else 100):
            for u, k in names:
                for t in ALL + LL:
                    if rr.integers(0, 3) and tier == 'quick': continue
                    yield dict(u=u, k=k, t=t, shape=[[0], [], [1], [0, 3], [3, 0], [1, 1], [2], [5, 1, 3]][int(rr.integers(0, 8))], out=str(rr.choice(['new', 'in0', 'in0', 'in1', 'zs'])), red=int(rr.integers(0, 4)) == 0, seed=int(rr.integers(0, 2**31)))
    def run(self, np, c, pn):
        rng = np.random.default_rng(c['seed'])
        u = getattr(np, c['u']); n = int(np.prod(c['shape']))
        a = [values(rng, c['t'], n).reshape(c['shape']) for _ in range(c['k'])]
        with np.errstate(all='ignore'):
            if c['red'] and c['k'] == 2 and c['u'] not in ('power',): return u.reduce(a[0], axis=None if a[0].ndim < 2 else 0)
            if c['out'] == 'new': return u(*a)
            if c['out'] == 'zs':
                # zero output step: the last element wins
                if c['shape'] in ([2], [1]) and c['u'] in ARITH:
                    b = np.zeros(1, c['t']); o = np.lib.stride_tricks.as_strided(b, c['shape'], [0]); u(*a, out=o, casting='unsafe'); return b
                return u(*a)
            x = a[1 if c['out'] == 'in1' and c['k'] == 2 else 0]
            u(*a, out=x, casting='unsafe'); return x

def opset(rng, np, names, types, lens, k):
    out = []
    for _ in range(k):
        out.append((str(rng.choice(names)), str(rng.choice(types)), int(rng.choice(lens)), int(rng.integers(0, 2**31))))
    return out
OPN = ['add', 'multiply', 'less', 'equal', 'sin', 'exp', 'log', 'cos', 'sqrt', 'negative', 'isnan', 'minimum', 'add.reduce', 'maximum.reduce', 'multiply.reduce', 'add.accumulate', 'sort', 'argsort', 'arange', 'argmin', 'argmax', 'bitwise_and', 'left_shift', 'floor', 'abs', 'mask', 'take']
def doop(np, o):
    name, t, n, seed = o
    rng = np.random.default_rng(seed)
    dt = np.dtype(t)
    with np.errstate(all='ignore'):
        if name == 'arange': return np.arange(int(rng.integers(0, 50)), n if dt.itemsize > 2 else 100, int(rng.integers(1, 4)), dtype=dt if dt.kind != 'b' else 'i4')
        a = values(rng, t, n, 'exact' if '.' in name else 'mix'); b = values(rng, t, n)
        if name == 'add.accumulate': return np.add.accumulate(a, dtype=dt)
        if name == 'add.reduce': return np.add.reduce(rng.random(n).astype(dt) if dt.kind == 'f' else a, dtype=dt)
        if name == 'multiply.reduce': return np.multiply.reduce((1 + rng.random(n)/n).astype(dt) if dt.kind == 'f' else a, dtype=dt)
        if name == 'maximum.reduce': return np.maximum.reduce(a)
        if name in ('sort', 'argsort'):
            if dt.kind == 'f': a = np.where(np.isnan(a), dt.type(0), a)
            r = getattr(np, name)(a, kind='stable')
            return r
        if name in ('argmin', 'argmax'): return getattr(np, name)(a)
        if name == 'mask': return a[b > b.dtype.type(0)]
        if name == 'take': return a[rng.integers(-n, n, n)] if n else a
        if name in ('bitwise_and', 'left_shift') and dt.kind == 'f': return np.multiply(a, b)
        if name in ('bitwise_and', 'left_shift'): return np.bitwise_and(a, b)
        if name in ('sin', 'exp', 'log', 'cos', 'sqrt', 'isnan', 'abs', 'floor') or name == 'negative': return getattr(np, name)(a if not (name == 'negative' and dt.kind == 'b') else a.astype('i4'))
        return getattr(np, name)(a, b)
class Ledger(Suite):
    """operations with the ledger on"""
    def cases(self, rng, tier):
        rr = np.random.default_rng(23)
        for r in range(150 if tier == 'quick' else 100000):
            yield dict(seed=int(rr.integers(0, 2**31)), atop=int(rr.integers(0, 3)) > 0, thr=int(rr.integers(0, 3)) > 0)
    def run(self, np, c, pn):
        rng = np.random.default_rng(c['seed'])
        ops = opset(rng, np, OPN, ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8', 'q'], SMALL + BIG[:4], 12)
        out = []
        if pn:
            (pn.atop_enable if c['atop'] else pn.atop_disable)(); (pn.thread_enable if c['thr'] else pn.thread_disable)()
            pn.ledger_enable()
        for o in ops:
            out.append([bool(pn.ledger_isenabled()) if pn else True, guardop(np, o)])
        out.append(bool(pn.ledger_isenabled()) if pn else True)
        if pn: pn.ledger_disable(); pn.enable()
        return out
    def cmp(self, c, ref, got): return same(ref, got, {'ulp': 2000, 'zero': True})
def guardop(np, o):
    try: return doop(np, o)
    except Exception as e: return 'EXC ' + type(e).__name__
class Settings(Suite):
    """random sequences of settings calls, queries and operations against a model of the settings"""
    CALLS = ['atop_enable', 'atop_disable', 'thread_enable', 'thread_disable', 'ledger_enable', 'ledger_disable', 'recycler_enable', 'recycler_disable', 'enable', 'disable', 'setworkers', 'zigzag', 'atop_setworkers', 'hook', 'initialize']
    def cases(self, rng, tier):
        rr = np.random.default_rng(29)
        for r in range(150 if tier == 'quick' else 100000): yield dict(seed=int(rr.integers(0, 2**31)), len=int(rr.choice([3, 8, 25])))
    def script(self, c):
        rng = np.random.default_rng(c['seed'])
        out = []
        for _ in range(c['len']):
            if rng.integers(0, 3) == 0: out.append(('op', opset(rng, np, OPN[:23], ['?', 'i1', 'u1', 'i2', 'i4', 'i8', 'u8', 'f4', 'f8'], SMALL + BIG[:3], 1)[0]))
            else:
                f = str(rng.choice(self.CALLS)); a = None
                if f == 'initialize' and rng.integers(0, 4): f = 'zigzag'
                if f == 'setworkers': a = int(rng.choice([-2**31, -1, 0, 1, 2, 3, 5, 7, 8, 14, 31, 32, 1000, 2**31 - 1]))
                if f == 'atop_setworkers': a = (str(rng.choice(['add', 'sin', 'less', 'sqrt', 'nosuch'])), int(rng.choice([5, 11, 12, 99])), int(rng.choice([-1, 0, 1, 5, 63, 64, 1000])))
                if f == 'hook': a = bool(rng.integers(0, 2))
                out.append((f, a))
        return out
    def run(self, np, c, pn):
        sc = self.script(c); out = []
        if pn is None: return [guardop(np, a) if f == 'op' else None for f, a in sc]
        import os
        pn.enable(); pn.ledger_disable(); pn.recycler_disable(); pn._pnumpy.hook_disable()
        while pn.thread_zigzag(): pass
        pn.thread_setworkers(2**31 - 1); mx = pn.thread_getworkers()
        pn.thread_setworkers(1)
        mt = {}
        for k in (('add', 5), ('add', 11), ('add', 12), ('sin', 11), ('sin', 12), ('less', 5), ('less', 11), ('less', 12), ('sqrt', 11), ('sqrt', 12)):
            i = pn.atop_info(*k)
            if i: pn.atop_setworkers(k[0], k[1], 4); mt[k] = True
        out.append([mx, len(os.listdir('/proc/self/task')) - 1, sorted(mt)])
        for f, a in sc:
            if f == 'op': out.append(guardop(np, a)); continue
            r = None
            if f == 'setworkers': r = pn.thread_setworkers(a)
            elif f == 'zigzag': r = bool(pn.thread_zigzag())
            elif f == 'atop_setworkers':
                r = pn.atop_setworkers(*a)
            elif f == 'hook': r = bool(pn._pnumpy.hook_enable() if a else pn._pnumpy.hook_disable())
            else: getattr(pn, f)()
            i = [(pn.atop_info(*k) or {}).get('MaxThreads') for k in sorted(mt)]
            out.append([r, bool(pn.atop_isenabled()), bool(pn.thread_isenabled()), bool(pn.ledger_isenabled()), bool(pn.recycler_isenabled()), pn.thread_getworkers(), i])
        pn.ledger_disable(); pn._pnumpy.hook_disable(); pn.enable()
        return out
    def cmp(self, c, ref, got):
        if got and got[0] == 'EXC': return 'settings sequence raised %s' % got[1]
        sc = self.script(c)
        mx, nthr, keys = got[0]
        if not 0 <= mx <= nthr: return 'worker count %d, %d worker threads exist' % (mx, nthr)
        S = dict(atop=True, thread=True, ledger=False, recycler=False); wk = min(1, mx); zz = False; hook = False
        mt = {tuple(k): 4 for k in keys}
        for i, ((f, a), r, g) in enumerate(zip(sc, ref, got[1:])):
            if f == 'op':
                if isinstance(g, np.generic) or isinstance(r, np.generic): big = a[2] >= 65536
                else: big = False
                opt = {} if not S['atop'] and not (big and S['thread']) else {'ulp': 2000, 'zero': True}
                d = same(r, g, opt)
                if d: return 'step %d %s with %s: %s' % (i, a, S, d)
                continue
            want = None
            if f.endswith('_enable'): S[f[:-7]] = True
            elif f.endswith('_disable'): S[f[:-8]] = False
            elif f in ('enable', 'disable'): S['atop'] = S['thread'] = f == 'enable'
            elif f == 'setworkers': want = wk; wk = min(max(a, 1), mx)
            elif f == 'zigzag': zz = not zz; want = zz
            elif f == 'hook': want = hook != a; hook = a
            elif f == 'atop_setworkers':
                want = False
                if S['atop'] and a[:2] in mt and 0 <= a[2] < 64: want = mt[a[:2]]; mt[a[:2]] = a[2]
            if f == 'initialize' : pass
            w = [want, S['atop'], S['thread'], S['ledger'], S['recycler'], wk, [mt[k] for k in sorted(mt)]]
            if list(g) != w: return 'step %d after %s(%s): result and settings %s, must be %s' % (i, f, a, g, w)
        return None

class Initial(Suite):
    """right after initialisation: acceleration off reaches NumPy's own loops, bit for bit; comparisons of every mask; initialising again"""
    def cases(self, rng, tier):
        rr = np.random.default_rng(31)
        names = [(u, 2) for u in ARITH + BITS + CMPS] + [(u, 1) for u in UN + TRIG] + [(x, 0) for x in ('sort', 'argsort', 'argmin', 'argmax', 'arange', 'add.reduce', 'maximum.reduce')]
        for r in range(2 if tier == 'quick' else 60):
            for u, k in names:
                for t in ALL + LL: yield dict(u=u, k=k, t=t, n=int(rr.integers(1, 70)), on=k == 2 and u in CMPS and bool(rr.integers(0, 2)), again=int(rr.integers(0, 40)) == 0, seed=int(rr.integers(0, 2**31)))
    def run(self, np, c, pn):
        if pn:
            if c['again']: pn.initialize()
            (pn.atop_enable if c['on'] else pn.atop_disable)()
        try:
            if c['k'] == 0: return guardop(np, (c['u'], c['t'], c['n'], c['seed']))
            rng = np.random.default_rng(c['seed'])
            with np.errstate(all='ignore'): return getattr(np, c['u'])(*[values(rng, c['t'], c['n']) for _ in range(c['k'])])
        finally:
            if pn: pn.atop_enable()
    def cmp(self, c, ref, got): return same(ref, got, {})
SUITES = {
    'initial': Initial(),
    'zero': Zero(), 'ledger': Ledger(), 'settings': Settings(),
    'trig': Trig(),
    'arith': Ufunc(ARITH + BITS, 2, opts={'zero': True}),
    'cmp': Ufunc(CMPS, 2),
    'unary': Ufunc(UN, 1),
    'reduce': Reduce(False),
    'treduce': Reduce(True),
    'order': Order(),
}
from . import sortsuites
SUITES.update(sortsuites.SUITES)
