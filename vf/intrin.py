"""LLVM and x86 vector intrinsics (Intel manual semantics), lane by lane."""
import z3, re
from .poly import Poly
from . import fp, ir
from .ex import Vec, Undecided, Fork, Ptr, Undef, ccmp, bz, zdata, ety, cat, split, ext, TRUE, FALSE, C0, isdata, Cells

CMP = {0: 'oeq', 1: 'olt', 2: 'ole', 3: 'uno', 4: 'une', 5: 'uge', 6: 'ugt', 7: 'ord', 8: 'ueq', 9: 'ult', 10: 'ule', 11: 'false', 12: 'one', 13: 'oge', 14: 'ogt', 15: 'true'}

def sat_s(x, w):
    """signed saturation of x to w bits"""
    W = x.size()
    hi = z3.BitVecVal((1 << (w-1))-1, W); lo = z3.BitVecVal(-(1 << (w-1)), W)
    return z3.If(x > hi, z3.BitVecVal((1 << (w-1))-1, w), z3.If(x < lo, z3.BitVecVal(1 << (w-1), w), z3.Extract(w-1, 0, x)))
def sat_u(x, w):
    W = x.size()
    hi = z3.BitVecVal((1 << w)-1, W); z = z3.BitVecVal(0, W)
    return z3.If(x > hi, z3.BitVecVal((1 << w)-1, w), z3.If(x < z, z3.BitVecVal(0, w), z3.Extract(w-1, 0, x)))
def satsimp(x, w):
    """packs of a 0/-1 mask: keep it small"""
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        a, b = x.arg(1), x.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            return z3.If(x.arg(0), z3.simplify(sat_s(a, w)), z3.simplify(sat_s(b, w)))
    return sat_s(x, w)

def call(ex, s, name, args, ins):
    n = name[5:]
    A = [a for _, a in args]; T = [t for t, _ in args]
    if n.startswith(('lifetime.', 'dbg.', 'experimental.noalias', 'assume', 'prefetch', 'invariant')): return None
    if n.startswith('x86.sse2.pause'): return None
    ty = ins.ty
    m = re.match(r'(smin|smax|umin|umax)\.', n)
    if m:
        k = m.group(1)
        pred = {'smin': 'slt', 'smax': 'sgt', 'umin': 'ult', 'umax': 'ugt'}[k]
        if ty[0] == 'v':
            w = ety(ty)
            from .ex import bvcmp
            return Vec([ex.ite(zdata(bvcmp(pred, x, y)), x, y) for x, y in zip(ex.lanes(A[0], w, ty[1]), ex.lanes(A[1], w, ty[1]))], w)
        c = ex.resolve(s, ex.icmp(s, pred, ty, A[0], A[1]))
        if isinstance(A[0], Poly) and isinstance(A[1], Poly):
            if c[0] == 'T': return A[0]
            if c[0] == 'F': return A[1]
            raise Fork(c)
        return ex.ite(c, ex.bv(A[0], ty[1]), ex.bv(A[1], ty[1]))
    if n.startswith('abs.'):
        def ab(x): return ex.ite(zdata(x < 0), -x, x)
        if ty[0] == 'v': return Vec([ab(x) for x in ex.lanes(A[0], ety(ty), ty[1])], ety(ty))
        if isinstance(A[0], Poly):
            a = A[0]
            if ex.nonneg(s, a): return a
            raise Fork(ccmp('<=', -a))
        return ab(ex.bv(A[0], ty[1]))
    m = re.match(r'(fabs|floor|ceil|trunc|rint|nearbyint|sqrt|copysign|fmuladd|roundeven|round|sin|cos|exp|exp2|log|log2|log10|pow|minnum|maxnum)\.', n)
    if m:
        k = m.group(1)
        def f1(*xs):
            w = xs[0].size()
            if k == 'fabs': return fp.fabs(xs[0])
            if k == 'copysign': return fp.copysign(*xs)
            if k == 'fmuladd': return fp.arith('fadd', fp.arith('fmul', xs[0], xs[1]), xs[2])
            kk = {'nearbyint': 'rint', 'roundeven': 'rint'}.get(k, k)
            return fp.uf('%s%d' % (kk, w), *xs)
        if ty[0] == 'v':
            w = ety(ty)
            return Vec([f1(*xs) for xs in zip(*[ex.lanes(a, w, ty[1]) for a in A])], w)
        return f1(*[ex.bv(a, ty[1]) for a in A])
    if n.startswith('is.fpclass'):
        w = T[0][1] if T[0][0] == 'f' else ety(T[0])
        mask = A[1].cval()
        def cls(x):
            if x.size() == 80: return z3.Function('fpclass80_%d' % mask, z3.BitVecSort(80), z3.BoolSort())(x)
            neg = fp.sgn(x); e = x & z3.BitVecVal(fp.expmask(w), w)
            mant = fp.M[w][1]
            qb = z3.Extract(mant-1, mant-1, x) == 1
            nan = fp.isnan(x); inf = fp.isinf(x); zero = fp.iszero(x)
            sub = z3.And(e == 0, z3.Not(zero)); norm = z3.And(e != 0, e != fp.expmask(w))
            parts = [z3.And(nan, z3.Not(qb)), z3.And(nan, qb), z3.And(inf, neg), z3.And(norm, neg), z3.And(sub, neg), z3.And(zero, neg),
                     z3.And(zero, z3.Not(neg)), z3.And(sub, z3.Not(neg)), z3.And(norm, z3.Not(neg)), z3.And(inf, z3.Not(neg))]
            return z3.Or([p for i, p in enumerate(parts) if mask >> i & 1])
        if T[0][0] == 'v':
            return Vec([zdata(cls(x)) for x in ex.lanes(A[0], w, T[0][1])], 1)
        return zdata(cls(ex.bv(A[0], w)))
    if n.startswith('bswap.'):
        x = ex.bv(A[0], ty[1]); return cat(split(x, 8)[::-1])
    if n.startswith(('ctpop.', 'ctlz.', 'cttz.')):
        if isinstance(A[0], Poly) and A[0].isconst():
            w = ty[1]; v = A[0].cval() & ((1 << w)-1)
            if n.startswith('ctpop'): return Poly.const(bin(v).count('1'))
            if n.startswith('ctlz'): return Poly.const(w - v.bit_length())
            return Poly.const((v & -v).bit_length()-1 if v else w)
        if n.startswith('ctpop'):
            w = ty[1]; x = ex.bv(A[0], w)
            return z3.Sum([z3.ZeroExt(w-1, z3.Extract(i, i, x)) for i in range(w)]) if False else _popsum(x, w)
        raise Undecided(name)
    if n.startswith('usub.sat'):
        a, b = A
        if isinstance(a, Poly) and isinstance(b, Poly):
            c = ex.resolve(s, ex.icmp(s, 'ugt', ty, a, b))
            if c[0] == 'T': return a - b
            if c[0] == 'F': return C0
            raise Fork(c)
        raise Undecided(name)
    if n.startswith(('memcpy', 'memmove')):
        return ex.memcpy(s, A[0], A[1], A[2])
    if n.startswith('memset'):
        return ex.memset(s, A[0], A[1], A[2])
    if n.startswith('x86.'):
        return x86(ex, s, n[4:], A, T, ty)
    if n.startswith('vector.reduce.or') or n.startswith('vector.reduce.and') or n.startswith('vector.reduce.add'):
        t = T[0]; w = ety(t)
        if w == 1:
            from .ex import band, bor
            r = None
            for c in A[0].l: r = c if r is None else (bor(r, c) if '.or' in n else band(r, c))
            return r
        r = None
        for x in ex.lanes(A[0], w, t[1]):
            r = x if r is None else (r | x if '.or' in n else r & x if '.and' in n else r + x)
        return r
    if n.startswith(('umul.with.overflow', 'uadd.with.overflow', 'smul.with.overflow')):
        from .ex import Agg
        return Agg([A[0]*A[1] if 'mul' in n else A[0]+A[1], FALSE])
    if n.startswith('fshl'):
        w = ty[1]
        if isinstance(A[2], Poly) and A[2].isconst():
            c = A[2].cval() % w; x = ex.bv(A[0], w); y = ex.bv(A[1], w)
            return (x << c) | z3.LShR(y, w-c) if c else x
    raise Undecided('intrinsic ' + name)
def _popsum(x, w):
    r = z3.BitVecVal(0, w)
    for i in range(w): r = r + z3.ZeroExt(w-1, z3.Extract(i, i, x))
    return r

def x86(ex, s, n, A, T, ty):
    def L(i): return ex.lanes(A[i], ety(T[i]), T[i][1])
    if n in ('avx2.packssdw', 'sse2.packssdw.128', 'avx2.packsswb', 'sse2.packsswb.128', 'avx2.packusdw', 'avx2.packuswb', 'sse41.packusdw', 'sse2.packuswb.128'):
        wi = 32 if 'dw' in n else 16; wo = wi//2
        a = ex.lanes(A[0], wi, T[0][1]); b = ex.lanes(A[1], wi, T[0][1])
        f = (lambda x: satsimp(x, wo)) if 'packss' in n else (lambda x: sat_u(x, wo))
        per = 128//wi
        out = []
        for h in range(len(a)//per):
            out += [f(x) for x in a[h*per:(h+1)*per]] + [f(x) for x in b[h*per:(h+1)*per]]
        return Vec(out, wo)
    m = re.match(r'(avx|sse|sse2)\.(min|max)\.(ps|pd)', n)
    if m:
        # Intel: min(a,b) = a < b ? a : b   (b when either is nan or both zero)
        p = 'olt' if m.group(2) == 'min' else 'ogt'
        return Vec([ex.ite(zdata(fp.fcmp(p, x, y)), x, y) for x, y in zip(L(0), L(1))], ety(T[0]))
    if re.match(r'(avx|sse41)\.round\.(ps|pd)', n):
        k = {0: 'rint', 1: 'floor', 2: 'ceil', 3: 'trunc', 4: 'rint'}[A[1].cval() & 7]
        w = ety(T[0])
        return Vec([fp.uf('%s%d' % (k, w), x) for x in L(0)], w)
    m = re.match(r'(avx|sse|sse2)\.cmp\.(ps|pd)', n)
    if m:
        p = CMP[A[2].cval() & 15]; w = ety(T[0])
        return Vec([ex.ite(zdata(fp.fcmp(p, x, y)), z3.BitVecVal((1 << w)-1, w), z3.BitVecVal(0, w)) for x, y in zip(L(0), L(1))], w)
    if re.match(r'(avx|avx2|sse41)\.(blendv|pblendvb)', n):
        w = ety(T[0])
        return Vec([ex.ite(zdata(z3.Extract(w-1, w-1, c) == 1), y, x) for x, y, c in zip(L(0), L(1), L(2))], w)
    if 'movmsk' in n or 'pmovmskb' in n:
        w = ety(T[0])
        bits = [ext(x, w-1, w-1) for x in L(0)]
        bits = [_signbit(x, w) for x in L(0)]
        r = z3.Concat(*bits[::-1])
        return z3.ZeroExt(32 - len(bits), r) if len(bits) < 32 else r
    if n.startswith('avx2.pmul.dq') or n.startswith('avx2.pmulu.dq'): pass
    if 'pshuf.b' in n:
        a = ex.lanes(A[0], 8, T[0][1]); c = ex.lanes(A[1], 8, T[0][1])
        out = []
        for i, x in enumerate(c):
            x = z3.simplify(x)
            if not z3.is_bv_value(x): raise Undecided('variable pshufb')
            v = x.as_long()
            out.append(z3.BitVecVal(0, 8) if v & 0x80 else a[(i//16)*16 + (v & 15)])
        return Vec(out, 8)
    if n.startswith('avx2.permd') or n.startswith('avx2.permps'):
        a = L(0); c = L(1)
        out = []
        for x in c:
            x = z3.simplify(x)
            if not z3.is_bv_value(x): raise Undecided('variable perm')
            out.append(a[x.as_long() & 7])
        return Vec(out, 32)
    m = re.match(r'avx2\.(psll|psrl|psra)\.?i?\.(w|d|q)', n)
    if m:
        w = {'w': 16, 'd': 32, 'q': 64}[m.group(2)]
        if isinstance(A[1], Poly): c = A[1].cval()
        else:
            c0 = z3.simplify(cat(ex.lanes(A[1], 64, T[1][1]*ety(T[1])//64)[:1]))
            if not z3.is_bv_value(c0): raise Undecided('variable shift')
            c = c0.as_long()
        a = ex.lanes(A[0], w, T[0][1]*ety(T[0])//w)
        k = m.group(1)
        if c >= w: 
            if k != 'psra': return Vec([z3.BitVecVal(0, w)]*len(a), w)
            c = w-1
        f = {'psll': lambda x: x << c, 'psrl': lambda x: z3.LShR(x, c), 'psra': lambda x: x >> c}[k]
        return Vec([f(x) for x in a], w)
    if n.startswith('avx.cvtt.ps2dq') or n.startswith('sse2.cvttps2dq'):
        return Vec([fp.uf('cvttps2dq', x) for x in L(0)], 32)
    if n.startswith('avx.cvt.ps2dq') or n.startswith('sse2.cvtps2dq'):
        return Vec([fp.uf('cvtps2dq', x) for x in L(0)], 32)
    m = re.match(r'(sse|sse2|avx)\.(rcp|rsqrt)', n)
    if m: raise Undecided('approximate ' + n)
    raise Undecided('x86 intrinsic ' + n)
def _signbit(x, w):
    if z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_bv_value(x.arg(1)) and z3.is_bv_value(x.arg(2)):
        return z3.If(x.arg(0), z3.BitVecVal(x.arg(1).as_long() >> (w-1) & 1, 1), z3.BitVecVal(x.arg(2).as_long() >> (w-1) & 1, 1))
    return z3.Extract(w-1, w-1, x)
