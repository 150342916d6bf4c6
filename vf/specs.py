"""NumPy meaning of each hooked ufunc on one element, by ufunc name and element type (bit-exact terms)."""
import z3
from . import fp
from .kern import *

def b8(c): return z3.If(c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
def lt(t, a, b):
    if t in ISF: return fp.fcmp('olt', a, b)
    return a < b if t in SIGNED else z3.ULT(a, b)
def eq(t, a, b):
    return fp.fcmp('oeq', a, b) if t in ISF else a == b

def fconst(w, v):
    import struct
    if w == 32: return z3.BitVecVal(struct.unpack('<I', struct.pack('<f', v))[0], 32)
    return z3.BitVecVal(struct.unpack('<Q', struct.pack('<d', v))[0], 64)

def floordiv(a, b):
    """npy_floor_divide: python semantics on top of the C library functions"""
    w = a.size()
    z = fconst(w, 0.0); one = fconst(w, 1.0); half = fconst(w, 0.5)
    f = {32: 'fmod32', 64: 'fmod64'}[w]
    div0 = fp.arith('fdiv', a, b)
    mod = fp.uf(f, a, b)
    div = fp.arith('fdiv', fp.arith('fsub', a, mod), b)
    adj = z3.And(fp.fcmp('une', mod, z), z3.Xor(fp.fcmp('olt', b, z), fp.fcmp('olt', mod, z)))
    # the code adds -1.0, the reference subtracts 1.0: IEEE equal by definition
    div1 = z3.If(adj, fp.arith('fadd', div, fconst(w, -1.0)), div)
    fl = fp.uf('floor%d' % w, div1)
    up = fp.fcmp('ogt', fp.arith('fsub', div1, fl), half)
    r = z3.If(up, fp.arith('fadd', fl, one), fl)
    r0 = fp.copysign(z, div0)
    return z3.If(fp.fcmp('oeq', b, z), div0, z3.If(fp.fcmp('oeq', div1, z), r0, r))

def minmax(t, mx):
    def f(a, b):
        if t in ISF:
            p = fp.fcmp('ogt' if mx else 'olt', a, b)
            return z3.If(fp.isnan(a), a, z3.If(fp.isnan(b), b, z3.If(p, a, b)))
        p = lt(t, b, a) if mx else lt(t, a, b)
        return z3.If(p, a, b)
    return f

def binary(name, t):
    """-> (function, out type, zero tolerant) or None"""
    fl = t in ISF
    ar = lambda op: (lambda a, b: fp.arith(op, a, b))
    if name == 'add': return ((lambda a, b: a | b) if t == BOOL else ar('fadd') if fl else (lambda a, b: a + b)), t, False
    if name == 'subtract': return (ar('fsub') if fl else (lambda a, b: a - b)), t, False
    if name == 'multiply': return ((lambda a, b: a & b) if t == BOOL else ar('fmul') if fl else (lambda a, b: a * b)), t, False
    if name == 'true_divide' and fl: return ar('fdiv'), t, False
    if name == 'floor_divide' and fl: return floordiv, t, False
    if name == 'minimum': return minmax(t, False), t, fl
    if name == 'maximum': return minmax(t, True), t, fl
    if name == 'logical_and' and not fl: return (lambda a, b: b8(z3.And(a != 0, b != 0))), BOOL, False
    if name == 'logical_or' and not fl: return (lambda a, b: b8(z3.Or(a != 0, b != 0))), BOOL, False
    if not fl:
        if name == 'bitwise_and': return (lambda a, b: a & b), t, False
        if name == 'bitwise_or': return (lambda a, b: a | b), t, False
        if name == 'bitwise_xor': return (lambda a, b: a ^ b), t, False
    if name == 'equal': return (lambda a, b: b8(eq(t, a, b))), BOOL, False
    if name == 'not_equal': return (lambda a, b: b8(z3.Not(eq(t, a, b)))), BOOL, False
    if name == 'less': return (lambda a, b: b8(lt(t, a, b))), BOOL, False
    if name == 'greater': return (lambda a, b: b8(lt(t, b, a))), BOOL, False
    if name == 'less_equal': return (lambda a, b: b8(fp.fcmp('ole', a, b) if fl else z3.Not(lt(t, b, a)))), BOOL, False
    if name == 'greater_equal': return (lambda a, b: b8(fp.fcmp('oge', a, b) if fl else z3.Not(lt(t, a, b)))), BOOL, False
    return None

def unary(name, t):
    fl = t in ISF
    w = SIZE[t]*8
    if name in ('abs', 'absolute'):
        if fl: return (lambda a: fp.fabs(a)), t, False
        if t in SIGNED: return (lambda a: z3.If(a < 0, -a, a)), t, False
        return (lambda a: a), t, False
    if name == 'fabs' and fl: return (lambda a: fp.fabs(a)), t, False
    if name == 'signbit' and fl: return (lambda a: b8(fp.sgn(a))), BOOL, False
    if name in ('invert', 'bitwise_not') and not fl:
        if t == BOOL: return (lambda a: a ^ 1), t, False
        return (lambda a: ~a), t, False
    if name in ('floor', 'ceil', 'trunc', 'rint', 'sqrt') and fl: return (lambda a: fp.uf('%s%d' % (name, w), a)), t, False
    if name == 'negative' and t != BOOL:
        if fl: return (lambda a: fp.fneg(a)), t, False
        return (lambda a: -a), t, False
    if name == 'positive' and t != BOOL: return (lambda a: a), t, False
    if name == 'sign' and t != BOOL:
        if fl:
            def sg(a):
                z = fconst(w, 0.0)
                return z3.If(fp.fcmp('ogt', a, z), fconst(w, 1.0), z3.If(fp.fcmp('olt', a, z), fconst(w, -1.0), z3.If(fp.fcmp('oeq', a, z), z, a)))
            return sg, t, False
        if t in SIGNED: return (lambda a: z3.If(a > 0, z3.BitVecVal(1, w), z3.If(a == 0, z3.BitVecVal(0, w), z3.BitVecVal(-1, w)))), t, False
        return (lambda a: z3.If(a == 0, z3.BitVecVal(0, w), z3.BitVecVal(1, w))), t, False
    if name == 'square': return (lambda a: fp.arith('fmul', a, a) if fl else a*a), t, False
    if name == 'logical_not': return (lambda a: b8(eq(t, a, z3.BitVecVal(0, w)))), BOOL, False
    if name == 'isinf': return (lambda a: b8(fp.isinf(a)) if fl else z3.BitVecVal(0, 8)), BOOL, False
    if name == 'isnan': return (lambda a: b8(fp.isnan(a)) if fl else z3.BitVecVal(0, 8)), BOOL, False
    if name == 'isfinite': return (lambda a: b8(z3.Not(z3.Or(fp.isnan(a), fp.isinf(a)))) if fl else z3.BitVecVal(1, 8)), BOOL, False
    return None
