"""Floating point: comparisons, sign and nan tests are exact bit-level formulas; arithmetic and
library functions are uninterpreted (the same symbol in code and specification)."""
import z3
M = {16: (5, 10), 32: (8, 23), 64: (11, 52), 80: (15, 64)}
def _bv(v, w): return z3.BitVecVal(v, w)
def expmask(w):
    e, m = M[w]
    return ((1 << e)-1) << m
def isnan(x):
    w = x.size()
    if w == 80: return z3.Function('isnan80', z3.BitVecSort(80), z3.BoolSort())(x)
    return z3.UGT(x & _bv((1 << (w-1))-1, w), _bv(expmask(w), w))
def isinf(x):
    w = x.size()
    return (x & _bv((1 << (w-1))-1, w)) == _bv(expmask(w), w)
def iszero(x):
    w = x.size()
    return (x & _bv((1 << (w-1))-1, w)) == 0
def sgn(x):
    w = x.size()
    return z3.Extract(w-1, w-1, x) == 1
def lt_num(a, b):
    """a<b for non nan"""
    sa, sb = sgn(a), sgn(b)
    return z3.And(z3.Not(z3.And(iszero(a), iszero(b))),
        z3.If(sa, z3.If(sb, z3.ULT(b, a), z3.BoolVal(True)), z3.If(sb, z3.BoolVal(False), z3.ULT(a, b))))
def eq_num(a, b): return z3.Or(a == b, z3.And(iszero(a), iszero(b)))
def fcmp(p, a, b):
    w = a.size()
    if w == 80:
        return z3.Function('fcmp80_' + p, z3.BitVecSort(80), z3.BitVecSort(80), z3.BoolSort())(a, b)
    if p == 'true': return z3.BoolVal(True)
    if p == 'false': return z3.BoolVal(False)
    uno = z3.Or(isnan(a), isnan(b)) if not a.eq(b) else isnan(a)
    if p == 'uno': return uno
    if p == 'ord': return z3.Not(uno)
    o = p[0] == 'o'; r = p[1:]
    if r == 'eq': e = eq_num(a, b)
    elif r == 'ne': e = z3.Not(eq_num(a, b))
    elif r == 'lt': e = lt_num(a, b)
    elif r == 'le': e = z3.Or(lt_num(a, b), eq_num(a, b))
    elif r == 'gt': e = lt_num(b, a)
    elif r == 'ge': e = z3.Or(lt_num(b, a), eq_num(a, b))
    else: raise ValueError(p)
    return z3.And(z3.Not(uno), e) if o else z3.Or(uno, e)
def uf(name, *args, ret=None):
    sorts = [a.sort() for a in args] + [z3.BitVecSort(ret if ret else args[0].size())]
    return z3.Function(name, *sorts)(*args)
COMM = {'fadd', 'fmul'}
def arith(op, a, b):
    w = a.size()
    if op == 'fsub' and z3.is_bv_value(a) and a.as_long() == 1 << (w-1):
        return b ^ _bv(1 << (w-1), w)
    if op in COMM and a.get_id() > b.get_id() and str(a.sexpr()) > str(b.sexpr()): a, b = b, a
    elif op in COMM and a.sexpr() > b.sexpr(): a, b = b, a
    return uf('%s%d' % (op, w), a, b)
def canon(e):
    """order the arguments of commutative operations"""
    memo = {}
    def go(x):
        k = x.get_id()
        if k in memo: return memo[k]
        if x.num_args() == 0: r = x
        else:
            c = [go(y) for y in x.children()]
            n = x.decl().name()
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and n[:4] in COMM and c[0].sexpr() > c[1].sexpr(): c = c[::-1]
            r = x.decl()(*c) if any(not a.eq(b) for a, b in zip(c, x.children())) else x
        memo[k] = r
        keep.append(x)
        return r
    keep = []
    return go(e)
def fneg(x):
    w = x.size(); return x ^ _bv(1 << (w-1), w)
def fabs(x):
    w = x.size(); return x & _bv((1 << (w-1))-1, w)
def copysign(a, b):
    w = a.size(); return fabs(a) | (b & _bv(1 << (w-1), w))
def conv(op, x, wt):
    return uf('%s_%d_%d' % (op, x.size(), wt), x, ret=wt)
PURE = {}
for base in ('fmod','sqrt','sin','cos','tan','asin','acos','atan','sinh','cosh','tanh','asinh','acosh','atanh','exp','exp2','expm1','log','log2','log10','log1p','cbrt','atan2','hypot','rint','floor','ceil','trunc','round','pow','nearbyint','copysign','fabs','scalbn','ldexp'):
    for suf, w in (('f', 32), ('', 64), ('l', 80)):
        PURE[base + suf] = '%s%d' % (base, w)
def purecall(n): return n in PURE
def extern(n, args, w):
    k = PURE[n]
    if k.startswith('fabs'): return fabs(args[0])
    if k.startswith('copysign'): return copysign(*args)
    return uf(k, *args, ret=w)
