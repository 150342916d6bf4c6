"""Decides equalities of 64 bit products modulo 2^64: every variable x is lo(x) + 2^32*hi(x), terms are
normalised to polynomials over lo/hi modulo 2^64 (sound: a rewriting of ring identities)."""
import z3
M = 1 << 64
def norm(e):
    memo = {}
    def go(e):
        k = e.get_id()
        if k in memo: return memo[k]
        r = go1(e)
        memo[k] = r
        return r
    def add(p, q):
        r = dict(p)
        for k, v in q.items():
            c = (r.get(k, 0) + v) % M
            if c: r[k] = c
            else: r.pop(k, None)
        return r
    def mul(p, q):
        r = {}
        for a, x in p.items():
            for b, y in q.items():
                k = tuple(sorted(a+b)); c = (r.get(k, 0) + x*y) % M
                if c: r[k] = c
                else: r.pop(k, None)
        return r
    def lo(x):
        # low 32 bits of x as polynomial, when x is a variable or already lo/hi
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.size() == 64: return {('lo', x.decl().name()): 1} and {(('lo ' + x.decl().name()),): 1}
        p = go(x)
        if p is not None and len(p) == 1:
            (k, c), = p.items()
            if c == 1 and len(k) == 1 and k[0].startswith(('lo ', 'hi ')): return p
        return None
    def hi(x):
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.size() == 64: return {('hi ' + x.decl().name(),): 1}
        return None
    def go1(e):
        if z3.is_bv_value(e):
            v = e.as_long() % M
            return {(): v} if v else {}
        d = e.decl().kind()
        if z3.is_const(e) and d == z3.Z3_OP_UNINTERPRETED and e.size() == 64:
            n = e.decl().name()
            return {('lo ' + n,): 1, ('hi ' + n,): 1 << 32}
        if e.size() != 64: return None
        c = e.children()
        if d == z3.Z3_OP_BADD:
            r = {}
            for x in c:
                p = go(x)
                if p is None: return None
                r = add(r, p)
            return r
        if d == z3.Z3_OP_BMUL:
            r = {(): 1}
            for x in c:
                p = go(x)
                if p is None: return None
                r = mul(r, p)
            return r
        if d == z3.Z3_OP_BSHL and z3.is_bv_value(c[1]):
            p = go(c[0]); s = c[1].as_long()
            if p is None or s >= 64: return None if p is None else {}
            return mul(p, {(): 1 << s})
        if d == z3.Z3_OP_BLSHR and z3.is_bv_value(c[1]) and c[1].as_long() == 32: return hi(c[0])
        if d == z3.Z3_OP_BAND and len(c) == 2:
            for a, b in ((0, 1), (1, 0)):
                if z3.is_bv_value(c[a]) and c[a].as_long() == 0xffffffff: return lo(c[b])
        if d == z3.Z3_OP_ZERO_EXT and c[0].size() == 32 and c[0].decl().kind() == z3.Z3_OP_EXTRACT:
            h, l = c[0].params()
            if (h, l) == (31, 0): return lo(c[0].arg(0))
            if (h, l) == (63, 32): return hi(c[0].arg(0))
        if d == z3.Z3_OP_CONCAT:
            if len(c) == 2 and c[0].size() == 32 and c[1].size() == 32:
                a, b = c
                if z3.is_bv_value(a) and a.as_long() == 0 and b.decl().kind() == z3.Z3_OP_EXTRACT:
                    h, l = b.params()
                    if (h, l) == (31, 0): return lo(b.arg(0))
                    if (h, l) == (63, 32): return hi(b.arg(0))
                if z3.is_bv_value(b) and b.as_long() == 0 and a.decl().kind() == z3.Z3_OP_EXTRACT and a.params() == [31, 0]:
                    p = lo(a.arg(0))
                    return mul(p, {(): 1 << 32}) if p is not None else None
        return None
    return go(e)
def equal(a, b):
    p = norm(a); q = norm(b)
    return p is not None and q is not None and p == q
