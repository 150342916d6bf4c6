"""Symbolic executor / verification condition generator over LLVM IR.

Every loop is cut at its header by an invariant that is synthesised (affine phis, guard derived bounds,
progress of the ghost output counter) and then CHECKED: initiation and preservation are obligations.
No loop is unrolled unless its trip count is a literal constant.
"""
import z3, time
from .poly import Poly
from . import ir

Z3A = z3.z3core.Z3_solver_assert
class Undecided(Exception):
    """the text left the fragment the verifier understands (never reported as a violation)"""

class Fork(Exception):
    def __init__(self, cond): self.cond = cond

class Ptr:
    __slots__ = ('b', 'o')
    def __init__(self, b, o): self.b = b; self.o = o
    def __repr__(self): return 'Ptr(%s,%s)' % (self.b, self.o)
class Undef:
    def __init__(self, ty=None): self.ty = ty
class Vec:
    """lanes all of width w (bits); lane granularity may differ from the IR type's"""
    __slots__ = ('l', 'w')
    def __init__(self, l, w): self.l = l; self.w = w
class Agg:
    def __init__(self, f): self.f = f

C0 = Poly.const(0)
TRUE = ('T',)
FALSE = ('F',)

def bnot(c):
    k = c[0]
    if k == 'T': return FALSE
    if k == 'F': return TRUE
    if k == 'c':
        if c[1] == '<=': return ('c', '<=', Poly.const(1) - c[2])      # not(p<=0) == 1-p<=0
        if c[1] == '==': return ('c', '!=', c[2])
        return ('c', '==', c[2])
    if k == 'not': return c[1]
    if k == 'and': return bor(bnot(c[1]), bnot(c[2]))
    if k == 'or': return band(bnot(c[1]), bnot(c[2]))
    return ('z', z3.Not(c[1]), c[2])
def band(a, b):
    if a[0] == 'F' or b[0] == 'F': return FALSE
    if a[0] == 'T': return b
    if b[0] == 'T': return a
    return ('and', a, b)
def bor(a, b):
    if a[0] == 'T' or b[0] == 'T': return TRUE
    if a[0] == 'F': return b
    if b[0] == 'F': return a
    return ('or', a, b)
_bz = {}
def bz(c):
    x = _bz.get(id(c))
    if x is not None and x[0] is c: return x[1]
    r = bz_(c)
    if len(_bz) > 200000: _bz.clear()
    _bz[id(c)] = (c, r)
    return r
_ca = {}
def catoms(c):
    x = _ca.get(id(c))
    if x is not None and x[0] is c: return x[1]
    r = catoms_(c)
    if len(_ca) > 200000: _ca.clear()
    _ca[id(c)] = (c, r)
    return r
def bz_(c):
    k = c[0]
    if k == 'T': return z3.BoolVal(True)
    if k == 'F': return z3.BoolVal(False)
    if k == 'c':
        p = c[2].z()
        return p <= 0 if c[1] == '<=' else p == 0 if c[1] == '==' else p != 0
    if k == 'and': return z3.And(bz(c[1]), bz(c[2]))
    if k == 'or': return z3.Or(bz(c[1]), bz(c[2]))
    if k == 'not': return z3.Not(bz(c[1]))
    return c[1]
def isdata(c):
    k = c[0]
    if k == 'z': return c[2] == 'bv'
    if k in ('and', 'or'): return isdata(c[1]) or isdata(c[2])
    if k == 'not': return isdata(c[1])
    return False
def catoms_(c):
    k = c[0]
    if k == 'c': return c[2].atoms()
    if k in ('and', 'or'): return catoms(c[1]) | catoms(c[2])
    if k == 'not': return catoms(c[1])
    return set()
_cs = {}
def csubst(c, d):
    k = c[0]
    if not d or k in 'TF': return c
    u = catoms(c)
    if u.isdisjoint(d): return c
    key = (id(c),) + tuple(id(d[a]) for a in sorted(u) if a in d)
    x = _cs.get(key)
    if x is not None: return x[1]
    r = csubst_(c, d)
    if len(_cs) > 200000: _cs.clear()
    _cs[key] = (c, r, [d[a] for a in u if a in d])
    return r
def csubst_(c, d):
    k = c[0]
    if k == 'c': return ccmp(c[1], c[2].subst(d))
    if k == 'and': return band(csubst(c[1], d), csubst(c[2], d))
    if k == 'or': return bor(csubst(c[1], d), csubst(c[2], d))
    if k == 'not': return bnot(csubst(c[1], d))
    return c
def conjuncts(c):
    if c[0] == 'and': return conjuncts(c[1]) + conjuncts(c[2])
    return [c]
def ccmp(rel, p):
    if p.isconst():
        v = p.cval()
        r = v <= 0 if rel == '<=' else v == 0 if rel == '==' else v != 0
        return TRUE if r else FALSE
    if rel in ('==', '!='):
        g = p.gcd()
        if g > 1:
            if p.cval() % g: return FALSE if rel == '==' else TRUE
            p = p.divexact(g)
        k = p.key()
        if k[-1][1] < 0: p = -p
    else:
        g = p.gcd()
        if g > 1:
            c = p.cval()
            q = {m: v//g for m, v in p.m.items() if m}
            cc = -((-c)//g)            # ceil(c/g):  g*q + c <= 0  <=> q <= floor(-c/g)
            if cc: q[()] = cc
            p = Poly(q)
    return ('c', rel, p)
def zdata(e):
    e = z3.simplify(e)
    if z3.is_true(e): return TRUE
    if z3.is_false(e): return FALSE
    return ('z', e, 'bv')

class State:
    __slots__ = ('env', 'fn', 'mod', 'blk', 'prev', 'ip', 'facts', 'data', 'sub', 'mem', 'g', 'trace', 'frame')
    def copy(self):
        s = State()
        s.env = dict(self.env); s.fn = self.fn; s.mod = self.mod; s.blk = self.blk; s.prev = self.prev; s.ip = self.ip
        s.facts = list(self.facts); s.data = list(self.data); s.sub = dict(self.sub)
        s.mem = dict(self.mem); s.g = dict(self.g); s.trace = self.trace; s.frame = self.frame
        return s

class Loops:
    def __init__(self, f):
        self.f = f
        succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1]
            succ[b] = list(dict.fromkeys(targets(t)))
        self.succ = succ
        pred = {b: [] for b in succ}
        for b, ss in succ.items():
            for s in ss: pred[s].append(b)
        self.pred = pred
        entry = f.order[0]
        # reverse postorder
        seen = set(); post = []
        stack = [(entry, iter(succ[entry]))]; seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(succ[s]))); break
            else:
                post.append(b); stack.pop()
        rpo = post[::-1]; num = {b: i for i, b in enumerate(rpo)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while num[x] > num[y]: x = idom[x]
                        while num[y] > num[x]: y = idom[y]
                    n = x
                if idom.get(b) != n: idom[b] = n; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in succ[b]:
                if num[s] <= num[b]:
                    if not dom(s, b): raise Undecided('irreducible loop in ' + f.name)
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st.extend(p for p in pred[x] if p in seen)
def targets(t):
    if t.op == 'br': return t.x
    if t.op == 'switch': return [t.x[0]] + [l for _, l in t.x[1]]
    if t.op == 'invoke': return t.x[1][:1]
    return []

class Ex:
    def __init__(self, mods, spec=None, name=''):
        self.mods = mods if isinstance(mods, list) else [mods]
        self.spec = spec
        self.name = name
        self.ax = {}          # atom -> list of z3 axioms
        self.i2b = {}; self.wrapof = {}
        self.nfresh = 0
        self.obls = []        # (name, status, detail)
        self.loopsc = {}
        self.hooks = {}
        self.dry = 0
        self.divs = {}
        self.paths = 0
        self.t0 = time.time()
        self.deadline = None
        self.solver_s = 0.0
        self.nq = 0
        self._pc = {}
        self.unroll_max = 128
        self.concrete = False     # run loops instead of cutting them (closed programs: table initialisation)
        self.bvint = {}
        self.orof = {}
        self.linfo = []
        self.inline_ok = lambda n: True
        self.depth = 0
        self.active = []
        self.loopnotes = []
        self.ite_hook = None
        self.on_ret = None
        self.lanew = None
        self.loopatoms = set()
    # ------------------------------------------------------------------ obligations
    def oblige(self, kind, ok, detail='', model=None):
        """ok: True proved, False refuted (solver model), None unknown/unsupported"""
        if self.dry: return
        self.obls.append((kind, ok, detail, model))
    # ------------------------------------------------------------------ atoms
    def fresh(self, p):
        self.nfresh += 1
        return '%s.%d' % (p, self.nfresh)
    def div(self, st, p, c):
        """floor(p / c) as polynomial, c a positive integer constant"""
        if c == 1: return p
        p = self.norm(st, p)
        q = {}; r = {}
        for m, v in p.m.items():
            if m and v % c == 0: q[m] = v//c
            elif not m:
                if v//c: q[m] = v//c
                if v % c: r[m] = v % c
            else: r[m] = v
        if not any(m for m in r):
            return Poly(q)
        g = Poly(r).gcd()
        import math
        g = math.gcd(g, c)
        rp = Poly(r)
        if g > 1:
            # floor((g*a+b)/(g*c')) = floor((a+floor(b/g))/c')
            b = rp.cval()
            rp = Poly({m: v//g for m, v in rp.m.items() if m}) + Poly.const(b//g)
            return Poly(q) + self.div(st, rp, c//g)
        k = ('div', rp.key(), c)
        a = self.divs.get(k)
        if a is None:
            a = 'div(%r,%d)' % (rp, c)
            self.divs[k] = a
            z = z3.Int(a)
            self.ax[a] = ([c*z <= rp.z(), rp.z() < c*z + c], rp.atoms())
        return Poly(q) + Poly.atom(a)
    def rem(self, st, p, c):
        return p - self.div(st, p, c)*c
    def norm(self, st, p):
        return p.subst(st.sub) if st.sub else p
    # ------------------------------------------------------------------ solver
    def axioms(self, atoms, seen=None):
        out = []; seen = set() if seen is None else seen; todo = list(atoms)
        while todo:
            a = todo.pop()
            if a in seen: continue
            seen.add(a)
            x = self.ax.get(a)
            if x:
                out.extend(x[0]); todo.extend(x[1])
        return out
    base = None
    def check(self, st, conds, timeout=3000, data=False, model=True):
        """satisfiable?  returns 'sat','unsat','unknown'"""
        if self.deadline and time.time() > self.deadline: raise Undecided('time budget for this function used up')
        cs = []
        for c in st.facts:
            c = csubst(c, st.sub)
            if c[0] == 'T': continue
            cs.append(c)
        nf = len(cs)
        for c in conds:
            c = csubst(c, st.sub)
            if c[0] == 'F': return 'unsat', None
            if c[0] == 'T': continue
            cs.append(c)
        # the facts are kept in one solver as long as they only grow; the question is asked in a scope of its own
        t = time.time()
        B = self.base
        ids = [id(c) for c in cs[:nf]]
        if B is None or data or B['data'] or len(ids) < len(B['ids']) or ids[:len(B['ids'])] != B['ids']:
            s = z3.Solver(); s.set('timeout', timeout)
            B = self.base = dict(s=s, ids=[], keep=[], seen=set(), data=data)
        s = B['s']
        cr, sr = s.ctx.ref(), s.solver
        for c in cs[len(B['ids']):nf]:
            Z3A(cr, sr, bz(c).ast); B['ids'].append(id(c)); B['keep'].append(c)
            for a in self.axioms(catoms(c), B['seen']): Z3A(cr, sr, a.ast)
        s.push()
        seen = set(B['seen'])
        for c in cs[nf:]:
            Z3A(cr, sr, bz(c).ast)
            for a in self.axioms(catoms(c), seen): Z3A(cr, sr, a.ast)
        if data:
            for d in st.data: Z3A(cr, sr, d.ast)
        r = s.check()
        m = s.model() if r == z3.sat and model else None
        s.pop()
        self.solver_s += time.time() - t
        self.nq += 1
        if r == z3.sat: return 'sat', m
        if r == z3.unsat: return 'unsat', None
        return 'unknown', None
    def proves(self, st, c, data=False):
        c = csubst(c, st.sub)
        if c[0] == 'T': return True
        n = bnot(c)
        for f in st.facts:
            if f == c: return True
        r, m = self.check(st, [n], data=data)
        if r == 'unsat': return True
        if r == 'sat':
            self.last_model = m
            return False
        return None
    def resolve(self, st, c):
        """c, or a constant when the path condition already decides it"""
        c = csubst(c, st.sub)
        if c[0] in 'TF' or isdata(c): return c
        for f in st.facts:
            if f == c: return TRUE
        n = bnot(c)
        for f in st.facts:
            if f == n: return FALSE
        if self.proves(st, c) is True: return TRUE
        if self.proves(st, n) is True: return FALSE
        return c
    def feasible(self, st, c):
        c = csubst(c, st.sub)
        if c[0] == 'T': return True
        if c[0] == 'F': return False
        r, _ = self.check(st, [c])
        return r != 'unsat'
    def assume(self, st, c):
        """add a path condition; learn equalities"""
        c = csubst(c, st.sub)
        if c[0] == 'T': return
        for d in conjuncts(c):
            if d[0] == 'c' and d[1] == '==':
                # solve for an atom with unit coefficient that is a plain parameter
                p = d[2]
                for m, v in p.m.items():
                    if len(m) == 1 and abs(v) == 1 and m[0] in self.params:
                        rest = p - Poly({m: v})
                        if m[0] in rest.atoms(): continue
                        if any(a in self.ax for a in rest.atoms()): continue
                        st.sub = {k: x.subst({m[0]: rest*(-v)}) for k, x in st.sub.items()}
                        st.sub[m[0]] = rest*(-v)
                        break
                else:
                    st.facts.append(d)
                    continue
                st.facts.append(d) if not csubst(d, st.sub)[0] == 'T' else None
            elif isdata(d):
                st.data.append(bz(d))
            else:
                st.facts.append(d)
    params = frozenset()
    # ------------------------------------------------------------------ values
    def const(self, ty, v, st):
        k = v[0]
        if ty == 'ptr':
            if k == 'null' or k == 'zero': return Ptr(None, C0)
            if k == 'g': return self.gptr(st, v[1])
            if k == 'undef': return Undef(ty)
            if k == 'expr':
                if v[1] == 'gep':
                    return self.gep(st, v[2], [(t, self.val(st, t, x)) for t, x in v[3]])
                if v[1] == 'inttoptr':
                    x = self.val(st, v[2], v[3])
                    return Ptr(None, x)
                if v[1] in ('bitcast',): return self.val(st, v[2], v[3])
            raise Undecided('const ptr %s' % (v,))
        if isinstance(ty, tuple):
            if ty[0] == 'i':
                if k == 'c':
                    if ty[1] == 1: return TRUE if v[1] & 1 else FALSE
                    return Poly.const(v[1])
                if k == 'zero': return FALSE if ty[1] == 1 else C0
                if k == 'undef': return Undef(ty)
                if k == 'expr':
                    if v[1] == 'ptrtoint': return self.p2i(st, self.val(st, v[2], v[3]))
                    if v[1] in ('sub', 'add'):
                        a = self.val(st, v[2], v[3]); b = self.val(st, v[2], v[4])
                        return a - b if v[1] == 'sub' else a + b
                raise Undecided('const int %s' % (v,))
            if ty[0] == 'f':
                if k == 'fp': return z3.BitVecVal(v[1], ty[1])
                if k == 'zero': return z3.BitVecVal(0, ty[1])
                if k == 'undef': return Undef(ty)
            if ty[0] == 'v':
                if k == 'undef': return Undef(ty)
                if ty[2] == ('i', 1):
                    if k == 'zero': return Vec([FALSE]*ty[1], 1)
                    return Vec([self.const(t, x, st) for t, x in v[1]], 1)
                w = ety(ty)
                if k == 'zero': return Vec([z3.BitVecVal(0, w)]*ty[1], w)
                if k == 'agg':
                    return Vec([z3.BitVec('undef', w) if x[0] == 'undef' else self.bv(self.const(t, x, st), w) for t, x in v[1]], w)
            if ty[0] in ('a', 's'):
                if k == 'undef': return Undef(ty)
                if k == 'zero': return Undef(ty) if False else Agg([self.const(t, ('zero',), st) for t in (ty[1] if ty[0] == 's' else [ty[2]]*ty[1])])
                if k == 'agg': return Agg([self.const(t, x, st) for t, x in v[1]])
        if ty == 'metadata': return None
        raise Undecided('const %s %s' % (ty, v))
    def gptr(self, st, name):
        return Ptr('@' + name, C0)
    def val(self, st, ty, v):
        if v[0] == 'l':
            try:
                return st.env[v[1]]
            except KeyError:
                raise Undecided('unknown value %' + v[1])
        return self.const(ty, v, st)
    def bv(self, v, w):
        """value -> z3 bit-vector of width w"""
        if isinstance(v, z3.BitVecRef):
            if v.size() != w: raise Undecided('width %d vs %d' % (v.size(), w))
            return v
        if isinstance(v, Poly):
            if v.isconst(): return z3.BitVecVal(v.cval() & ((1 << w)-1), w)
            n = 'int2bv%d(%r)' % (w, v)
            self.i2b[n] = v
            return z3.BitVec(n, w)
        if isinstance(v, tuple):
            return z3.If(bz(v), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if isinstance(v, Undef):
            return z3.BitVec(self.fresh('undef'), w)
        raise Undecided('bv of %s' % (v,))
    def toint(self, st, v, w):
        """value used as an index -> Poly (signed)"""
        if isinstance(v, Poly): return v
        if isinstance(v, z3.BitVecRef):
            v = z3.simplify(v)
            if z3.is_bv_value(v): return Poly.const(v.as_signed_long())
            k = (v.hash(), v.sexpr())
            if k not in self.bvint:
                a = self.fresh('bv')
                self.bvint[k] = (a, v)
                z = z3.Int(a)
                self.ax[a] = ([z >= -(1 << (v.size()-1)), z < (1 << (v.size()-1))], set())
            return Poly.atom(self.bvint[k][0])
        if isinstance(v, Ptr): return self.p2i(st, v)
        raise Undecided('int of %s' % (v,))
    def zbool(self, c): return bz(c)
    def addr(self, b):
        return 'addr(%s)' % b
    def p2i(self, st, p):
        if isinstance(p, (Poly, z3.BitVecRef)): return p
        if p.b is None: return p.o
        a = self.addr(p.b)
        return Poly.atom(a) + p.o
    # regroup a vector to lane width w
    def lanes(self, v, w, n):
        if isinstance(v, Undef): return [z3.BitVec(self.fresh('undef'), w) for _ in range(n)]
        if not isinstance(v, Vec): raise Undecided('vector expected')
        if v.w == w: return v.l
        if w == 1 or v.w == 1:
            raise Undecided('i1 vector regroup')
        if v.w < w:
            k = w//v.w
            return [cat(v.l[i*k:(i+1)*k]) for i in range(n)]
        k = v.w//w
        out = []
        for x in v.l:
            out.extend(split(x, w))
        return out
    # ------------------------------------------------------------------ gep
    def gep(self, st, ty, ops):
        base = ops[0][1]
        if isinstance(base, Undef): raise Undecided('gep undef')
        if isinstance(base, (Poly, z3.BitVecRef)): base = Ptr(None, self.toint(st, base, 64))
        off = self.toint(st, ops[1][1], 64)*ir.size(ty)
        t = ty
        for it, iv in ops[2:]:
            if t[0] == 's':
                i = iv.cval()
                off = off + ir.offset(t, i)
                t = t[1][i]
            else:
                t = t[2]
                off = off + self.toint(st, iv, 64)*ir.size(t)
        return Ptr(base.b, self.norm(st, base.o + off))
    # ------------------------------------------------------------------ memory
    def obj(self, st, p):
        if p.b is None: raise Undecided('null/integer pointer access %s' % p)
        o = self.spec.obj(self, st, p) if self.spec else None
        if o is None: raise Undecided('no memory object for %s' % p)
        return o
    def load(self, st, ty, p, x):
        if not isinstance(p, Ptr): raise Undecided('load through %s' % (p,))
        o = self.obj(st, p)
        return o.load(self, st, self.norm(st, p.o), ty, x)
    def store(self, st, ty, v, p, x):
        if not isinstance(p, Ptr): raise Undecided('store through %s' % (p,))
        o = self.obj(st, p)
        o.store(self, st, self.norm(st, p.o), ty, v, x)
    def memset(self, st, p, v, n):
        n = self.norm(st, n)
        if not isinstance(p, Ptr): raise Undecided('memset target')
        o = self.obj(st, p)
        if isinstance(v, Poly) and v.isconst(): v = z3.BitVecVal(v.cval() & 255, 8)
        v = self.bv(v, 8)
        if n.isconst() and isinstance(o, Cells):
            c = n.cval()
            off = self.norm(st, p.o)
            for w in (8, 4, 2, 1):
                while c >= w:
                    e = z3.simplify(cat([v]*w))
                    o = self.obj(st, p)
                    o.store(self, st, off, ('i', w*8), Poly.const(e.as_signed_long()) if z3.is_bv_value(e) else e, None)
                    off = off + w; c -= w
            return None
        b = getattr(o, 'bulkset', None)
        if b is None: raise Undecided('memset of %s' % p)
        b(self, st, self.norm(st, p.o), v, n)
        return None
    def memcpy(self, st, d, s, n):
        n = self.norm(st, n)
        if not isinstance(d, Ptr) or not isinstance(s, Ptr): raise Undecided('memcpy')
        od = self.obj(st, d); os = self.obj(st, s)
        if n.isconst() and n.cval() == 0: return None
        b = getattr(od, 'bulkcopy', None)
        if b is not None:
            b(self, st, self.norm(st, d.o), os, self.norm(st, s.o), n)
            return None
        if n.isconst() and isinstance(od, Cells) and n.cval() <= 4096:
            c = n.cval(); o1 = self.norm(st, d.o); o2 = self.norm(st, s.o)
            if isinstance(os, Cells) and o1.isconst() and o2.isconst():
                # copy cell by cell
                for k, (m, v, t) in sorted(os.c.items()):
                    if k >= o2.cval() and k + m <= o2.cval() + c:
                        self.obj(st, d).store(self, st, o1 + (k - o2.cval()), t, v, None)
                    elif k < o2.cval() + c and k + m > o2.cval(): raise Undecided('memcpy splits a cell')
                return None
            i = 0
            while i < c:
                w = 8 if c - i >= 8 else 4 if c - i >= 4 else 2 if c - i >= 2 else 1
                v = os.load(self, st, o2 + i, ('i', w*8), None)
                self.obj(st, d).store(self, st, o1 + i, ('i', w*8), v, None)
                i += w
            return None
        raise Undecided('memcpy of %s bytes' % n)
    # ------------------------------------------------------------------ control
    def loops(self, f):
        k = id(f)
        if k not in self.loopsc: self.loopsc[k] = Loops(f)
        return self.loopsc[k]
    def call(self, st, fname, args, mod=None):
        """run a defined function to completion: [(state, retval)]"""
        m = mod or st.mod
        f = m.func(fname)
        if f is None: raise Undecided('no body for ' + fname)
        self.depth += 1
        if self.depth > 40: raise Undecided('call depth (recursion) in ' + fname)
        s = st.copy()
        s.env = {}
        s.fn = f; s.mod = m
        s.frame = fname
        for (t, n), a in zip(f.params, args): s.env[n] = a
        s.blk = f.order[0]; s.prev = None; s.ip = 0
        outs = []
        for kind, t, v in self.explore(s, None):
            if kind == 'ret':
                t.env = dict(st.env); t.fn = st.fn; t.mod = st.mod; t.blk = st.blk; t.prev = st.prev; t.ip = st.ip; t.frame = st.frame
                outs.append((t, v))
        self.depth -= 1
        return outs
    def explore(self, st, stop):
        """depth first.  stop(block)->tag ends a path when control is transferred to that block.
        yields ('ret',state,val) / (tag,state,None)"""
        work = [(st, 'run')]
        res = []
        while work:
            s, how = work.pop()
            if self.deadline and time.time() > self.deadline: raise Undecided('time budget for this function used up')
            if how == 'goto':
                # entering s.blk from s.prev
                if stop:
                    tag = stop(s.blk)
                    if tag:
                        res.append((tag, s, None)); continue
                L = self.loops(s.fn).loops
                if s.blk in L and not self.concrete and (s.fn.name, s.blk) not in self.active:
                    exits, rets = self.loop(s, s.blk, L[s.blk])
                    for t in exits: work.append((t, 'goto'))
                    res.extend(rets)
                    continue
                self.phis(s)
            while True:
                ins = s.fn.blocks[s.blk][s.ip]
                if ins.op in ('br', 'switch', 'ret', 'unreachable', 'invoke', 'resume'):
                    break
                try:
                    forks = self.step(s, ins)
                except Fork as fk:
                    a = s.copy(); b = s
                    fa = self.feasible(a, fk.cond); fb = self.feasible(b, bnot(fk.cond))
                    if fa and fb:
                        self.assume(a, fk.cond); self.assume(b, bnot(fk.cond))
                        work.append((a, 'run')); s = b; continue
                    if fa: self.assume(s, fk.cond); continue
                    if fb: self.assume(s, bnot(fk.cond)); continue
                    s = None; break
                if forks is not None:
                    # call returned several states
                    for t, v in forks:
                        if ins.d is not None: t.env[ins.d] = v
                        t.ip = s.ip + 1
                    if not forks: s = None; break
                    for t, v in forks[1:]: work.append((t, 'run'))
                    s = forks[0][0]
                    continue
                s.ip += 1
            if s is None: continue
            ins = s.fn.blocks[s.blk][s.ip]
            if ins.op == 'ret':
                v = self.val(s, ins.ty, ins.a[0]) if ins.a else None
                res.append(('ret', s, v))
                continue
            if ins.op in ('unreachable', 'resume'):
                continue
            if ins.op == 'invoke':
                forks = self.docall(s, ins)
                for t, v in forks:
                    if ins.d is not None: t.env[ins.d] = v
                    t.prev = s.blk; t.blk = ins.x[1][0]; t.ip = 0
                    work.append((t, 'goto'))
                continue
            for cond, tgt in self.branch(s, ins):
                t = s.copy()
                if cond is not None: self.assume(t, cond)
                t.prev = s.blk; t.blk = tgt; t.ip = 0
                work.append((t, 'goto'))
        return res
    def branch(self, s, ins):
        if ins.op == 'br':
            if not ins.a: return [(None, ins.x[0])]
            c = csubst(self.val(s, ('i', 1), ins.a[0]), s.sub) if not isinstance(self.val(s, ('i', 1), ins.a[0]), (Undef, z3.BitVecRef)) else self.val(s, ('i', 1), ins.a[0])
            if isinstance(c, z3.BitVecRef): c = zdata(c == 1)
            if isinstance(c, Undef): return [(None, ins.x[0]), (None, ins.x[1])]
            if c[0] == 'T': return [(None, ins.x[0])]
            if c[0] == 'F': return [(None, ins.x[1])]
            out = []
            if self.feas(s, c): out.append((c, ins.x[0]))
            if self.feas(s, bnot(c)): out.append((bnot(c), ins.x[1]))
            return out
        v = self.val(s, ins.ty, ins.a[0])
        if isinstance(v, tuple): v = self.boolint(s, v)
        w = ins.ty[1]
        if isinstance(v, z3.BitVecRef):
            out = []; neg = TRUE
            for c, l in ins.x[1]:
                e = zdata(v == z3.BitVecVal(c & ((1 << w)-1), w))
                if e[0] != 'F': out.append((e, l))
                neg = band(neg, bnot(e))
            if neg[0] != 'F': out.append((neg, ins.x[0]))
            return out
        v = self.norm(s, v)
        if v.isconst():
            x = v.cval()
            for c, l in ins.x[1]:
                if (c - x) % (1 << w) == 0: return [(None, l)]
            return [(None, ins.x[0])]
        out = []; neg = TRUE
        for c, l in ins.x[1]:
            e = ccmp('==', v - c)
            if self.feas(s, e): out.append((e, l))
            neg = band(neg, bnot(e))
        if self.feas(s, neg): out.append((neg, ins.x[0]))
        return out
    def feas(self, s, c):
        if isdata(c): return True
        return self.feasible(s, c)
    def boolint(self, s, c):
        c = self.resolve(s, c)
        if c[0] == 'T': return Poly.const(1)
        if c[0] == 'F': return C0
        if isdata(c): return None
        raise Fork(c)
    def phis(self, s):
        new = {}
        n = 0
        for ins in s.fn.blocks[s.blk]:
            if ins.op != 'phi': break
            n += 1
            for v, l in ins.a:
                if l == s.prev:
                    new[ins.d] = self.val(s, ins.ty, v); break
            else:
                raise Undecided('phi edge')
        s.env.update(new)
        s.ip = n
    # ------------------------------------------------------------------ loops
    def loop(self, s, H, body):
        """cut the loop at H for the incoming state s; returns (exit states, ret results)"""
        fn = s.fn
        key = (fn.name, H)
        L = self.loops(fn)
        phis = [i for i in fn.blocks[H] if i.op == 'phi']
        init = {}
        for i in phis:
            for v, l in i.a:
                if l == s.prev: init[i.d] = self.val(s, i.ty, v)
        def stop(b):
            if b == H: return 'back'
            if b not in body: return 'exit'
            return None
        self.active.append(key)
        self.linfo.append((s, phis, init))
        try:
            if self.spec: self.spec.loop_enter(self, s)
            # ---- pass 1: classify phis with opaque values
            # (a spec may ask to try the value a phi starts with first: kept only when every iteration hands it on)
            guess = {i.d for i in phis if isinstance(init[i.d], Poly) and self.norm(s, init[i.d]).isconst()} if getattr(self.spec, 'guess', False) else set()
            while True:
                self.dry += 1
                try:
                    d = s.copy()
                    dg = {}
                    for i in phis: d.env[i.d] = init[i.d] if i.d in guess else self.opaque(i, init[i.d], d)
                    if self.spec: self.spec.loop_havoc(self, d, None, None)
                    g0 = dict(d.g); m0 = dict(d.mem)
                    d.prev = None; d.blk = H; d.ip = len(phis)
                    nf = len(d.facts)
                    opq = {i.d: d.env[i.d] for i in phis}
                    paths = self.explore(d, stop)
                finally:
                    self.dry -= 1
                bad = {i.d for i in phis if i.d in guess for kd, t, _ in paths if kd == 'back' for nv in [self.phiback(t, i, H)] if not isinstance(nv, Poly) or self.norm(t, nv - init[i.d]).m != {}}
                if not bad: break
                guess -= bad
            backs = [p for p in paths if p[0] == 'back']
            steps = {x: C0 for x in guess}
            for i in phis:
                o = opq[i.d]
                if i.d in guess: continue
                if isinstance(o, (Ptr, Poly)):
                    st_ = None; ok = True
                    for _, t, _ in backs:
                        nv = self.phiback(t, i, H)
                        if isinstance(o, Ptr):
                            if not isinstance(nv, Ptr) or nv.b != o.b: ok = False; break
                            dlt = nv.o - o.o
                        else:
                            if not isinstance(nv, Poly): ok = False; break
                            if self.unroll_multi and len(nv.m) == 1 and len(nv.atoms()) == 1 and list(nv.atoms())[0] in self.wrapof: nv = self.wrapof[list(nv.atoms())[0]][1]
                            dlt = nv - o
                        dlt = self.norm(t, dlt)
                        if any(a.startswith(('phi.', 'bv.')) or a in self.loopatoms for a in dlt.atoms()): ok = False; break
                        if st_ is None: st_ = dlt
                        elif st_ != dlt: ok = False; break
                    if ok and st_ is not None: steps[i.d] = st_
            # delayed copies: next(p) == q + c with q affine and init(p) == init(q) + c - step(q)
            for i in phis:
                o = opq[i.d]
                if i.d in steps or not backs or not isinstance(o, (Ptr, Poly)): continue
                for j in phis:
                    q = opq[j.d]
                    if j.d not in steps or type(q) is not type(o): continue
                    if isinstance(o, Ptr) and (q.b != o.b or init[i.d].b != init[j.d].b): continue
                    of = (lambda x: x.o if isinstance(x, Ptr) else x)
                    c = None; ok = True
                    for _, t, _ in backs:
                        nv = self.phiback(t, i, H)
                        if type(nv) is not type(o) or (isinstance(o, Ptr) and nv.b != o.b): ok = False; break
                        d_ = self.norm(t, of(nv) - of(q))
                        if any(a.startswith(('phi.', 'bv.')) or a in self.loopatoms for a in d_.atoms()) or (c is not None and c != d_): ok = False; break
                        c = d_
                    if ok and c is not None and self.norm(s, of(init[i.d]) - of(init[j.d]) - c + steps[j.d]).m == {}:
                        steps[i.d] = steps[j.d]; break
            # the value it started with, whatever the iteration did
            for i in phis:
                if i.d in steps or not backs or not isinstance(init[i.d], (Ptr, Poly)) or i.ty == ('i', 1): continue
                if isinstance(init[i.d], Ptr) and init[i.d].b is None: continue
                of = (lambda x: x.o if isinstance(x, Ptr) else x)
                if all(type(nv) is type(init[i.d]) and (not isinstance(nv, Ptr) or nv.b == init[i.d].b) and self.norm(t, of(nv) - of(init[i.d])).m == {} for t in [t for _, t, _ in backs] for nv in [self.phiback(t, i, H)]): steps[i.d] = C0
            T = None
            if self.spec:
                T = self.spec.loop_progress(self, g0, [t for _, t, _ in backs])
            if not backs:
                # never iterates twice: just run it
                r = s.copy()
                for i in phis: r.env[i.d] = init[i.d]
                r.ip = len(phis)
                paths = self.explore(r, stop)
                ex = [t for k, t, _ in paths if k == 'exit']
                if any(k == 'back' for k, _, _ in paths): raise Undecided('loop shape')
                return ex, [p for p in paths if p[0] == 'ret']
            # ---- constant trip count: run it out
            tc = self.tripcount(s, phis, init, steps, backs, opq)
            if tc is not None and tc <= self.unroll_max:
                exits = []; rets = []
                r = s.copy()
                for i in phis: r.env[i.d] = init[i.d]
                r.ip = len(phis)
                cur = [r]
                for it in range(tc + 2):
                    nxt = []
                    for r in cur:
                        for k, t, v in self.explore(r, stop):
                            if k == 'exit': exits.append(t)
                            elif k == 'ret': rets.append((k, t, v))
                            else:
                                self.phis(t); nxt.append(t)
                    cur = self.spec.merge(self, nxt) if self.spec and hasattr(self.spec, 'merge') else nxt
                    if not cur: break
                if cur: raise Undecided('constant trip count guess failed')
                return exits, rets
            # ---- invariant
            ka = self.fresh('k')
            k = Poly.atom(ka)
            self.loopatoms.add(ka)
            def header(kp, tag):
                r = s.copy()
                for i in phis:
                    if i.d in steps:
                        iv = init[i.d]
                        r.env[i.d] = Ptr(iv.b, self.norm(s, iv.o + kp*steps[i.d])) if isinstance(iv, Ptr) else self.norm(s, self.toint(s, iv, 64) + kp*steps[i.d])
                    else:
                        r.env[i.d] = self.havocval(i, init[i.d], tag)
                if self.spec: self.spec.loop_havoc(self, r, kp, T)
                r.facts.append(('c', '<=', -kp))
                r.prev = None; r.blk = H; r.ip = len(phis)
                return r
            self.dry += 1
            try:
                h = header(k, 'd')
                nf = len(h.facts)
                p2 = self.explore(h, stop)
                cands = self.candidates(s, ka, k, [(t.facts[nf:], kd) for kd, t, _ in p2])
                # Houdini
                z0 = {ka: C0}; kn = {ka: k + 1}; km = {ka: k - 1}
                cands = [c for c in cands if self.proves(s, csubst(c, z0))]
                # path conditions of one iteration, valid at k-1 when k>=1
                bk = [[f for f in t.facts[nf:] if not isdata(f)] for kd, t, _ in p2 if kd == 'back']
                prevc = None
                if bk:
                    alt = FALSE
                    for fs in bk:
                        cj = TRUE
                        for f in fs:
                            if not any(a.startswith(('k.', 'phi.', 'bv.')) and a != ka for a in self.deepatoms(catoms(f))) and not any(ka in self.deepatoms({a}) and a != ka for a in catoms(f)):
                                cj = band(cj, csubst(f, km))
                        alt = bor(alt, cj)
                    prevc = bor(('c', '==', k), alt)
                while True:
                    hh = s.copy()
                    hh.facts.append(('c', '<=', -k))
                    hh.facts.extend(cands)
                    bad = []
                    for fs in bk:
                        e = hh.copy(); e.facts.extend(fs)
                        for c in cands:
                            if c in bad: continue
                            if self.proves(e, csubst(c, kn)) is not True: bad.append(c)
                    if not bad: break
                    cands = [c for c in cands if c not in bad]
            finally:
                self.dry -= 1
            # ---- real pass
            h = header(k, 'r')
            h.facts.extend(cands)
            if prevc is not None and prevc[0] not in ('T',): h.facts.append(prevc)
            hist = dict(k=ka, steps={a: repr(b) for a, b in steps.items()}, inv=len(cands), head=H)
            if self.spec: self.spec.loop_start(self, h, s, phis, init, steps, k, T)
            nobl = len(self.obls)
            paths = self.explore(h, stop)
            # preservation obligations
            for kd, t, _ in paths:
                if kd != 'back': continue
                for i in phis:
                    if i.d in steps:
                        nv = self.phiback(t, i, H)
                        iv = init[i.d]
                        want = (iv.o if isinstance(iv, Ptr) else self.toint(s, iv, 64)) + (k + 1)*steps[i.d]
                        got = nv.o if isinstance(nv, Ptr) else nv
                        ok = self.norm(t, got - want).isconst() and self.norm(t, got - want).cval() == 0
                        if not ok: ok = self.proves(t, ccmp('==', got - want))
                        self.oblige('inv:affine', True if ok else None, '%s %s' % (key, i.d))
                for c in cands:
                    self.oblige('inv:bound', self.proves(t, csubst(c, kn)) and True, repr(c))
                if self.spec: self.spec.loop_back(self, t, k, T, s, phis, init, steps, H)
            if not self.dry:
                # termination: some candidate bounds k from above by loop invariant terms
                up = False
                for c in cands:
                    if c[0] == 'c' and c[1] == '<=':
                        co = c[2].m.get((ka,), 0)
                        if co > 0 and sum(1 for m in c[2].m if ka in m) == 1: up = True
                if not up and self.spec: up = self.spec.term(self, key, paths)
                self.oblige('termination', True if up else None, '%s loop %s' % key)
            ex = [t for kd, t, _ in paths if kd == 'exit']
            if self.spec:
                for t in ex: self.spec.loop_exit(self, t, k, T, s)
                if hasattr(self.spec, 'merge'): ex = self.spec.merge(self, ex)
            return ex, [p for p in paths if p[0] == 'ret']
        finally:
            self.active.pop(); self.linfo.pop()
    def deepatoms(self, ats):
        seen = set(); todo = list(ats)
        while todo:
            a = todo.pop()
            if a in seen: continue
            seen.add(a)
            if a in self.ax: todo.extend(self.ax[a][1])
        return seen
    def opaque(self, i, iv, st):
        if isinstance(iv, Ptr):
            if iv.b is None and i.ty == 'ptr': return Ptr(iv.b, Poly.atom(self.fresh('phi')))
            return Ptr(iv.b, Poly.atom(self.fresh('phi')))
        if isinstance(iv, Poly): return Poly.atom(self.fresh('phi'))
        return self.havocval(i, iv, 'o')
    def havocval(self, i, iv, tag):
        ty = i.ty
        if ty == ('i', 1): return ('z', z3.Bool(self.fresh('phib')), 'bv')
        if ty[0] in ('i', 'f') and not isinstance(iv, Poly): return z3.BitVec(self.fresh('phiv'), ty[1] if ty[0] == 'i' else ty[1])
        if isinstance(iv, Poly):
            return Poly.atom(self.fresh('phi'))
        if ty[0] == 'v':
            w = ety(ty); tot = w*ty[1]
            if self.lanew and self.lanew < w: w = self.lanew
            return Vec([z3.BitVec(self.fresh('phiv'), w) for _ in range(tot//w)], w)
        if isinstance(iv, Ptr): return Ptr(iv.b, Poly.atom(self.fresh('phi')))
        raise Undecided('havoc of %s' % (ty,))
    def phiback(self, t, i, H):
        for v, l in i.a:
            if l == t.prev: return self.val(t, i.ty, v)
        raise Undecided('phi back edge')
    def tripcount(self, s, phis, init, steps, backs, opq):
        """literal constant trip count, when the latch compares an affine phi with constants"""
        if len(backs) != 1 or self.unroll_multi:
            r = self.tripmulti(s, phis, init, steps, backs, opq) if self.unroll_multi else None
            if len(backs) != 1 or r is not None: return r
        sub = {}
        for i in phis:
            if i.d in steps:
                o = opq[i.d]; iv = init[i.d]
                a = list((o.o if isinstance(o, Ptr) else o).atoms())
                if len(a) != 1: continue
                a = a[0]
                if isinstance(iv, Undef): return None
                sub[a] = (self.norm(s, iv.o if isinstance(iv, Ptr) else self.toint(s, iv, 64)), steps[i.d])
        t = backs[0][1]
        fs = [f for f in t.facts if f[0] == 'c' and (f[2].atoms() & set(sub)) and f[2].atoms() <= set(sub)]
        fs += [f for f in t.facts if f[0] != 'c' and not isdata(f) and (catoms(f) & set(sub)) and catoms(f) <= set(sub)]
        if not fs: return None
        if not all(st.isconst() for _, st in sub.values()): pass
        for kk in range(0, self.unroll_max + 1):
            dd = {}
            for a, (iv, st) in sub.items(): dd[a] = iv + st*kk
            r = [csubst(f, dd) for f in fs]
            if any(x[0] == 'F' for x in r): return kk
            if not any(x[0] == 'T' for x in r): return None
        return None
    unroll_multi = False
    def tripmulti(self, s, phis, init, steps, backs, opq):
        """a guess of the number of iterations when several paths return to the header (checked by running it out)"""
        sub = {}
        for i in phis:
            if i.d in steps:
                o = opq[i.d]; iv = init[i.d]
                if isinstance(iv, Undef): return None
                a = list((o.o if isinstance(o, Ptr) else o).atoms())
                if len(a) != 1: continue
                a = a[0]
                sub[a] = (self.norm(s, iv.o if isinstance(iv, Ptr) else self.toint(s, iv, 64)), steps[i.d])
        ps = []
        for _, t, _ in backs:
            un = {a: p for f in t.facts for a in catoms(f) if a in self.wrapof for p in [self.wrapof[a][1]]}
            fs = [csubst(f, un) for f in t.facts if not isdata(f)]
            fs = [f for f in fs if (catoms(f) & set(sub)) and catoms(f) <= set(sub)]
            if not fs: return None
            ps.append(fs)
        for kk in range(0, self.unroll_max + 1):
            dd = {a: iv + st*kk for a, (iv, st) in sub.items()}
            alive = False
            for fs in ps:
                r = [csubst(f, dd) for f in fs]
                if any(x[0] == 'F' for x in r): continue
                if not all(x[0] == 'T' for x in r): return None
                alive = True
            if not alive: return kk
        return None
    def candidates(self, s, ka, k, factlists):
        cs = []
        def addc(c):
            if c[0] == 'c' and c not in cs and ka in c[2].atoms(): cs.append(c)
        for fs, kd in factlists:
            for f0 in fs:
                for f in flat(f0):
                    if f[0] != 'c': continue
                    if ka not in f[2].atoms():
                        # e.g. a bound on a div atom that depends on k
                        continue
                    p = f[2]
                    for ff in ([p] + self.factors(s, p, ka)):
                        for c in (0, 1, -1):
                            if f[1] == '<=':
                                addc(ccmp('<=', ff + c)); 
                                addc(ccmp('<=', ff.subst({ka: k-1}) + c))
                                addc(ccmp('<=', -ff + c))
                            else:
                                addc(ccmp('<=', ff + c)); addc(ccmp('<=', -ff + c))
        return cs
    def factors(self, s, p, ka):
        """p = atom * q: the factor q when the atom is known nonzero"""
        out = []
        for a in p.atoms():
            if a == ka: continue
            q = p.divatom(a)
            if q is not None: out.append(q)
        return out
    # ------------------------------------------------------------------ instructions
    def step(self, s, ins):
        op = ins.op
        m = getattr(self, 'i_' + op, None)
        if m is None: 
            if op in BINI: s.env[ins.d] = self.binop(s, ins); return None
            raise Undecided('instruction %s (%s)' % (op, ins.txt[:80]))
        return m(s, ins)
    def i_unsupported(self, s, ins): raise Undecided('unsupported ' + ins.txt[:80])
    def i_load(self, s, ins):
        p = self.val(s, 'ptr', ins.a[0])
        s.env[ins.d] = self.load(s, ins.ty, p, ins.x)
    def i_store(self, s, ins):
        p = self.val(s, 'ptr', ins.a[1])
        v = self.val(s, ins.ty, ins.a[0])
        self.store(s, ins.ty, v, p, ins.x)
    def i_gep(self, s, ins):
        if ins.a[0][0] != 'ptr': raise Undecided('vector gep')
        s.env[ins.d] = self.gep(s, ins.ty, [(t, self.val(s, t, v)) for t, v in ins.a])
    def i_alloca(self, s, ins):
        b = self.fresh('alloca')
        cnt = self.val(s, ('i', 64), ins.a[0]) if ins.a else Poly.const(1)
        if isinstance(cnt, Poly): cnt = self.norm(s, cnt)
        if not isinstance(cnt, Poly) or not cnt.isconst():
            h = self.hooks.get('alloca')
            if not h: raise Undecided('dynamic alloca')
            s.env[ins.d] = h(self, s, ir.size(ins.ty)*cnt, b)
            return None
        o = Cells(b, ir.size(ins.ty)*cnt.cval())
        s.mem[b] = o
        if ins.x:
            self.ax[self.addr(b)] = ([z3.Int(self.addr(b)) == ins.x*z3.Int('al.'+b)], set())
        s.env[ins.d] = Ptr(b, C0)
    def i_freeze(self, s, ins):
        s.env[ins.d] = self.val(s, ins.ty, ins.a[0])
    def i_fence(self, s, ins): pass
    def i_asm(self, s, ins):
        h = self.hooks.get('asm')
        if h: return h(self, s, [], ins)
        raise Undecided('inline asm')
    def i_icmp(self, s, ins):
        ty = ins.ty
        a = self.val(s, ty, ins.a[0]); b = self.val(s, ty, ins.a[1])
        s.env[ins.d] = self.icmp(s, ins.x, ty, a, b)
    def icmp(self, s, pred, ty, a, b):
        if isinstance(ty, tuple) and ty[0] == 'v':
            w = ety(ty)
            if w == 1:
                raise Undecided('icmp i1 vec')
            return Vec([zdata(bvcmp(pred, x, y)) for x, y in zip(self.lanes(a, w, ty[1]), self.lanes(b, w, ty[1]))], 1)
        if ty == ('i', 1):
            if isinstance(a, z3.BitVecRef): a = zdata(a == 1)
            if isinstance(b, z3.BitVecRef): b = zdata(b == 1)
            eq = bor(band(a, b), band(bnot(a), bnot(b)))
            if pred == 'eq': return eq
            if pred == 'ne': return bnot(eq)
            raise Undecided('icmp i1 ' + pred)
        if isinstance(a, Undef) or isinstance(b, Undef): raise Undecided('icmp undef')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr): a = Ptr(None, self.toint(s, a, 64))
            if not isinstance(b, Ptr): b = Ptr(None, self.toint(s, b, 64))
            return self.ptrcmp(s, pred, a, b)
        if isinstance(a, tuple): a = self.boolint(s, a) if not isdata(a) else self.bv(a, ty[1])
        if isinstance(b, tuple): b = self.boolint(s, b) if not isdata(b) else self.bv(b, ty[1])
        if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
            w = ty[1]
            return zdata(bvcmp(pred, self.bv(a, w), self.bv(b, w)))
        return self.intcmp(s, pred, a, b, ty[1])
    def ptrcmp(self, s, pred, a, b):
        if a.b == b.b and a.b is not None or (a.b is None and b.b is None):
            return self.intcmp(s, pred, a.o, b.o, 64, True)
        if pred in ('eq', 'ne') and self.spec:
            r = self.spec.ptr_eq(self, s, a, b)
            if r is not None: return (r if pred == 'eq' else bnot(r))
        # different objects: order of addresses unknown
        return self.intcmp(s, pred, self.p2i(s, a), self.p2i(s, b), 64, True)
    def intcmp(self, s, pred, a, b, w, ptr=False):
        a = self.norm(s, a); b = self.norm(s, b)
        d = a - b
        if pred in ('eq', 'ne'):
            if d.isconst() and d.cval() != 0 and d.cval() % (1 << w) == 0: d = C0
            if len(d.m) == 1:
                (m_, v_), = d.m.items()
                if len(m_) == 1 and abs(v_) == 1 and m_[0] in self.orof:
                    x, y = self.orof[m_[0]]
                    r = band(ccmp('==', self.norm(s, x)), ccmp('==', self.norm(s, y)))
                    return r if pred == 'eq' else bnot(r)
            r = ccmp('==' if pred == 'eq' else '!=', d)
            if r[0] == 'c':
                # p = atom*q with a nonzero atom
                for at in list(d.atoms()):
                    q = d.divatom(at)
                    if q is not None and not q.isconst() and self.proves(s, ('c', '!=', Poly.atom(at))) is True:
                        r = ccmp(r[1], q); break
            return r
        if pred[0] == 'u' and not ptr:
            for x in (a, b):
                if x.isconst():
                    if x.cval() < 0:
                        y = Poly.const(x.cval() + (1 << w))
                        if x is a: a = y
                        else: b = y
                elif self.proves(s, ('c', '<=', -x)) is not True and self.proves(s, ('c', '<=', x + 1)) is not True:
                    raise Fork(ccmp('<=', -x)) if self.feasible(s, ccmp('<=', -x)) and self.canfork(x) else Undecided('unsigned compare of a possibly negative value')
            # provably negative: shift
            if not a.isconst() and self.proves(s, ('c', '<=', a + 1)) is True: a = a + (1 << w)
            if not b.isconst() and self.proves(s, ('c', '<=', b + 1)) is True: b = b + (1 << w)
        p = pred[1:]
        if p == 'lt': return ccmp('<=', a - b + 1)
        if p == 'le': return ccmp('<=', a - b)
        if p == 'gt': return ccmp('<=', b - a + 1)
        if p == 'ge': return ccmp('<=', b - a)
        raise Undecided('icmp ' + pred)
    def canfork(self, x): return True
    def i_fcmp(self, s, ins):
        from . import fp
        ty = ins.ty
        a = self.val(s, ty, ins.a[0]); b = self.val(s, ty, ins.a[1])
        if ty[0] == 'v':
            w = ety(ty)
            s.env[ins.d] = Vec([zdata(fp.fcmp(ins.x, x, y)) for x, y in zip(self.lanes(a, w, ty[1]), self.lanes(b, w, ty[1]))], 1)
        else:
            s.env[ins.d] = zdata(fp.fcmp(ins.x, self.bv(a, ty[1]), self.bv(b, ty[1])))
    def i_select(self, s, ins):
        ty = ins.ty
        c = self.val(s, ins.x, ins.a[0]); a = self.val(s, ty, ins.a[1]); b = self.val(s, ty, ins.a[2])
        if isinstance(ins.x, tuple) and ins.x[0] == 'v':
            w = ety(ty)
            if w == 1:
                s.env[ins.d] = Vec([bor(band(x, y), band(bnot(x), z)) for x, y, z in zip(c.l, a.l, b.l)], 1); return
            la = self.lanes(a, w, ty[1]); lb = self.lanes(b, w, ty[1])
            s.env[ins.d] = Vec([self.ite(x, y, z) for x, y, z in zip(c.l, la, lb)], w)
            return
        if isinstance(c, z3.BitVecRef): c = zdata(c == 1)
        if isinstance(c, Undef): raise Undecided('select undef')
        c = csubst(c, s.sub)
        if c[0] not in 'TF' and not isdata(c): c = self.resolve(s, c)
        if c[0] == 'T': s.env[ins.d] = a; return
        if c[0] == 'F': s.env[ins.d] = b; return
        if ty == ('i', 1):
            if isinstance(a, Undef): a = FALSE
            if isinstance(b, Undef): b = FALSE
            s.env[ins.d] = bor(band(c, a), band(bnot(c), b)); return
        if ty[0] in ('i', 'f') and isdata(c) and not (isinstance(a, Poly) and isinstance(b, Poly) and self.intselect(s, ins)):
            w = ty[1]
            s.env[ins.d] = self.ite(c, self.bv(a, w), self.bv(b, w)); return
        if ty[0] == 'v' and isdata(c):
            w = ety(ty)
            s.env[ins.d] = Vec([self.ite(c, x, y) for x, y in zip(self.lanes(a, w, ty[1]), self.lanes(b, w, ty[1]))], w); return
        raise Fork(c)
    def intselect(self, s, ins): return False
    def ite(self, c, a, b):
        if c[0] == 'T': return a
        if c[0] == 'F': return b
        if a.eq(b): return a
        r = z3.If(bz(c), a, b)
        if self.ite_hook: return self.ite_hook(r)
        return r
    # --- integer arithmetic
    def binop(self, s, ins):
        ty = ins.ty
        a = self.val(s, ty, ins.a[0]); b = self.val(s, ty, ins.a[1])
        op = ins.op
        if ty[0] == 'v':
            return self.vecbin(s, op, ty, a, b)
        if ty[0] == 'f':
            from . import fp
            return fp.arith(op, self.bv(a, ty[1]), self.bv(b, ty[1]))
        w = ty[1]
        if w == 1:
            if isinstance(a, Undef): a = FALSE
            if isinstance(b, Undef): b = FALSE
            if op == 'and': return band(a, b)
            if op == 'or': return bor(a, b)
            if op == 'xor': return bor(band(a, bnot(b)), band(bnot(a), b))
            raise Undecided('i1 ' + op)
        if isinstance(a, Ptr): a = self.p2i(s, a)
        if isinstance(b, Ptr): b = self.p2i(s, b)
        if isinstance(a, tuple) : a = self.bv(a, w) if isdata(a) else self.boolint(s, a)
        if isinstance(b, tuple) : b = self.bv(b, w) if isdata(b) else self.boolint(s, b)
        if isinstance(a, Poly) and isinstance(b, Poly):
            return self.intbin(s, op, w, a, b, ins)
        return self.bvbin(op, self.bv(a, w), self.bv(b, w))
    def bvbin(self, op, a, b):
        return bvop(op, a, b)
    def vecbin(self, s, op, ty, a, b):
        n = ty[1]; w = ety(ty)
        if ty[2] == ('i', 1):
            f = {'and': band, 'or': bor, 'xor': lambda x, y: bor(band(x, bnot(y)), band(bnot(x), y))}[op]
            return Vec([f(x, y) for x, y in zip(a.l, b.l)], 1)
        if op in ('and', 'or', 'xor') and isinstance(a, Vec) and isinstance(b, Vec) and 1 not in (a.w, b.w):
            w2 = min(a.w, b.w)
            tot = w*n
            la = self.lanes(a, w2, tot//w2); lb = self.lanes(b, w2, tot//w2)
            return Vec([bvop(op, x, y) for x, y in zip(la, lb)], w2)
        la = self.lanes(a, w, n); lb = self.lanes(b, w, n)
        if ty[2][0] == 'f':
            from . import fp
            return Vec([fp.arith(op, x, y) for x, y in zip(la, lb)], w)
        return Vec([bvop(op, x, y) for x, y in zip(la, lb)], w)
    def nonneg(self, s, p):
        p = self.norm(s, p)
        if p.isconst(): return p.cval() >= 0
        return self.proves(s, ('c', '<=', -p)) is True
    def intbin(self, s, op, w, a, b, ins=None):
        a = self.norm(s, a); b = self.norm(s, b)
        if a.isconst() and b.isconst():
            r = z3.simplify(bvop(op, z3.BitVecVal(a.cval(), w), z3.BitVecVal(b.cval(), w)))
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b.cval() == 0: raise Undecided('div by 0')
            return Poly.const(r.as_signed_long())
        if op == 'add': return self.wrap(s, a + b, w)
        if op == 'sub': return self.wrap(s, a - b, w)
        if op == 'mul': return self.wrap(s, a * b, w)
        if op == 'shl' and b.isconst(): return self.wrap(s, a * (1 << b.cval()), w)
        if op in ('lshr', 'ashr') and b.isconst():
            if op == 'lshr' and not self.nonneg(s, a):
                if self.proves(s, ('c', '<=', a + 1)) is True: a = a + (1 << w)
                else: raise Fork(ccmp('<=', -a))
            return self.div(s, a, 1 << b.cval())
        if op in ('udiv', 'sdiv', 'urem', 'srem') and b.isconst() and b.cval() > 0:
            c = b.cval()
            if not self.nonneg(s, a):
                if self.proves(s, ('c', '<=', a + 1)) is True:
                    if op[0] == 'u': a = a + (1 << w)
                    else:
                        q = -self.div(s, -a, c)
                        return q if op == 'sdiv' else a - q*c
                else: raise Fork(ccmp('<=', -a))
            return self.div(s, a, c) if op.endswith('div') else self.rem(s, a, c)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            return self.divsym(s, op, w, a, b)
        if op == 'and':
            if a.isconst(): a, b = b, a
            if b.isconst():
                c = b.cval() & ((1 << w)-1)
                return self.andmask(s, a, c, w)
        if op == 'or':
            if ins is not None and 'disjoint' in ins.x: return a + b
            if b.isconst() and b.cval() > 0:
                c = b.cval()
                return a + c - self.andmask(s, a, c, w)
        if op == 'xor' and b.isconst():
            if b.cval() == -1: return -a - 1
        return self.opaqueint(s, op, w, a, b)
    def divsym(self, s, op, w, a, b):
        if not (self.nonneg(s, a) and self.proves(s, ('c', '<=', Poly.const(1) - b)) is True):
            raise Undecided('division by a symbolic value')
        n = 'sdiv(%r,%r)' % (a, b)
        q = Poly.atom(n)
        if n not in self.ax:
            e = b*q
            self.ax[n] = ([e.z() <= a.z(), a.z() < e.z() + b.z(), z3.Int(n) >= 0, z3.Int(n) <= a.z()], (a.atoms() | b.atoms()))
            if a.isconst(): self.ax[n][0].extend(z3.Implies(z3.Int(n) >= m, m*b.z() <= a.z()) for m in (1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65))
        return q if op.endswith('div') else a - b*q
    def opaqueint(self, s, op, w, a, b):
        n = '%s%d(%r,%r)' % (op, w, a, b)
        if n not in self.ax:
            self.ax[n] = ([], set())
            if op == 'or':
                self.orof[n] = (a, b)
                z = z3.Int(n)
                self.ax[n] = ([(z == 0) == z3.And(a.z() == 0, b.z() == 0), z3.Implies(z3.And(a.z() >= 0, b.z() >= 0), z3.And(z >= a.z(), z >= b.z(), z <= a.z() + b.z())), z3.Implies(z3.Or(a.z() < 0, b.z() < 0), z < 0)], a.atoms() | b.atoms())
            if op == 'and':
                z = z3.Int(n)
                self.ax[n] = ([z3.Implies(z3.And(a.z() >= 0, b.z() >= 0), z3.And(z >= 0, z <= a.z(), z <= b.z())), z3.Implies(z3.Or(a.z() == 0, b.z() == 0), z == 0)], a.atoms() | b.atoms())
        return Poly.atom(n)
    def andmask(self, s, a, c, w):
        if c == 0: return C0
        # single run of ones [lo,hi)
        lo = (c & -c).bit_length()-1
        r = c >> lo
        if r & (r+1) == 0:
            hi = lo + r.bit_length()
            if hi == w:
                top = a if self.nonneg(s, a) else a          # keep sign: two's complement
                return a - self.rem(s, a, 1 << lo) if lo else a
            if hi == w-1 and self.nonneg(s, a):
                return a - self.rem(s, a, 1 << lo) if lo else a
            x = self.rem(s, a, 1 << hi)
            return x - self.rem(s, a, 1 << lo) if lo else x
        return self.opaqueint(s, 'and', w, a, Poly.const(c))
    def wrap(self, s, p, w):
        if w >= 64: return p
        if p.isconst():
            v = p.cval() & ((1 << w)-1)
            return Poly.const(v - (1 << w) if v >> (w-1) else v)
        return self.narrow(s, p, w)
    def narrow(self, s, p, w):
        """p as a signed w-bit integer: p itself when it provably fits"""
        p = self.norm(s, p)
        if p.isconst(): return self.wrap(s, p, w)
        if self.proves(s, ccmp('<=', p - ((1 << (w-1)) - 1))) is True and self.proves(s, ccmp('<=', -p - (1 << (w-1)))) is True:
            return p
        # wraps: signed remainder
        n = 'wrap%d(%r)' % (w, p)
        self.wrapof[n] = (w, p)
        if n not in self.ax:
            z = z3.Int(n); q = z3.Int('q.' + n)
            self.ax[n] = ([z == p.z() - q*(1 << w), z >= -(1 << (w-1)), z < (1 << (w-1))], p.atoms())
        return Poly.atom(n)
    # --- casts
    def i_trunc(self, s, ins): self.cast(s, ins)
    def cast(self, s, ins):
        ty = ins.ty; fr = ins.x; op = ins.op
        v = self.val(s, fr, ins.a[0])
        s.env[ins.d] = self.castv(s, op, fr, ty, v)
    i_zext = i_sext = i_fptrunc = i_fpext = i_fptosi = i_fptoui = i_sitofp = i_uitofp = i_ptrtoint = i_inttoptr = i_bitcast = i_trunc
    def castv(self, s, op, fr, ty, v):
        if isinstance(v, Undef): return Undef(ty)
        if op == 'bitcast':
            return self.bitcast(s, fr, ty, v)
        if op == 'ptrtoint': return self.p2i(s, v)
        if op == 'inttoptr':
            if isinstance(v, Poly):
                for m, c in v.m.items():
                    if c == 1 and len(m) == 1 and m[0].startswith('addr('):
                        return Ptr(m[0][5:-1], v - Poly.atom(m[0]))
                return Ptr(None, v)
            if isinstance(v, Ptr): return v
            return Ptr(None, self.toint(s, v, 64))
        vec = ty[0] == 'v'
        if vec:
            n = ty[1]; wf = ety(fr); wt = ety(ty)
            if wf == 1:
                t = z3.BitVecVal((1 << wt)-1 if op == 'sext' else 1, wt); z = z3.BitVecVal(0, wt)
                return Vec([self.ite(c, t, z) if not isinstance(c, z3.BitVecRef) else (z3.SignExt if op == 'sext' else z3.ZeroExt)(wt-1, c) for c in v.l], wt)
            if wt == 1:
                return Vec([zdata(z3.Extract(0, 0, x) == 1) for x in self.lanes(v, wf, n)], 1)
            return Vec([self.cast1(op, x, wf, wt) for x in self.lanes(v, wf, n)], wt)
        wt = ty[1]; wf = fr[1]
        if op in ('fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp'):
            if wf == 1 and op == 'uitofp':
                v = self.bv(v, 8); wf = 8
            return self.cast1(op, self.bv(v, wf), wf, wt)
        if wf == 1:
            c = self.resolve(s, v)
            if op == 'zext' and c[0] in 'TF': return Poly.const(1 if c[0] == 'T' else 0)
            if op == 'sext' and c[0] in 'TF': return Poly.const(-1 if c[0] == 'T' else 0)
            if isdata(c):
                return self.ite(c, z3.BitVecVal(1 if op == 'zext' else (1 << wt)-1, wt), z3.BitVecVal(0, wt))
            raise Fork(c)
        if isinstance(v, Poly):
            if op == 'trunc':
                if wt == 1:
                    return ccmp('!=', self.rem(s, v, 2))
                return self.narrow(s, v, wt)
            if op == 'sext': return v
            if op == 'zext':
                if self.nonneg(s, v): return v
                if self.proves(s, ('c', '<=', v + 1)) is True: return v + (1 << wf)
                raise Fork(ccmp('<=', -v))
        if op == 'trunc' and wt == 1: return zdata(z3.Extract(0, 0, v) == 1)
        return self.cast1(op, self.bv(v, wf), wf, wt)
    def cast1(self, op, x, wf, wt):
        if op == 'trunc': return ext(x, wt-1, 0)
        if op == 'zext': return z3.ZeroExt(wt-wf, x)
        if op == 'sext': return z3.SignExt(wt-wf, x)
        from . import fp
        return fp.conv(op, x, wt)
    def bitcast(self, s, fr, ty, v):
        if isinstance(v, (Ptr,)): return v
        if isinstance(fr, tuple) and fr[0] == 'v' and fr[2] == ('i', 1):
            if ty[0] == 'i':
                # movemask style: bit i = lane i
                bits = [z3.If(bz(c), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for c in v.l]
                return z3.Concat(*bits[::-1]) if len(bits) > 1 else bits[0]
            raise Undecided('bitcast i1 vector')
        if ty[0] == 'v':
            if isinstance(v, Vec): return v
            if ty[2] == ('i', 1):
                x = self.bv(v, fr[1])
                return Vec([zdata(z3.Extract(i, i, x) == 1) for i in range(ty[1])], 1)
            w = ety(ty)
            return Vec(split(self.bv(v, fr[1]), w), w)
        if isinstance(v, Vec): return cat(v.l)
        if isinstance(v, Poly) and ty[0] == 'f': return self.bv(v, ty[1])
        return v
    def i_fneg(self, s, ins):
        ty = ins.ty
        v = self.val(s, ty, ins.a[0])
        if ty[0] == 'v':
            w = ety(ty)
            s.env[ins.d] = Vec([x ^ z3.BitVecVal(1 << (w-1), w) for x in self.lanes(v, w, ty[1])], w)
        else:
            w = ty[1]
            s.env[ins.d] = self.bv(v, w) ^ z3.BitVecVal(1 << (w-1), w)
    # --- vectors
    def i_insertelement(self, s, ins):
        ty = ins.ty; w = ety(ty)
        v = self.val(s, ty, ins.a[0]); e = self.val(s, ty[2], ins.a[1]); i = self.val(s, ('i', 64), ins.a[2])
        if not i.isconst(): raise Undecided('insertelement index')
        if w == 1:
            l = list(v.l) if isinstance(v, Vec) else [FALSE]*ty[1]
            l[i.cval()] = e
            s.env[ins.d] = Vec(l, 1); return
        if isinstance(v, Undef): l = [z3.BitVec('undef', w)]*ty[1]
        else: l = list(self.lanes(v, w, ty[1]))
        l[i.cval()] = self.bv(e if not isinstance(e, Ptr) else self.p2i(s, e), w)
        s.env[ins.d] = Vec(l, w)
    def i_extractelement(self, s, ins):
        ty = ins.ty; w = ety(ty)
        v = self.val(s, ty, ins.a[0]); i = self.val(s, ('i', 64), ins.a[1])
        if not i.isconst(): raise Undecided('extractelement index')
        if w == 1: s.env[ins.d] = v.l[i.cval()]; return
        s.env[ins.d] = self.lanes(v, w, ty[1])[i.cval()]
    def i_shufflevector(self, s, ins):
        ty = ins.ty; w = ety(ty)
        a = self.val(s, ty, ins.a[0]); b = self.val(s, ty, ins.a[1])
        mt = ins.x; mk = ins.a[2]
        n = mt[1]
        if mk[0] == 'zero': idx = [0]*n
        elif mk[0] == 'undef': idx = [None]*n
        else: idx = [None if x[0] == 'undef' else x[1] for _, x in mk[1]]
        if w == 1:
            la = a.l if isinstance(a, Vec) else [FALSE]*ty[1]; lb = b.l if isinstance(b, Vec) else [FALSE]*ty[1]
            both = list(la) + list(lb)
            s.env[ins.d] = Vec([FALSE if i is None else both[i] for i in idx], 1); return
        # keep fine granularity
        wa = a.w if isinstance(a, Vec) else w
        wb = b.w if isinstance(b, Vec) else w
        fine = min(wa, wb, w)
        k = w//fine
        la = self.lanes(a, fine, ty[1]*k) if isinstance(a, Vec) else [None]*(ty[1]*k)
        lb = self.lanes(b, fine, ty[1]*k) if isinstance(b, Vec) else [None]*(ty[1]*k)
        both = list(la) + list(lb)
        out = []
        for i in idx:
            for j in range(k):
                x = None if i is None else both[i*k+j]
                out.append(z3.BitVec('undef', fine) if x is None else x)
        s.env[ins.d] = Vec(out, fine)
    def i_extractvalue(self, s, ins):
        v = self.val(s, ins.ty, ins.a[0])
        for i in ins.x: v = v.f[i]
        s.env[ins.d] = v
    def i_insertvalue(self, s, ins):
        v = self.val(s, ins.ty, ins.a[0])
        e = self.val(s, ins.x[1], ins.a[1])
        f = list(v.f) if isinstance(v, Agg) else [Undef()]*len(ins.ty[1])
        if len(ins.x[0]) != 1: raise Undecided('insertvalue')
        f[ins.x[0][0]] = e
        s.env[ins.d] = Agg(f)
    def i_atomicrmw(self, s, ins):
        h = self.hooks.get('atomicrmw')
        if h: return h(self, s, ins)
        raise Undecided('atomicrmw')
    def i_cmpxchg(self, s, ins):
        h = self.hooks.get('cmpxchg')
        if h: return h(self, s, ins)
        raise Undecided('cmpxchg')
    def i_call(self, s, ins):
        return self.docall(s, ins)
    def docall(self, s, ins):
        callee = ins.x[0]
        if callee[0] == 'g': name = callee[1]
        else:
            f = self.val(s, 'ptr', callee)
            if isinstance(f, Ptr) and f.b and f.b.startswith('@') and f.o == C0: name = f.b[1:]
            else:
                h = self.hooks.get('indirect')
                if h: return h(self, s, f, [(t, self.val(s, t, v)) for t, v in ins.a], ins)
                raise Undecided('indirect call')
        args = [(t, self.val(s, t, v)) for t, v in ins.a if t != 'metadata']
        h = self.hooks.get(name)
        if h:
            r = h(self, s, [a for _, a in args], ins)
            if isinstance(r, list): return r
            if ins.d is not None: s.env[ins.d] = r
            if ins.op == 'invoke': return [(s, r)]
            return None
        if name.startswith('llvm.'):
            from . import intrin
            r = intrin.call(self, s, name, args, ins)
            if ins.d is not None: s.env[ins.d] = r
            return None
        from . import fp
        if fp.purecall(name):
            r = fp.extern(name, [self.bv(a, t[1]) for t, a in args], ins.ty[1])
            if ins.d is not None: s.env[ins.d] = r
            return None
        if s.mod.func(name) is not None and self.inline_ok(name):
            return self.call(s, name, [a for _, a in args])
        for m in self.mods:
            if m.func(name) is not None and self.inline_ok(name):
                return self.call(s, name, [a for _, a in args], m)
        raise Undecided('call to ' + name)

BINI = ir.BIN
def ety(t):
    e = t[2]
    return 64 if e == 'ptr' else e[1]
def flat(c):
    if c[0] in ('and', 'or'): return flat(c[1]) + flat(c[2])
    if c[0] == 'not': return flat(c[1])
    return [c]
def bvcmp(p, a, b):
    if p == 'eq': return a == b
    if p == 'ne': return a != b
    return {'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b,
            'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[p]()
def bvop(op, a, b):
    if op == 'add': return a + b
    if op == 'sub': return a - b
    if op == 'mul': return a * b
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'shl': return a << b
    if op == 'lshr': return z3.LShR(a, b)
    if op == 'ashr': return a >> b
    if op == 'sdiv': return a / b
    if op == 'udiv': return z3.UDiv(a, b)
    if op == 'srem': return z3.SRem(a, b)
    if op == 'urem': return z3.URem(a, b)
    raise Undecided('bv ' + op)
def ext(x, hi, lo):
    if lo == 0 and hi == x.size()-1: return x
    d = x.decl().kind()
    if d == z3.Z3_OP_CONCAT:
        pos = x.size()
        for c in x.children():
            pos -= c.size()
            if pos <= lo and hi < pos + c.size():
                return ext(c, hi-pos, lo-pos)
    return z3.Extract(hi, lo, x)
def split(x, w):
    return [ext(x, i*w+w-1, i*w) for i in range(x.size()//w)]
def cat(l):
    """little endian pieces -> one bit-vector"""
    if len(l) == 1: return l[0]
    # adjacent extracts of the same term
    x = l[0]
    if x.decl().kind() == z3.Z3_OP_EXTRACT:
        base = x.arg(0); w = x.size()
        if base.size() == w*len(l) and all(y.decl().kind() == z3.Z3_OP_EXTRACT and y.arg(0).eq(base) and y.params() == [i*w+w-1, i*w] for i, y in enumerate(l)):
            return base
    return z3.Concat(*l[::-1])

class Cells:
    """small fixed-size memory: byte offset -> (size, value)"""
    def __init__(self, name, size, cells=None):
        self.name = name; self.size = size; self.c = cells or {}
    def load(self, ex, st, off, ty, x):
        if not off.isconst():
            if ex.dry and isinstance(ty, tuple) and ty[0] in ('i', 'f', 'v') and ty != ('i', 1):
                return ex.frombits(z3.BitVec(ex.fresh('cell'), ir.size(ty)*8), ty)
            raise Undecided('symbolic offset into ' + self.name)
        o = off.cval(); n = ir.size(ty)
        c = self.c.get(o)
        if c and c[0] == n: return ex.retype(st, c[1], c[2], ty)
        # sub-piece of a wider cell, or several cells
        parts = []; p = o
        while p < o + n:
            hit = None
            for k, (m, v, t) in self.c.items():
                if k <= p < k + m: hit = (k, m, v, t); break
            if hit is None:
                return self.missing(ex, st, o, ty)
            k, m, v, t = hit
            b = ex.tobits(st, v, t)
            e = min(k + m, o + n)
            parts.append(ext(b, (e-k)*8-1, (p-k)*8))
            p = e
        return ex.frombits(cat(parts), ty)
    def missing(self, ex, st, o, ty):
        return Undef(ty)
    def store(self, ex, st, off, ty, v, x):
        if not off.isconst():
            if ex.dry:
                st.mem[self.name] = type(self)(self.name, self.size, {}) if type(self) is Cells else self.clone({})
                return
            raise Undecided('symbolic offset into ' + self.name)
        o = off.cval(); n = ir.size(ty)
        if o < 0 or (self.size is not None and o + n > self.size):
            ex.oblige('bounds', False, 'store outside %s' % self.name)
            return
        c = {}
        for k, (m, w, t) in self.c.items():
            if k + m <= o or k >= o + n: c[k] = (m, w, t)
            elif k < o or k + m > o + n:
                b = ex.tobits(st, w, t)
                if k < o: c[k] = (o-k, ext(b, (o-k)*8-1, 0), ('i', (o-k)*8))
                if k + m > o + n: c[o+n] = (k+m-o-n, ext(b, m*8-1, (o+n-k)*8), ('i', (k+m-o-n)*8))
        c[o] = (n, v, ty)
        st.mem[self.name] = type(self)(self.name, self.size, c) if type(self) is Cells else self.clone(c)
    def clone(self, c):
        r = object.__new__(type(self)); r.__dict__.update(self.__dict__); r.c = c
        return r

def _retype(self, st, v, t, ty):
    if t == ty: return v
    if isinstance(v, (Ptr, Undef)): return v
    if ty == 'ptr' and isinstance(v, Poly) and v.isconst() and v.cval() == 0: return Ptr(None, C0)
    if isinstance(v, Poly) and ty[0] == 'i': return v
    if isinstance(v, tuple) and ty == ('i', 8): return v
    return self.frombits(self.tobits(st, v, t), ty)
def _tobits(self, st, v, t):
    if isinstance(v, Vec):
        if v.w == 1: raise Undecided('bits of i1 vector')
        return cat(v.l)
    if isinstance(v, Ptr): raise Undecided('bits of pointer')
    return self.bv(v, (t[1] + 7)//8*8 if t[0] == 'i' and t[1] > 64 else ir.size(t)*8)
def _frombits(self, b, ty):
    if isinstance(ty, tuple) and ty[0] == 'v':
        w = ety(ty); return Vec(split(b, w), w)
    if isinstance(ty, tuple) and ty[0] == 'i' and z3.is_bv_value(z3.simplify(b)):
        return Poly.const(z3.simplify(b).as_signed_long())
    if ty == 'ptr': raise Undecided('pointer from bits')
    return b
Ex.retype = _retype; Ex.tobits = _tobits; Ex.frombits = _frombits
