"""Contract of the reduction kernels  f(in, out, start, n, stride):
  requires n>=1; in addressable at base+i*stride, i<n; out and start each one element, out == start or disjoint; in disjoint from both
  ensures  out == fold of op over { start, in[0], ..., in[n-1] }, each exactly once (at least once where op is idempotent);
           nothing else written, nothing read outside in[0..n-1]
Ghost state: for every accumulator (lane of a loop carried register) the multiset of terms it holds:
  single elements and arithmetic progressions of elements.  Every arithmetic step is proved to be op by z3."""
import z3
from .poly import Poly
from . import fp, ir, specs, bvpoly
from .kern import *
from .ex import Ex, State, Ptr, Vec, Undef, Undecided, Cells, C0, ccmp, csubst, cat, split, ext

IDEMP = {'minimum', 'maximum'}

class RSpec(Base):
    inplace_checked = False
    def __init__(self, name, t, startalias):
        self.name = name; self.t = t; self.alias = startalias
        self.fn, self.ot, _ = specs.binary(name, t)
        self.idem = name in IDEMP or t == BOOL
        self.n = Poly.atom('n'); self.s = Poly.atom('s1')
        self.el = {}; self.acc = {}; self.memo = {}; self.keep = []
        self.stack = []
        self.fold = {}; self.can = {}
    def isint(self, arr, ty): return False
    def setup(self, ex, f):
        st = State()
        st.env = {}; st.fn = f; st.mod = ex.mods[0]; st.prev = None; st.ip = 0; st.facts = []; st.data = []; st.sub = {}
        st.mem = {}; st.g = {}; st.trace = None; st.frame = f.name; st.blk = f.order[0]
        es = SIZE[self.t]
        self.es = es
        self.ex = ex
        self.A = Arr(self, 'A', es, [self.s], False, 'A')
        st.mem['A'] = self.A
        ety_ = ('f', es*8) if self.t in ISF else ('i', es*8)
        self.S = z3.BitVec('S', es*8)
        sn = 'C' if self.alias else 'S'
        st.mem[sn] = Cells(sn, es, {0: (es, self.S, ety_)})
        if not self.alias: st.mem['C'] = Cells('C', es)
        for nm in ('A', 'C', 'S'):
            ad = ex.addr(nm); z = z3.Int(ad)
            ex.ax[ad] = ([z == es*z3.Int('q.' + ad), z > 0], set())
        args = [Ptr('A', C0), Ptr('C', C0), Ptr(sn, C0), self.n, self.s]
        if len(f.params) != len(args): raise Undecided('kernel signature')
        for (t, pn), v in zip(f.params, args): st.env[pn] = v
        st.facts.append(ccmp('<=', Poly.const(1) - self.n))
        ex.params = frozenset(['n', 's1'])
        if self.t not in ISF: ex.lanew = es*8
        self.ety = ety_
        return st
    def elem(self, arr, ex, st, off):
        off = ex.norm(st, off)
        nm = 'A[%r]' % (off,)
        if nm not in self.el: self.el[nm] = off
        return z3.BitVec(nm, arr.es*8)
    # ---------------- decomposition
    def leafkind(self, e):
        """e as a leaf: ('el', off) / ('start',) / ('acc', name) or None"""
        if self.t in ISF and z3.is_app(e) and e.num_args() == 1 and e.decl().name().startswith('fpext'):
            return self.leafkind(e.arg(0))
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
            if n in self.el: return ('el', self.el[n])
            if n == 'S': return ('start',)
            if n in self.acc: return ('acc', n)
        return None
    def cuts(self, e):
        """maximal proper subterms of the element width (for 64 bit products: below masks and shifts)"""
        w = e.size(); out = []; seen = set()
        mul64 = self.name == 'multiply' and w == 64 and self.t not in ISF
        def go(x, top):
            if x.get_id() in seen: return
            seen.add(x.get_id())
            if z3.is_bv(x) and x.size() == w and not top and not z3.is_bv_value(x):
                if not mul64 or (z3.is_const(x)): out.append(x); return
            for y in x.children(): go(y, False)
        def gom(x):
            # u64 product: sources are what is masked or shifted
            if x.get_id() in seen: return
            seen.add(x.get_id())
            d = x.decl().kind()
            if z3.is_const(x):
                if not z3.is_bv_value(x): out.append(x)
                return
            c = x.children()
            if d == z3.Z3_OP_BLSHR or (d == z3.Z3_OP_BAND and any(z3.is_bv_value(y) for y in c)):
                y = [y for y in c if not z3.is_bv_value(y)][0]
                out.append(y) if all(not y.eq(o) for o in out) else None
                return
            if d == z3.Z3_OP_EXTRACT:
                y = x.arg(0)
                if y.size() == 64: out.append(y) if all(not y.eq(o) for o in out) else None
                return
            for y in c: gom(y)
        if mul64:
            if e.decl().kind() == z3.Z3_OP_BMUL and len(e.children()) == 2 and not any(y.decl().kind() in (z3.Z3_OP_BLSHR, z3.Z3_OP_BAND, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_CONCAT) for y in e.children()):
                return [y for y in e.children()]
            gom(e)
        else: go(e, True)
        r = []
        for o in out:
            if all(not o.eq(q) for q in r): r.append(o)
        return r
    def step(self, e, cs):
        """e == op over cs, cs abstracted"""
        if len(cs) > 8: return None
        w = e.size()
        xs = [z3.BitVec('x%d' % i, w) for i in range(len(cs))]
        a = z3.substitute(e, *list(zip(cs, xs)))
        want = xs[0]
        for x in xs[1:]: want = self.fn(want, x)
        key = z3.simplify(a).sexpr() + '|' + str(len(cs))
        if key in self.fold: return self.fold[key]
        pre = [z3.ULE(x, 1) for x in xs] if self.t == BOOL else []
        if self.name == 'multiply' and w == 64 and self.t not in ISF and bvpoly.equal(a, want): r = True
        else:
            s = z3.Solver(); s.set('timeout', 20000)
            s.add(*pre); s.add(a != want)
            c = s.check()
            r = True if c == z3.unsat else False if c == z3.sat else None
        self.fold[key] = r
        return r
    def canon(self, e):
        """If(Not(c), a, b) -> If(c, b, a) everywhere, so that equal selections are the same term"""
        k = e.get_id()
        if k in self.can: return self.can[k][1]
        if e.num_args() == 0: r = e
        else:
            ch = e.children()
            nc = [self.canon(c) for c in ch]
            if e.decl().kind() == z3.Z3_OP_ITE and nc[0].decl().kind() == z3.Z3_OP_NOT:
                r = self.canon(z3.If(nc[0].arg(0), nc[2], nc[1]))
            elif all(a is b for a, b in zip(ch, nc)): r = e
            elif any(not a.eq(b) for a, b in zip(ch, nc)): r = e.decl()(*nc)
            else: r = e
        self.can[k] = (e, r)
        return r
    def decompose(self, e):
        """list of leaves (with multiplicity), or (None, why)"""
        if self.t not in ISF: e = self.canon(e)
        k = e.get_id()
        if k in self.memo: return self.memo[k]
        self.keep.append(e)
        lk = self.leafkind(e)
        if lk: r = ([lk], None)
        elif z3.is_bv_value(e): r = (None, 'constant %s in the result' % e)
        elif self.t in ISF:
            nm = e.decl().name()
            want = {'add': 'fadd', 'multiply': 'fmul'}.get(self.name)
            if want and nm in (want + '64', want + '32') and e.num_args() == 2: r = self.join([e.arg(0), e.arg(1)])
            else: r = (None, 'term %s' % str(e)[:200])
        elif self.name == 'add' and e.decl().kind() == z3.Z3_OP_BMUL and e.num_args() == 2 and self.times(e) is not None:
            leaf, cnt = self.times(e)
            d, why = self.decompose(leaf)
            if d == [x for x in (d or []) if x[0] == 'el'] and d: r = ([('ap', x[1], C0, cnt) for x in d], None)
            else: r = (None, 'multiple of %s' % (d,))
        else:
            cs = self.cuts(e)
            ok = self.step(e, cs) if cs else None
            if ok: r = self.join(cs)
            else: r = (None if ok is None else False, 'step is not %s: %s' % (self.name, str(z3.simplify(e))[:300]))
        self.memo[k] = r
        return r
    def times(self, e):
        """e = leaf * int2bv(count): (leaf, count) -- the sum of count copies of the leaf (mod 2**w)"""
        for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
            if z3.is_const(b) and b.decl().name() in self.ex.i2b:
                p = self.ex.i2b[b.decl().name()]
                while len(p.atoms()) == 1 and p == Poly.atom(list(p.atoms())[0]) and list(p.atoms())[0] in self.ex.wrapof and self.ex.wrapof[list(p.atoms())[0]][0] >= e.size():
                    p = self.ex.wrapof[list(p.atoms())[0]][1]
                return a, p
        return None
    def join(self, cs):
        out = []
        for c in cs:
            l, why = self.decompose(c)
            if not isinstance(l, list): return (l, why)
            out = out + l
        return (out, None)
    # ---------------- loops
    def lanes(self, ex, v, ty):
        if isinstance(v, Vec):
            w = self.accw(v)
            tot = v.w*len(v.l)
            return ex.lanes(v, w, tot//w)
        if isinstance(v, z3.BitVecRef): return [v]
        return None
    def accw(self, v):
        if self.t in ISF: return v.w
        return self.es*8
    def loop_start(self, ex, h, s, phis, init, steps, k, T):
        rec = {}
        for i in phis:
            if i.d in steps: continue
            hv = h.env[i.d]
            if isinstance(hv, z3.BitVecRef) or isinstance(hv, Vec):
                L = self.lanes(ex, hv, i.ty); I = self.lanes(ex, init[i.d], i.ty)
                if L is None or I is None or len(L) != len(I): continue
                rec[i.d] = (L, I)
                for l, i0 in zip(L, I):
                    if z3.is_const(l): self.acc[l.decl().name()] = None
        self.stack.append(rec)
        self.memo = {}
    def loop_back(self, ex, t, k, T, s, phis, init, steps, H):
        rec = self.stack[-1]
        (ka,) = list(k.atoms())
        for i in phis:
            if i.d not in rec: continue
            nv = self.lanes(ex, ex.phiback(t, i, H), i.ty)
            L, I = rec[i.d]
            for l, i0, e in zip(L, I, nv):
                d, why = self.decompose(e)
                if not isinstance(d, list):
                    ex.oblige('fold', d, 'accumulator step: %s' % why); self.acc[l.decl().name()] = ('bad',); continue
                own = [x for x in d if x == ('acc', l.decl().name())]
                oth = [x for x in d if x != ('acc', l.decl().name())]
                if len(own) != 1 and not (self.idem and own):
                    ex.oblige('fold', False, 'accumulator is combined %d times with itself' % len(own)); self.acc[l.decl().name()] = ('bad',); continue
                aps = []; ok = True
                for x in oth:
                    if x[0] != 'el': ok = False; break
                    off = x[1]
                    o0 = ex.norm(s, off.subst({ka: C0})); st_ = ex.norm(s, off.subst({ka: k + 1}) - off)
                    if ka in st_.atoms() or any(a.startswith(('k.', 'phi.')) and a not in ex.loopatoms for a in o0.atoms()): ok = False; break
                    aps.append((o0, st_))
                if not ok:
                    ex.oblige('fold', None, 'accumulator step mixes %s' % (oth[:3],)); self.acc[l.decl().name()] = ('bad',); continue
                ex.oblige('fold', True, '')
                rec_ = (i0, aps, k)
                old = self.acc[l.decl().name()]
                if old is not None and (len(old) != 3 or old[1] != aps): ex.oblige('fold', None, 'paths of the loop add different elements'); self.acc[l.decl().name()] = ('bad',)
                else: self.acc[l.decl().name()] = rec_
    def loop_exit(self, *a): pass
    def expand(self, leaves):
        """items: ('start',) ('el', off) ('ap', off0, step, count)"""
        out = []
        for x in leaves:
            if x[0] != 'acc': out.append(x); continue
            c = self.acc.get(x[1])
            if not c or len(c) != 3: return None, 'accumulator %s' % x[1]
            i0, aps, k = c
            d, why = self.decompose(i0)
            if not isinstance(d, list): return d, why
            sub, why = self.expand(d)
            if not isinstance(sub, list): return sub, why
            out += sub
            out += [('ap', a, b, k) for a, b in aps]
        return out, None
    def finish(self, ex, outs):
        n = 0
        for kind, t, v in outs:
            if kind != 'ret': continue
            n += 1
            self.memo = {}
            c = t.mem['C'].c.get(0)
            if c is None or c[0] != self.es or (self.alias and c[1] is self.S):
                ex.oblige('fold', False, 'no result stored'); continue
            e = c[1]
            if isinstance(e, Poly) or not isinstance(e, z3.BitVecRef): ex.oblige('fold', False, 'result %r' % (e,)); continue
            if self.t in ISF and z3.is_app(e) and e.num_args() == 1 and e.decl().name().startswith('fptrunc'): e = e.arg(0)
            d, why = self.decompose(e)
            if not isinstance(d, list): ex.oblige('fold', d, 'result: %s' % why); continue
            items, why = self.expand(d)
            if not isinstance(items, list): ex.oblige('fold', items, 'result: %s' % why); continue
            self.cover(ex, t, items)
        ex.oblige('reach', True if n else False, 'the kernel returns under its precondition')
    def cover(self, ex, t, items):
        st = [x for x in items if x[0] == 'start']
        ex.oblige('start', True if len(st) == 1 or (self.idem and st) else False, 'start value combined %d times' % len(st))
        s = ex.norm(t, self.s); n = ex.norm(t, self.n)
        if s.m == {}:
            cnt = Poly.const(0)
            for x in items:
                if x[0] == 'el': cnt = cnt + 1
                elif x[0] == 'ap': cnt = cnt + x[3]
            cnt = ex.norm(t, cnt)
            if self.idem: ok = ex.proves(t, ccmp('<=', Poly.const(1) - cnt))
            else: ok = ex.proves(t, ccmp('==', cnt - n))
            ex.oblige('cover', ok, 'the broadcast element is combined %s times, n=%s' % (cnt, n)); return
        iv = []      # (lo, hi)
        groups = {}
        def idx(off):
            off = ex.norm(t, off)
            if s.isconst(): return off.divexact(s.cval())
            if off.m == {}: return C0
            return off.divatom(list(s.atoms())[0])
        for x in items:
            if x[0] == 'el':
                j = idx(x[1])
                if j is None: ex.oblige('cover', None, 'element at %s' % x[1]); return
                iv.append((j, j + 1))
            elif x[0] == 'ap':
                j = idx(x[1]); m = idx(x[2])
                if j is None or m is None or not m.isconst(): ex.oblige('cover', None, 'progression at %s step %s' % (x[1], x[2])); return
                groups.setdefault((m.cval(), ex.norm(t, x[3])), []).append(j)
        for (m, c), js in groups.items():
            if m < 0: ex.oblige('cover', None, 'descending progression'); return
            # runs of m consecutive starting points
            js = list(js)
            while js:
                base = None
                for j in js:
                    if not any((j - q).isconst() and (j - q).cval() == 1 for q in js): base = j; break
                if base is None: base = js[0]
                run = []
                for l in range(m):
                    h = [q for q in js if (q - base).isconst() and (q - base).cval() == l]
                    if not h: break
                    run.append(h[0])
                    js.remove(h[0])
                if len(run) != m or m == 0:
                    ex.oblige('cover', False, 'progressions of step %d cover only %d residues from %s' % (m, len(run), base)); return
                iv.append((base, base + c*m))
        cur = C0
        rest = list(iv)
        while rest:
            hit = None
            for p in rest:
                if ex.norm(t, p[0] - cur).m == {}: hit = p; break
            if hit is None:
                for p in rest:
                    if ex.proves(t, ccmp('==', p[0] - cur)) is True: hit = p; break
            if hit is None: break
            rest.remove(hit)
            if (hit[1] - hit[0]).isconst() or ex.proves(t, ccmp('<=', hit[0] - hit[1])): cur = ex.norm(t, hit[1])
            else: ex.oblige('cover', None, 'interval %s..%s may be empty' % hit); return
        # empty intervals elsewhere are harmless
        if not self.idem:
            rest = [p for p in rest if ex.proves(t, ccmp('==', p[1] - p[0])) is not True]
            ex.oblige('cover', True if not rest else False, 'element(s) %s combined more than once or out of order after %s' % (rest[:2], cur))
        ok = ex.proves(t, ccmp('==', cur - n))
        ex.oblige('cover', ok, 'elements [0, %s) are combined, n = %s' % (cur, n))

def verify(mod, fname, name, t, alias, deadline):
    return kern.verify(mod, fname, RSpec(name, t, alias), deadline)
from . import kern
