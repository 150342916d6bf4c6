"""Integer terms of the verifier: polynomials over named integer atoms (mathematical integers)."""
import z3

class Poly:
    __slots__ = ('m', '_h', '_z')
    def __init__(self, m):
        self.m = m
        self._h = None; self._z = None
    @staticmethod
    def const(c): return Poly({(): c} if c else {})
    @staticmethod
    def atom(a): return Poly({(a,): 1})
    def isconst(self): return not self.m or (len(self.m) == 1 and () in self.m)
    def cval(self): return self.m.get((), 0)
    def __add__(self, o):
        if not isinstance(o, Poly): o = Poly.const(o)
        r = dict(self.m)
        for k, v in o.m.items():
            c = r.get(k, 0) + v
            if c: r[k] = c
            else: r.pop(k, None)
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({k: -v for k, v in self.m.items()})
    def __sub__(self, o):
        if not isinstance(o, Poly): o = Poly.const(o)
        return self + (-o)
    def __rsub__(self, o): return Poly.const(o) - self
    def __mul__(self, o):
        if not isinstance(o, Poly):
            if o == 0: return Poly({})
            return Poly({k: v*o for k, v in self.m.items()})
        r = {}
        for k, v in self.m.items():
            for k2, v2 in o.m.items():
                kk = tuple(sorted(k+k2))
                c = r.get(kk, 0) + v*v2
                if c: r[kk] = c
                else: r.pop(kk, None)
        return Poly(r)
    __rmul__ = __mul__
    def key(self):
        if self._h is None: self._h = tuple(sorted(self.m.items()))
        return self._h
    def __eq__(self, o): return isinstance(o, Poly) and self.m == o.m
    def __hash__(self): return hash(self.key())
    def atoms(self):
        s = set()
        for k in self.m: s.update(k)
        return s
    def subst(self, d):
        if not any(a in d for k in self.m for a in k): return self
        r = Poly({})
        for k, v in self.m.items():
            t = Poly.const(v)
            for a in k: t = t * (d[a] if a in d else Poly.atom(a))
            r = r + t
        return r
    def divexact(self, c):
        """self / c for an integer c, or None"""
        if c == 0: return None
        if any(v % c for v in self.m.values()): return None
        return Poly({k: v//c for k, v in self.m.items()})
    def divatom(self, a):
        """self / atom a, or None"""
        r = {}
        for k, v in self.m.items():
            if a not in k: return None
            l = list(k); l.remove(a)
            r[tuple(l)] = v
        return Poly(r)
    def z(self):
        if self._z is None: self._z = self.z_()
        return self._z
    def z_(self):
        if not self.m: return z3.IntVal(0)
        ts = []
        for k, v in self.key():
            if not k: ts.append(z3.IntVal(v))
            else:
                x = z3.Int('*'.join(k))
                ts.append(x if v == 1 else v*x)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)
    def gcd(self):
        import math
        g = 0
        for k, v in self.m.items():
            if k: g = math.gcd(g, v)
        return g
    def __repr__(self):
        if not self.m: return '0'
        s = []
        for k, v in self.key():
            if not k: s.append(str(v))
            else: s.append(('' if v == 1 else '-' if v == -1 else '%d*' % v) + '*'.join(k))
        return '+'.join(s).replace('+-', '-')
