"""Concrete interpretation of the kernel lookup functions (in the same executor, on the current IR)."""
from .poly import Poly
from .ex import Ex, State, Ptr, Cells, C0, Undecided
from . import kern

class DSpec(kern.Base):
    pass

def lookup(mod, fname, ints, out=True):
    """-> list of (symbol|None, wanted out type|None); one entry when the lookup is deterministic"""
    f = mod.func(fname)
    if f is None: raise Undecided('no function ' + fname)
    ex = Ex(mod, DSpec(), fname)
    ex.params = frozenset()
    st = State()
    st.env = {}; st.fn = f; st.mod = mod; st.prev = None; st.ip = 0; st.facts = []; st.data = []; st.sub = {}
    st.mem = {'want': Cells('want', 4)}; st.g = {}; st.trace = None; st.frame = fname; st.blk = f.order[0]
    args = [Poly.const(i) for i in ints] + ([Ptr('want', C0)] if out else [])
    if len(args) != len(f.params): raise Undecided('signature of ' + fname)
    for (t, n), a in zip(f.params, args): st.env[n] = a
    res = []
    for kind, t, v in ex.explore(st, None):
        if kind != 'ret': continue
        if isinstance(v, Ptr):
            sym = v.b[1:] if v.b else None
        else: raise Undecided('lookup result %r' % (v,))
        c = t.mem['want'].c.get(0)
        w = c[1].cval() if c is not None and isinstance(c[1], Poly) and c[1].isconst() else None
        res.append((sym, w))
    return res
