"""Parser for the textual LLVM IR that clang emits from /repo's current sources.

Only a mechanical reader: no rewriting of the program happens here.  Types are
  ('i',w) ('f',w) 'ptr' ('v',n,t) ('a',n,t) ('s',(t,...),packed) 'void' 'label' 'metadata' 'token'
Operands are ('l',name) local, ('g',name) global, ('c',int) integer, ('fp',bits,width) float constant,
  ('null',) ('zero',) ('undef',) ('agg',[(ty,op)...]) ('str',bytes) ('expr',kind,...)
"""
import re

class IRError(Exception):
    pass

TOK = re.compile(r'''\s*(?:
  (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")|
  (?P<q>[%@!\#]"(?:[^"])*")|
  (?P<l>%[-a-zA-Z$._0-9]+)|
  (?P<g>@[-a-zA-Z$._0-9]+)|
  (?P<m>![-a-zA-Z$._0-9]*)|
  (?P<at>\#[0-9]+)|
  (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
  (?P<fl>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?)|
  (?P<num>-?[0-9]+)|
  (?P<w>[a-zA-Z_][-a-zA-Z0-9_.]*)|
  (?P<s>"(?:[^"])*")|
  (?P<dots>\.\.\.)|
  (?P<p>[\[\]{}()<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise IRError('tok: ' + s[i:i+60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out

ATTRS = set('''noundef nonnull nocapture readonly writeonly readnone signext zeroext noalias nofree nuw nsw exact inbounds
 volatile tail musttail notail fast nnan ninf nsz arcp contract afn reassoc dso_local local_unnamed_addr unnamed_addr
 internal external private linkonce_odr weak linkonce weak_odr available_externally common hidden protected default
 returned immarg nneg disjoint inreg sret byval weak_anyvalue thread_local fastcc ccc coldcc noinline allocptr
 allocalign captures mustprogress atomic noreturn nounwind allocsize inalloca swiftself inrange samesign nusw'''.split())

class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod
        self.flags = set()
    def peek(self, d=0):
        return self.t[self.i+d] if self.i+d < len(self.t) else (None, None)
    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x
    def eat(self, v):
        k, x = self.next()
        if x != v:
            raise IRError('expected %s got %s in %s' % (v, x, ' '.join(str(a[1]) for a in self.t)[:200]))
    def maybe(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False
    def skip_attrs(self):
        while True:
            k, x = self.peek()
            if k == 'w' and x in ATTRS:
                self.flags.add(x)
                self.i += 1
                if self.peek()[1] == '(' and x in ('sret', 'byval', 'inrange', 'allocsize', 'captures'):
                    self.parens()
            elif k == 'w' and x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'initializes', 'nofpclass') and self.peek(1)[0] == 'num':
                self.i += 2
            elif k == 'w' and x in ('dereferenceable', 'dereferenceable_or_null', 'range', 'initializes', 'align', 'nofpclass', 'memory', 'elementtype') and self.peek(1)[1] == '(':
                self.i += 1
                self.parens()
            elif k == 'at' or k == 's':
                self.i += 1
            else:
                return
    def parens(self):
        self.eat('(')
        d = 1
        while d:
            k, x = self.next()
            if x == '(': d += 1
            elif x == ')': d -= 1
    def type(self):
        k, x = self.next()
        if k == 'w':
            if x == 'ptr':
                if self.peek()[1] == 'addrspace':
                    self.next(); self.parens()
                t = 'ptr'
            elif re.fullmatch(r'i[0-9]+', x): t = ('i', int(x[1:]))
            elif x == 'float': t = ('f', 32)
            elif x == 'double': t = ('f', 64)
            elif x == 'half': t = ('f', 16)
            elif x == 'x86_fp80': t = ('f', 80)
            elif x == 'fp128': t = ('f', 128)
            elif x in ('void', 'label', 'metadata', 'token'): t = x
            else: raise IRError('type ' + x)
        elif x == '<':
            if self.peek()[1] == '{':
                t = self.type()
                t = ('s', t[1], True)
                self.eat('>')
            else:
                n = int(self.next()[1]); self.eat('x'); e = self.type(); self.eat('>')
                t = ('v', n, e)
        elif x == '[':
            n = int(self.next()[1]); self.eat('x'); e = self.type(); self.eat(']')
            t = ('a', n, e)
        elif x == '{':
            fs = []
            if self.peek()[1] != '}':
                while True:
                    fs.append(self.type())
                    if not self.maybe(','): break
            self.eat('}')
            t = ('s', tuple(fs), False)
        elif k in ('l', 'q'):
            t = self.mod.named(x)
        else:
            raise IRError('type tok %s' % x)
        # function type
        while self.peek()[1] == '(' and self.istypeparen():
            self.next()
            args = []
            while self.peek()[1] != ')':
                if self.peek()[0] == 'dots': self.next()
                else:
                    args.append(self.type())
                    self.skip_attrs()
                self.maybe(',')
            self.eat(')')
            t = ('fn', t, tuple(args))
        while self.maybe('*'):
            t = 'ptr'
        return t
    def istypeparen(self):
        k, x = self.peek(1)
        return x == ')' or k == 'dots' or (k == 'w' and (x in ('ptr', 'float', 'double', 'void', 'x86_fp80', 'half', 'metadata') or re.fullmatch(r'i[0-9]+', x))) or x in '<[{' or (k == 'l')
    def value(self, ty):
        k, x = self.next()
        if k == 'l': return ('l', x[1:])
        if k == 'g': return ('g', x[1:])
        if k == 'q': return ('l' if x[0] == '%' else 'g', x[2:-1])
        if k == 'num':
            if isinstance(ty, tuple) and ty[0] == 'f':
                return fpconst(x, ty[1])
            return ('c', int(x))
        if k in ('hex', 'fl'):
            return fpconst(x, ty[1])
        if k == 'str':
            return ('str', cstr(x[2:-1]))
        if x == 'true': return ('c', 1)
        if x == 'false': return ('c', 0)
        if x == 'null': return ('null',)
        if x == 'zeroinitializer': return ('zero',)
        if x in ('undef', 'poison'): return ('undef',)
        if x in ('none',): return ('null',)
        if x in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[x]
            if x == '<' and self.peek()[1] == '{':
                self.next()
                r = self.agglist('}')
                self.eat('>')
                return ('agg', r)
            return ('agg', self.agglist(close))
        if x == 'getelementptr':
            while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange') : 
                self.next()
                if self.peek()[1] == '(' and self.peek(1)[0]=='num': self.parens()
            self.eat('(')
            t = self.type(); self.eat(',')
            ops = []
            while True:
                self.skip_attrs()
                a = self.type()
                self.skip_attrs()
                ops.append((a, self.value(a)))
                if not self.maybe(','): break
            self.eat(')')
            return ('expr', 'gep', t, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.eat('(')
            a = self.type(); v = self.value(a); self.eat('to'); b = self.type(); self.eat(')')
            return ('expr', x, a, v, b)
        if x in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'icmp'):
            while self.peek()[1] != '(': self.next()
            self.eat('(')
            a = self.type(); v = self.value(a); self.eat(','); b = self.type(); w = self.value(b); self.eat(')')
            return ('expr', x, a, v, w)
        if x == 'blockaddress' or x == 'dso_local_equivalent' or x == 'asm':
            return ('undef',)
        raise IRError('value %s' % x)
    def agglist(self, close):
        r = []
        if self.peek()[1] != close:
            while True:
                a = self.type(); r.append((a, self.value(a)))
                if not self.maybe(','): break
        self.eat(close)
        return r
    def tv(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.value(t))

import struct
def fpconst(x, w):
    if x.startswith('0x'):
        if x[2] in 'KLMHR':
            return ('fp', int(x[3:], 16), w)
        b = int(x[2:], 16)
        if w == 32:
            d = struct.unpack('<d', struct.pack('<Q', b))[0]
            if d != d:
                # preserve NaN payload top bits
                return ('fp', ((b >> 63) << 31) | 0x7f800000 | ((b >> 29) & 0x7fffff), 32)
            return ('fp', struct.unpack('<I', struct.pack('<f', d))[0], 32)
        return ('fp', b, w)
    d = float(x)
    if w == 32: return ('fp', struct.unpack('<I', struct.pack('<f', d))[0], 32)
    if w == 64: return ('fp', struct.unpack('<Q', struct.pack('<d', d))[0], 64)
    raise IRError('fp const %s %d' % (x, w))

def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

class Instr:
    __slots__ = ('op', 'd', 'ty', 'a', 'x', 'txt')
    def __init__(self, op, d, ty, a, x=None, txt=''):
        self.op = op; self.d = d; self.ty = ty; self.a = a; self.x = x; self.txt = txt
    def __repr__(self):
        return self.txt

class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # (ty, localname)
        self.ret = None
        self.blocks = {}      # label -> [Instr]
        self.order = []

class Module:
    def __init__(self, text, name=''):
        self.name = name
        self.structs = {}
        self._named = {}
        self.gtext = {}
        self.ftext = {}
        self.decls = set()
        self._f = {}
        self._g = {}
        cur = None
        buf = []
        for line in text.split('\n'):
            if cur is not None:
                buf.append(line)
                if line == '}':
                    self.ftext[cur] = buf
                    cur = None
                continue
            if line.startswith('define '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
                cur = m.group(1).strip('"')
                buf = [line]
            elif line.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
                if m: self.decls.add(m.group(1).strip('"'))
            elif line.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)', line)
                self.gtext[m.group(1).strip('"')] = m.group(2)
            elif line.startswith('%') and ' = type ' in line:
                m = re.match(r'%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)', line)
                self._named[m.group(1).strip('"')] = m.group(2)
    def named(self, x):
        n = x[1:].strip('"')
        if n not in self.structs:
            body = self._named.get(n)
            if body is None or body.startswith('opaque'):
                self.structs[n] = ('s', (), False)
            else:
                self.structs[n] = None
                self.structs[n] = P(tokenize(body), self).type()
        return self.structs[n] or ('s', (), False)
    def glob(self, n):
        """-> dict(const, ty, init)"""
        if n in self._g: return self._g[n]
        txt = self.gtext.get(n)
        if txt is None: return None
        p = P(tokenize(txt), self)
        const = False
        ext = False
        while True:
            k, x = p.peek()
            if x == 'constant': const = True; p.next(); break
            if x == 'global': p.next(); break
            if x == 'external': ext = True
            if x == 'alias' or x == 'ifunc':
                self._g[n] = None
                return None
            p.next()
            if p.peek()[1] == '(' : p.parens()
        ty = p.type()
        init = None
        if not ext and p.peek()[0] is not None and p.peek()[1] != ',':
            init = p.value(ty)
        r = dict(const=const, ty=ty, init=init, ext=ext)
        self._g[n] = r
        return r
    def func(self, n):
        if n in self._f: return self._f[n]
        lines = self.ftext.get(n)
        if lines is None: return None
        f = Func(n)
        hd = lines[0]
        toks = tokenize(hd[len('define '):])
        p = P(toks, self)
        p.skip_attrs()
        f.ret = p.type()
        p.skip_attrs()
        p.next()   # name
        p.eat('(')
        while p.peek()[1] != ')':
            if p.peek()[0] == 'dots':
                p.next(); break
            t = p.type(); p.skip_attrs()
            k, x = p.peek()
            nm = None
            if k == 'l': nm = x[1:]; p.next()
            elif k == 'q': nm = x[2:-1]; p.next()
            f.params.append((t, nm))
            p.maybe(',')
        npar = len(f.params)
        cur = str(npar)
        f.blocks[cur] = []
        f.order.append(cur)
        first = True
        i = 1
        while i < len(lines)-1:
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'): continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                lab = m.group(1).strip('"')
                if first and not f.blocks[cur]:
                    del f.blocks[cur]; f.order.pop()
                cur = lab
                f.blocks[cur] = []
                f.order.append(cur)
                first = False
                continue
            if (s.startswith('switch') or ' switch ' in s) and s.endswith('['):
                while ']' not in s.split('[', 1)[1]:
                    s += ' ' + lines[i].strip(); i += 1
            if 'landingpad' in s:
                while i < len(lines)-1 and re.match(r'\s+(cleanup|catch|filter)', lines[i]): i += 1
            if 'invoke ' in s and ' unwind ' not in s:
                s += ' ' + lines[i].strip(); i += 1
            # cut trailing metadata
            s = re.sub(r', ![a-zA-Z_.]+ ![0-9]+', '', s)
            f.blocks[cur].append(parse_instr(s, self))
            first = False
        self._f[n] = f
        return f

def parse_instr(s, mod):
    p = P(tokenize(s), mod)
    d = None
    if p.peek()[0] in ('l', 'q') and p.peek(1)[1] == '=':
        x = p.next()[1]; d = x[1:].strip('"'); p.next()
    p.flags = set()
    while p.peek()[1] in ('tail', 'musttail', 'notail'): p.next()
    op = p.next()[1]
    try:
        return parse_body(op, d, p, s)
    except IRError as e:
        return Instr('unsupported', d, None, [], str(e), s)

BIN = set('add sub mul sdiv udiv srem urem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext fptrunc fpext fptosi fptoui sitofp uitofp ptrtoint inttoptr bitcast addrspacecast'.split())
def parse_body(op, d, p, s):
    if op in BIN:
        p.skip_attrs()
        t = p.type(); a = p.value(t); p.eat(','); b = p.value(t)
        return Instr(op, d, t, [a, b], frozenset(p.flags), s)
    if op in ('fneg', 'freeze'):
        p.skip_attrs()
        t = p.type(); a = p.value(t)
        return Instr(op, d, t, [a], None, s)
    if op in CAST:
        p.skip_attrs()
        t = p.type(); a = p.value(t); p.eat('to'); t2 = p.type()
        return Instr(op, d, t2, [a], t, s)
    if op in ('icmp', 'fcmp'):
        p.skip_attrs()
        c = p.next()[1]
        t = p.type(); a = p.value(t); p.eat(','); b = p.value(t)
        return Instr(op, d, t, [a, b], c, s)
    if op == 'select':
        p.skip_attrs()
        tc = p.type(); c = p.value(tc); p.eat(',')
        t = p.type(); a = p.value(t); p.eat(',')
        t2 = p.type(); b = p.value(t2)
        return Instr(op, d, t, [c, a, b], tc, s)
    if op == 'phi':
        p.skip_attrs()
        t = p.type()
        inc = []
        while True:
            p.eat('['); v = p.value(t); p.eat(','); l = p.next()[1]; p.eat(']')
            inc.append((v, l[1:].strip('"')))
            if not p.maybe(','): break
        return Instr(op, d, t, inc, None, s)
    if op == 'br':
        if p.peek()[1] == 'label':
            p.next(); l = p.next()[1]
            return Instr('br', None, None, [], [l[1:].strip('"')], s)
        t = p.type(); c = p.value(t); p.eat(','); p.eat('label'); a = p.next()[1]; p.eat(','); p.eat('label'); b = p.next()[1]
        return Instr('br', None, None, [c], [a[1:].strip('"'), b[1:].strip('"')], s)
    if op == 'switch':
        t = p.type(); c = p.value(t); p.eat(','); p.eat('label'); dl = p.next()[1][1:].strip('"')
        p.eat('[')
        cases = []
        while p.peek()[1] != ']':
            tt = p.type(); v = p.value(tt); p.eat(','); p.eat('label'); l = p.next()[1][1:].strip('"')
            cases.append((v[1], l))
        return Instr('switch', None, t, [c], (dl, cases), s)
    if op == 'ret':
        t = p.type()
        if t == 'void': return Instr('ret', None, t, [], None, s)
        return Instr('ret', None, t, [p.value(t)], None, s)
    if op == 'unreachable':
        return Instr(op, None, None, [], None, s)
    if op == 'load':
        at = 'atomic' in [x[1] for x in p.t]
        p.skip_attrs()
        t = p.type(); p.eat(','); pt = p.type(); a = p.value(pt)
        m = re.search(r'align (\d+)', s)
        return Instr('load', d, t, [a], dict(align=int(m.group(1)) if m else 0, volatile='volatile' in p.flags, atomic=at), s)
    if op == 'store':
        at = 'atomic' in [x[1] for x in p.t]
        p.skip_attrs()
        t = p.type(); v = p.value(t); p.eat(','); pt = p.type(); a = p.value(pt)
        m = re.search(r'align (\d+)', s)
        return Instr('store', None, t, [v, a], dict(align=int(m.group(1)) if m else 0, volatile='volatile' in p.flags, atomic=at), s)
    if op == 'getelementptr':
        p.skip_attrs()
        t = p.type(); p.eat(',')
        ops = []
        while True:
            p.skip_attrs()
            ops.append(p.tv())
            if not p.maybe(','): break
        return Instr('gep', d, t, ops, None, s)
    if op in ('call', 'invoke'):
        p.skip_attrs()
        t = p.type()
        p.skip_attrs()
        if isinstance(t, tuple) and t[0] == 'fn': t = t[1]
        k, x = p.peek()
        if x == 'asm':
            return Instr('asm', d, t, [], None, s)
        callee = p.value('ptr')
        p.eat('(')
        args = []
        while p.peek()[1] != ')':
            ty = p.type(); p.skip_attrs()
            if ty == 'metadata':
                k, x = p.next()
                if p.peek()[1] == '(' : p.parens()
                args.append((ty, ('undef',)))
            else:
                args.append((ty, p.value(ty)))
            p.maybe(',')
        p.eat(')')
        labs = None
        if op == 'invoke':
            p.skip_attrs()
            while p.peek()[1] != 'to': p.next()
            p.eat('to'); p.eat('label'); a = p.next()[1][1:]; p.eat('unwind'); p.eat('label'); b = p.next()[1][1:]
            labs = [a.strip('"'), b.strip('"')]
        return Instr('call' if op == 'call' else 'invoke', d, t, args, (callee, labs), s)
    if op == 'alloca':
        p.skip_attrs()
        t = p.type()
        n = ('c', 1)
        if p.maybe(','):
            if p.peek()[1] != 'align':
                tt = p.type(); n = p.value(tt)
        m = re.search(r'align (\d+)', s)
        return Instr('alloca', d, t, [n], int(m.group(1)) if m else 0, s)
    if op == 'insertelement':
        a = p.tv(); p.eat(','); b = p.tv(); p.eat(','); c = p.tv()
        return Instr(op, d, a[0], [a[1], b[1], c[1]], None, s)
    if op == 'extractelement':
        a = p.tv(); p.eat(','); c = p.tv()
        return Instr(op, d, a[0], [a[1], c[1]], None, s)
    if op == 'shufflevector':
        a = p.tv(); p.eat(','); b = p.tv(); p.eat(','); c = p.tv()
        return Instr(op, d, a[0], [a[1], b[1], c[1]], c[0], s)
    if op == 'extractvalue':
        a = p.tv(); idx = []
        while p.maybe(','): idx.append(int(p.next()[1]))
        return Instr(op, d, a[0], [a[1]], idx, s)
    if op == 'insertvalue':
        a = p.tv(); p.eat(','); b = p.tv(); idx = []
        while p.maybe(','): idx.append(int(p.next()[1]))
        return Instr(op, d, a[0], [a[1], b[1]], (idx, b[0]), s)
    if op == 'atomicrmw':
        p.skip_attrs()
        k = p.next()[1]
        a = p.tv(); p.eat(','); b = p.tv()
        return Instr(op, d, b[0], [a[1], b[1]], k, s)
    if op == 'cmpxchg':
        p.skip_attrs()
        if p.peek()[1] == 'weak': p.next()
        p.skip_attrs()
        a = p.tv(); p.eat(','); b = p.tv(); p.eat(','); c = p.tv()
        return Instr(op, d, b[0], [a[1], b[1], c[1]], None, s)
    if op in ('fence', 'resume', 'landingpad'):
        return Instr(op, d, None, [], None, s)
    return Instr('unsupported', d, None, [], 'op ' + op, s)

def size(t):
    if t == 'ptr': return 8
    if t[0] == 'i': return max(1, 1 << max(0, ((t[1]+7)//8 - 1).bit_length())) if t[1] > 8 else 1
    if t[0] == 'f': return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
    if t[0] == 'v': return max(1, t[1]*(t[2][1] if t[2] != 'ptr' else 64)//8)
    if t[0] == 'a': return t[1]*size(t[2])
    if t[0] == 's':
        o = 0; al = 1
        for f in t[1]:
            a = 1 if t[2] else align(f)
            o = (o + a - 1)//a*a + size(f); al = max(al, a)
        return (o + al - 1)//al*al
    raise IRError('size %s' % (t,))
def align(t):
    if t == 'ptr': return 8
    if t[0] in 'if': return min(16, size(t))
    if t[0] == 'v': return size(t)
    if t[0] == 'a': return align(t[2])
    if t[0] == 's':
        if t[2]: return 1
        return max([1]+[align(f) for f in t[1]])
def offset(t, i):
    o = 0
    for j, f in enumerate(t[1]):
        a = 1 if t[2] else align(f)
        o = (o + a - 1)//a*a
        if j == i: return o
        o += size(f)
    raise IRError('field')
