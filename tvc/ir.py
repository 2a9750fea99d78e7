"""Parser for the textual LLVM-18 IR that clang emits for the harness translation
units.  Function bodies are parsed lazily.  Nothing is simplified here: what the
executor runs is what clang produced from /repo's current source."""
import re, subprocess, struct

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"])*")
 | (?P<gid>[@%](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<attr>\#\d+)
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<str>"[^"]*")
 | (?P<num>-?(?:0x[KLMHR]?[0-9A-Fa-f]+|\d+\.\d+(?:e[+-]?\d+)?|\d+))
 | (?P<id>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<punct>\.\.\.|[=,(){}\[\]<>*:|])
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    m_ = TOK.match
    while i < n:
        if s[i] == ';':
            break
        m = m_(s, i)
        if not m:
            raise SyntaxError('tok: %r' % s[i:i+60])
        k = m.lastgroup
        if k != 'ws':
            out.append(m.group())
        i = m.end()
    return out

class Ty:
    __slots__ = ('k', 'bits', 'n', 'el', 'fields', 'packed', 'size', 'align', 'offs', 'name', 'store')
    def __init__(s, k, **kw):
        s.k = k
        s.bits = s.n = s.el = s.fields = s.size = s.align = s.offs = s.name = None
        s.packed = False
        for a, b in kw.items():
            setattr(s, a, b)
    def __repr__(s):
        if s.k == 'i': return 'i%d' % s.bits
        if s.k in ('arr', 'vec'): return '[%d x %r]' % (s.n, s.el)
        if s.k == 'struct': return '{%s}' % ','.join(map(repr, s.fields))
        return s.k

def _al(x, a): return (x + a - 1) // a * a

def layout(t):
    if t.size is not None: return t
    k = t.k
    if k == 'i':
        b = (t.bits + 7) // 8
        sz = 1
        while sz < b: sz *= 2
        t.align = min(sz, 16); t.size = _al(b, t.align) if b > 8 else sz
        t.store = b
    elif k == 'ptr': t.size = t.align = 8
    elif k == 'float': t.size = t.align = 4
    elif k == 'double': t.size = t.align = 8
    elif k == 'x86_fp80': t.size = t.align = 16
    elif k == 'arr':
        layout(t.el); t.align = t.el.align; t.size = t.n * t.el.size
    elif k == 'vec':
        layout(t.el)
        if t.el.k == 'i' and t.el.bits < 8:
            sz = max(1, (t.n * t.el.bits + 7)//8); t.size = t.align = sz
        else:
            sz = t.n * t.el.size
            a = 1
            while a < sz: a *= 2
            t.size = a; t.align = a
    elif k == 'struct':
        o = 0; al = 1; offs = []
        for f in t.fields:
            layout(f)
            a = 1 if t.packed else f.align
            al = max(al, a); o = _al(o, a); offs.append(o); o += f.size
        t.align = al; t.size = _al(o, al); t.offs = offs
    elif k in ('void', 'label', 'metadata', 'opaque'):
        t.size = 0; t.align = 1
    else:
        raise NotImplementedError(k)
    return t

_ity = {}
def I(n):
    t = _ity.get(n)
    if t is None:
        t = _ity[n] = Ty('i', bits=n); layout(t)
    return t
PTR = layout(Ty('ptr')); VOID = layout(Ty('void')); FLOAT = layout(Ty('float')); DOUBLE = layout(Ty('double'))
LABEL = Ty('label'); META = Ty('metadata'); FP80 = layout(Ty('x86_fp80'))

CONSTKW = {'null', 'undef', 'poison', 'true', 'false', 'zeroinitializer', 'getelementptr', 'bitcast', 'inttoptr',
           'ptrtoint', 'trunc', 'zext', 'sext', 'add', 'sub', 'mul', 'shl', 'xor', 'icmp', 'select', 'none',
           'blockaddress', 'dso_local_equivalent', 'no_cfi', 'addrspacecast', 'splat', 'asm'}

class P:
    """token stream"""
    def __init__(s, toks, mod):
        s.t = toks; s.i = 0; s.m = mod
    def peek(s): return s.t[s.i] if s.i < len(s.t) else None
    def next(s):
        x = s.t[s.i]; s.i += 1; return x
    def eat(s, x):
        if s.i < len(s.t) and s.t[s.i] == x:
            s.i += 1; return True
        return False
    def expect(s, x):
        y = s.next()
        if y != x: raise SyntaxError('expected %r got %r in %r' % (x, y, ' '.join(s.t)))
    def skip_group(s):
        # at '(' : skip balanced
        d = 0
        while True:
            x = s.next()
            if x == '(': d += 1
            elif x == ')':
                d -= 1
                if d == 0: return
    def type(s):
        x = s.next()
        if x[0] == 'i' and x[1:].isdigit(): t = I(int(x[1:]))
        elif x == 'ptr':
            t = PTR
            if s.peek() == 'addrspace': s.next(); s.skip_group()
        elif x == 'void': t = VOID
        elif x == 'float': t = FLOAT
        elif x == 'double': t = DOUBLE
        elif x == 'x86_fp80': t = FP80
        elif x == 'label': t = LABEL
        elif x == 'metadata': t = META
        elif x == 'opaque': t = Ty('opaque')
        elif x == '[':
            n = int(s.next()); s.expect('x'); e = s.type(); s.expect(']'); t = Ty('arr', n=n, el=e)
        elif x == '<':
            if s.peek() == '{':
                s.next(); f = s._fields(); s.expect('>'); t = Ty('struct', fields=f, packed=True)
            else:
                n = int(s.next()); s.expect('x'); e = s.type(); s.expect('>'); t = Ty('vec', n=n, el=e)
        elif x == '{':
            t = Ty('struct', fields=s._fields())
        elif x[0] == '%':
            t = s.m.named_type(x)
        else:
            raise SyntaxError('type? %r in %r' % (x, ' '.join(s.t)))
        # function type
        if s.peek() == '(' and t.k != 'label':
            # may be a function type "ty (args)" ; caller handles when relevant
            pass
        return t
    def _fields(s):
        f = []
        if s.eat('}'): return f
        while True:
            f.append(s.type())
            if s.eat('}'): return f
            s.expect(',')
    def skip_attrs(s):
        """skip parameter / return attributes; returns dict of interesting ones"""
        r = {}
        while True:
            x = s.peek()
            if x is None: return r
            c = x[0]
            if x in CONSTKW or c in '%@<[{-' or c.isdigit() or x in (',', ')', '(') or x.startswith('c"'):
                return r
            if c == '!' or c == '#':
                if c == '!': return r
                s.next(); continue
            if re.match(r'i\d+$', x) or x in ('ptr', 'void', 'float', 'double', 'label', 'metadata', 'x86_fp80'):
                return r
            s.next()
            if x == 'align':
                if s.peek() == '(': s.skip_group()
                else: s.next()
            elif s.peek() == '(':
                if x in ('byval', 'sret'):
                    s.next(); r[x] = s.type(); s.expect(')')
                else:
                    s.skip_group()
            else:
                r[x] = True
    # value: returns ('r',name) or ('c',pyvalue)
    def value(s, t):
        x = s.next()
        c = x[0]
        if c == '%': return ('r', x)
        if c == '@': return ('g', x)
        if t.k == 'float' or t.k == 'double':
            if x in ('undef', 'poison', 'zeroinitializer'): return ('c', 0.0)
            if x.startswith('0x'): return ('c', struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0])
            return ('c', float(x))
        if c.isdigit() or (c == '-' and len(x) > 1):
            if t.k == 'x86_fp80': return ('c', 0.0)
            return ('c', int(x) & ((1 << t.bits) - 1))
        if x == 'true': return ('c', 1)
        if x == 'false': return ('c', 0)
        if x == 'null': return ('c', 0)
        if x in ('zeroinitializer', 'undef', 'poison', 'none'): return ('c', zero(t))
        if c == 'c' and x[1:2] == '"': return ('c', cstr(x))
        if x == '[' or x == '{' or x == '<':
            packed = False
            if x == '<' and s.peek() == '{': s.next(); close = '}'; packed = True
            else: close = {'[': ']', '{': '}', '<': '>'}[x]
            els = []
            if s.peek() != close:
                while True:
                    et = s.type(); els.append(s.value(et))
                    if not s.eat(','): break
            s.expect(close)
            if packed: s.expect('>')
            if all(e[0] == 'c' for e in els): return ('c', [e[1] for e in els])
            return ('agg', els)
        if x == 'splat':
            s.expect('('); et = s.type(); v = s.value(et); s.expect(')')
            return ('c', [v[1]] * t.n)
        if x == 'getelementptr':
            while s.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'): s.next()
            if s.peek() == '(' and s.t[s.i-1] == 'inrange': s.skip_group()
            s.expect('(')
            bt = s.type(); s.expect(',')
            pt = s.type(); base = s.value(pt)
            idx = []
            while s.eat(','):
                while s.peek() == 'inrange': s.next()
                it = s.type(); idx.append((it, s.value(it)))
            s.expect(')')
            return ('gep', bt, base, idx)
        if x in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.expect('('); ft = s.type(); v = s.value(ft); s.expect('to'); tt = s.type(); s.expect(')')
            return ('cast', x, ft, v, tt)
        if x in ('add', 'sub', 'mul', 'xor', 'shl'):
            while s.peek() in ('nuw', 'nsw'): s.next()
            s.expect('('); t1 = s.type(); a = s.value(t1); s.expect(','); t2 = s.type(); b = s.value(t2); s.expect(')')
            return ('bin', x, t1, a, b)
        if x == 'icmp':
            pr = s.next(); s.expect('('); t1 = s.type(); a = s.value(t1); s.expect(','); t2 = s.type(); b = s.value(t2); s.expect(')')
            return ('icmp', pr, t1, a, b)
        if x == 'select':
            s.expect('('); t0=s.type(); a=s.value(t0); s.expect(','); t1=s.type(); b=s.value(t1); s.expect(','); t2=s.type(); d=s.value(t2); s.expect(')')
            return ('select', a, b, d)
        raise SyntaxError('value? %r in %r' % (x, ' '.join(s.t)))

def cstr(x):
    b = x[2:-1]
    out = []
    i = 0
    while i < len(b):
        if b[i] == '\\':
            if b[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(b[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(b[i])); i += 1
    return out

def zero(t):
    if t.k in ('i', 'ptr', 'opaque', 'metadata', 'label'): return 0
    if t.k in ('float', 'double', 'x86_fp80'): return 0.0
    if t.k in ('arr', 'vec'): return [zero(t.el) for _ in range(t.n)]
    if t.k == 'struct': return [zero(f) for f in t.fields]
    raise NotImplementedError(t.k)

class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'body', 'dem', 'mod', 'order', 'ipdom', 'decl', 'handler', 'attrs', 'preds', 'loopinfo')
    def __init__(s):
        s.blocks = None; s.handler = None; s.ipdom = None; s.preds = None; s.loopinfo = None

class Module:
    def __init__(self, path):
        self.types_src = {}; self.types = {}
        self.globals = {}   # name -> (type, initvalue or None, align)
        self.funcs = {}
        self.aliases = {}
        self.ctors = []
        self._parse(open(path, errors='surrogateescape').read())
        names = [n for n in self.funcs]
        dem = demangle([self._strip(n) for n in names])
        for n, d in zip(names, dem): self.funcs[n].dem = d
        gn = list(self.globals)
        self.gdem = dict(zip(gn, demangle([self._strip(n) for n in gn])))
    @staticmethod
    def _strip(n):
        n = n[1:]
        if n.startswith('"'): n = n[1:-1]
        return n
    def named_type(self, x):
        t = self.types.get(x)
        if t is None:
            t = Ty('struct', name=x)
            self.types[x] = t
            src = self.types_src.get(x)
            if src is None or src.strip() == 'opaque':
                t.k = 'opaque'
            else:
                u = P(tokenize(src), self).type()
                t.k = u.k; t.fields = u.fields; t.packed = u.packed; t.n = u.n; t.el = u.el
        return t
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        gl = []
        while i < n:
            L = lines[i]
            if not L or L[0] == ';':
                i += 1; continue
            if L[0] == '%':
                k = L.index(' = type ')
                self.types_src[L[:k]] = L[k+8:]
            elif L[0] == '@':
                gl.append(L)
            elif L.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                self._func(L, lines[i+1:j])
                i = j
            elif L.startswith('declare'):
                self._func(L, None)
            i += 1
        for L in gl: self._global(L)
    def _func(self, L, body):
        p = P(tokenize(L), self)
        p.next()
        f = Func()
        f.mod = self
        # skip linkage etc until type
        while True:
            x = p.peek()
            if re.match(r'(i\d+|ptr|void|float|double|x86_fp80)$', x) or x[0] in '%[{<': break
            p.next()
            if p.peek() == '(': p.skip_group()
            elif x == 'align': p.next()
        f.ret = p.type()
        x = p.next()
        f.name = x
        p.expect('(')
        f.params = []
        k = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    p.expect(')'); break
                t = p.type(); at = p.skip_attrs()
                nm = None
                if p.peek() and p.peek()[0] == '%': nm = p.next()
                else: nm = '%' + str(k)
                k += 1
                f.params.append((t, nm, at))
                if p.eat(')'): break
                p.expect(',')
        f.body = body
        f.decl = body is None
        self.funcs[f.name] = f
    def _global(self, L):
        toks = tokenize(L)
        p = P(toks, self)
        name = p.next(); p.expect('=')
        isconst = False
        external = False
        while True:
            x = p.peek()
            if x in ('global', 'constant'):
                isconst = x == 'constant'; p.next(); break
            if x == 'alias':
                p.next(); p.type()
                if p.peek() == '(': p.skip_group()
                p.expect(','); t = p.type(); v = p.value(t)
                self.aliases[name] = v; return
            if x in ('external', 'extern_weak'): external = True
            p.next()
            if p.peek() == '(': p.skip_group()
        t = p.type()
        init = None
        if not external:
            init = p.value(t)
        self.globals[name] = (t, init, isconst)

_demcache = {}
def demangle(names):
    todo = [n for n in names if n not in _demcache]
    if todo:
        r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(todo) + '\n', capture_output=True, text=True, errors='surrogateescape')
        for a, b in zip(todo, r.stdout.split('\n')): _demcache[a] = b
    return [_demcache[n] for n in names]

FLAGS = {'nuw', 'nsw', 'exact', 'nneg', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'afn', 'inbounds', 'volatile', 'samesign', 'inrange'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}

class Ins:
    __slots__ = ('op', 'dst', 'a', 'ty', 'txt', 'h')
    def __init__(s, op, dst, ty, a, txt):
        s.op = op; s.dst = dst; s.ty = ty; s.a = a; s.txt = txt; s.h = None

def parse_body(f):
    """-> f.blocks : name -> (phis, instrs)"""
    m = f.mod
    blocks = {}
    order = []
    cur = None
    k = len(f.params)
    first = True
    lines = f.body
    i = 0
    while i < len(lines):
        L = lines[i]
        i += 1
        if not L.strip(): continue
        if L[0] != ' ':
            if L[0] == ';': continue
            mm = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', L)
            nm = mm.group(1)
            cur = '%' + nm
            blocks[cur] = []
            order.append(cur)
            first = False
            continue
        if first:
            cur = '%' + str(k)
            # entry block unnamed
            blocks[cur] = []; order.append(cur); first = False
        s = L.strip()
        if s.startswith('switch') and not s.rstrip().endswith(']'):
            while True:
                s += ' ' + lines[i].strip(); i += 1
                if lines[i-1].strip().startswith(']'): break
        elif ('invoke ' in s) and ' unwind ' not in s:
            s += ' ' + lines[i].strip(); i += 1
        elif 'landingpad' in s:
            while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)', lines[i]):
                s += ' ' + lines[i].strip(); i += 1
        blocks[cur].append(parse_ins(s, m))
    f.blocks = blocks
    f.order = order
    return f

def parse_ins(s, m):
    toks = tokenize(s)
    p = P(toks, m)
    dst = None
    if len(toks) > 1 and toks[1] == '=':
        dst = toks[0]; p.i = 2
    op = p.next()
    if op in ('tail', 'musttail', 'notail'): op = p.next()
    def flags():
        while p.peek() in FLAGS: p.next()
    if op in BIN:
        fl = set()
        while p.peek() in FLAGS: fl.add(p.next())
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Ins('bin', dst, t, (op, a, b, fl), s)
    if op == 'fneg':
        flags(); t = p.type(); a = p.value(t)
        return Ins('fneg', dst, t, (a,), s)
    if op in CASTS:
        flags(); t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
        return Ins('cast', dst, t2, (op, t, a), s)
    if op == 'icmp' or op == 'fcmp':
        flags()
        pr = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Ins(op, dst, t, (pr, a, b), s)
    if op == 'load':
        while p.peek() in ('volatile', 'atomic'): p.next()
        t = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
        return Ins('load', dst, layout(t), (a,), s)
    if op == 'store':
        while p.peek() in ('volatile', 'atomic'): p.next()
        t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
        return Ins('store', None, layout(t), (v, a), s)
    if op == 'getelementptr':
        flags()
        t = p.type(); p.expect(','); pt = p.type(); base = p.value(pt)
        idx = []
        while p.eat(','):
            if p.peek()[0] == '!': break
            it = p.type(); idx.append((it, p.value(it)))
        return Ins('gep', dst, t, (base, idx, pt), s)
    if op == 'alloca':
        while p.peek() in ('inalloca',): p.next()
        t = layout(p.type())
        n = ('c', 1)
        if p.eat(','):
            if p.peek() == 'align': pass
            else:
                nt = p.type(); n = p.value(nt)
        return Ins('alloca', dst, t, (n,), s)
    if op == 'phi':
        flags()
        t = p.type(); inc = {}
        while True:
            p.expect('['); v = p.value(t); p.expect(','); b = p.next(); p.expect(']')
            inc[b] = v
            if not p.eat(','): break
            if p.peek() and p.peek()[0] == '!': break
        return Ins('phi', dst, t, inc, s)
    if op == 'select':
        flags()
        ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2)
        return Ins('select', dst, t, (c, a, b, ct), s)
    if op == 'br':
        if p.eat('label'):
            return Ins('br', None, None, (p.next(),), s)
        t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
        return Ins('condbr', None, None, (c, a, b), s)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
        cases = []
        while not p.eat(']'):
            ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()))
        return Ins('switch', None, t, (v, d, cases), s)
    if op == 'ret':
        t = p.type()
        if t.k == 'void': return Ins('ret', None, t, (None,), s)
        return Ins('ret', None, t, (p.value(t),), s)
    if op in ('call', 'invoke'):
        flags()
        # cconv / ret attrs
        while True:
            x = p.peek()
            if x in ('fastcc', 'coldcc', 'ccc') or x in FLAGS: p.next(); continue
            break
        p.skip_attrs()
        t = p.type()
        # optional function type
        if p.peek() == '(':
            p.skip_group()
            if p.peek() == '*': p.next()
        x = p.next()
        if x == 'asm':
            return Ins('asm', dst, t, (s,), s)
        if x[0] == '@': callee = ('g', x)
        elif x[0] == '%': callee = ('r', x)
        else:
            p.i -= 1
            callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                at = p.type()
                if at.k == 'metadata':
                    # skip metadata arg
                    d = 0
                    while True:
                        y = p.peek()
                        if d == 0 and y in (',', ')'): break
                        if y == '(' or y=='{': d += 1
                        if y == ')' or y=='}': d -= 1
                        p.next()
                    args.append((at, ('c', 0), {}))
                else:
                    attrs = p.skip_attrs()
                    args.append((at, p.value(at), attrs))
                if p.eat(')'): break
                p.expect(',')
        normal = None
        if op == 'invoke':
            while p.next() != 'to': pass
            p.expect('label'); normal = p.next(); p.expect('unwind'); p.expect('label'); uw = p.next()
        return Ins('call', dst, t, (callee, args, normal), s)
    if op == 'unreachable': return Ins('unreachable', None, None, (), s)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); ix = []
        while p.eat(','):
            if not p.peek()[0].isdigit(): break
            ix.append(int(p.next()))
        return Ins('extractvalue', dst, t, (v, ix), s)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); w = p.value(t2); ix = []
        while p.eat(','):
            if not p.peek()[0].isdigit(): break
            ix.append(int(p.next()))
        return Ins('insertvalue', dst, t, (v, w, ix), s)
    if op == 'extractelement':
        t = p.type(); v = p.value(t); p.expect(','); it = p.type(); ix = p.value(it)
        return Ins('extractelement', dst, t, (v, ix), s)
    if op == 'insertelement':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); e = p.value(t2); p.expect(','); it = p.type(); ix = p.value(it)
        return Ins('insertelement', dst, t, (v, e, ix), s)
    if op == 'shufflevector':
        t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2); p.expect(','); mt = p.type(); mk = p.value(mt)
        return Ins('shufflevector', dst, t, (a, b, mk, mt), s)
    if op == 'freeze':
        t = p.type(); a = p.value(t)
        return Ins('freeze', dst, t, (a,), s)
    if op in ('landingpad', 'resume'): return Ins(op, dst, None, (), s)
    if op == 'atomicrmw':
        if p.peek() == 'volatile': p.next()
        o = p.next(); pt = p.type(); a = p.value(pt); p.expect(','); t = p.type(); v = p.value(t)
        return Ins('atomicrmw', dst, layout(t), (o, a, v), s)
    if op == 'cmpxchg':
        while p.peek() in ('weak', 'volatile'): p.next()
        pt = p.type(); a = p.value(pt); p.expect(','); t = p.type(); c = p.value(t); p.expect(','); t2 = p.type(); n = p.value(t2)
        return Ins('cmpxchg', dst, layout(t), (a, c, n), s)
    if op == 'fence': return Ins('nop', None, None, (), s)
    return Ins('unknown', dst, None, (op,), s)
