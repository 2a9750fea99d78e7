"""Hash-consed bit-vector term DAG.  A value is a Python int (concrete, unsigned)
or a Term (symbolic).  Every constructor folds constants and keeps an unsigned
interval [lo,hi]."""

class Term:
    __slots__ = ('op', 'args', 'w', 'lo', 'hi', 'id', 'tz', '__weakref__')
    def __repr__(s): return tostr(s, 3)

_tab = {}
_n = [0]

def reset():
    _tab.clear(); _n[0] = 0

def mk(op, args, w, lo=0, hi=None, tz=0):
    key = (op, w) + tuple([('t', a.id) if isinstance(a, Term) else a for a in args])
    t = _tab.get(key)
    if t is not None: return t
    t = Term()
    t.op = op; t.args = args; t.w = w
    m = (1 << w) - 1
    t.lo = lo; t.hi = m if hi is None else hi
    t.tz = tz
    t.id = _n[0]; _n[0] += 1
    _tab[key] = t
    return t

def tostr(t, d=6):
    if not isinstance(t, Term): return str(t)
    if t.op == 'var': return t.args[0]
    if d == 0: return '#%d' % t.id
    return '%s%d(%s)' % (t.op, t.w, ', '.join(tostr(a, d-1) for a in t.args))

def var(name, w, lo=0, hi=None): return mk('var', (name,), w, lo, hi)

def lo_(x): return x.lo if isinstance(x, Term) else x
def hi_(x): return x.hi if isinstance(x, Term) else x
def tz_(x):
    if isinstance(x, Term): return x.tz
    if x == 0: return 1 << 30
    return (x & -x).bit_length() - 1

def sgn(x, w): return x - (1 << w) if x >> (w-1) else x

def add(a, b, w):
    A = isinstance(a, Term); B = isinstance(b, Term)
    m = (1 << w) - 1
    if not A and not B: return (a + b) & m
    if not A: a, b, A, B = b, a, B, A
    if not B:
        if b == 0: return a
        if a.op == 'add' and not isinstance(a.args[1], Term):
            return add(a.args[0], (a.args[1] + b) & m, w)
    elif a.id > b.id: a, b = b, a
    lo = lo_(a) + lo_(b); hi = hi_(a) + hi_(b)
    if hi > m: lo, hi = 0, m
    return mk('add', (a, b), w, lo, hi, min(tz_(a), tz_(b)))

def sub(a, b, w):
    A = isinstance(a, Term); B = isinstance(b, Term)
    m = (1 << w) - 1
    if not A and not B: return (a - b) & m
    if not B and b == 0: return a
    if a is b: return 0
    if not B and a.op == 'add' and not isinstance(a.args[1], Term):
        return add(a.args[0], (a.args[1] - b) & m, w)
    if A and a.op == 'add' and a.args[0] is b and B: return a.args[1]
    lo = lo_(a) - hi_(b); hi = hi_(a) - lo_(b)
    if lo < 0: lo, hi = 0, m
    return mk('sub', (a, b), w, lo, hi, min(tz_(a), tz_(b)))

def mul(a, b, w):
    A = isinstance(a, Term); B = isinstance(b, Term)
    m = (1 << w) - 1
    if not A and not B: return (a * b) & m
    if not A: a, b, A, B = b, a, B, A
    if not B:
        if b == 0: return 0
        if b == 1: return a
    elif a.id > b.id: a, b = b, a
    lo = lo_(a) * lo_(b); hi = hi_(a) * hi_(b)
    if hi > m: lo, hi = 0, m
    return mk('mul', (a, b), w, lo, hi, min(w, tz_(a) + tz_(b)))

def udiv(a, b, w):
    A = isinstance(a, Term); B = isinstance(b, Term)
    if not A and not B: return a // b
    if not B and b == 1: return a
    if not B and b and b & (b-1) == 0: return lshr(a, b.bit_length()-1, w)
    return mk('udiv', (a, b), w, 0 if not lo_(b) else lo_(a)//max(1, hi_(b)), hi_(a) // max(1, lo_(b)))

def urem(a, b, w):
    A = isinstance(a, Term); B = isinstance(b, Term)
    if not A and not B: return a % b
    if not B and b and b & (b-1) == 0: return and_(a, b-1, w)
    if lo_(b) > 0 and hi_(a) < lo_(b): return a
    return mk('urem', (a, b), w, 0, min(hi_(a), max(0, hi_(b)-1)))

def sdiv(a, b, w):
    A = isinstance(a, Term); B = isinstance(b, Term)
    if not A and not B:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x)//abs(y)
        if (x < 0) != (y < 0): q = -q
        return q & ((1 << w) - 1)
    if not (hi_(a) >> (w-1)) and not (hi_(b) >> (w-1)): return udiv(a, b, w)
    return mk('sdiv', (a, b), w)

def srem(a, b, w):
    A = isinstance(a, Term); B = isinstance(b, Term)
    if not A and not B:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        if x < 0: r = -r
        return r & ((1 << w) - 1)
    if not (hi_(a) >> (w-1)) and not (hi_(b) >> (w-1)): return urem(a, b, w)
    return mk('srem', (a, b), w)

def and_(a, b, w):
    A = isinstance(a, Term); B = isinstance(b, Term)
    m = (1 << w) - 1
    if not A and not B: return a & b
    if not A: a, b, A, B = b, a, B, A
    if a is b: return a
    if not B:
        if b == 0: return 0
        if b == m: return a
        if b & (b+1) == 0:   # low mask
            k = b.bit_length()
            if a.hi <= b: return a
            return zext(extract(a, k-1, 0), k, w)
        if a.hi & b == 0 and a.hi < (b & -b): return 0
        # contiguous mask
        t = (b & -b).bit_length() - 1
        if ((b >> t) & ((b >> t) + 1)) == 0:
            k = b.bit_length()
            return shl(zext(extract(a, k-1, t), k-t, w), t, w)
    elif a.id > b.id: a, b = b, a
    return mk('and', (a, b), w, 0, min(hi_(a), hi_(b)), max(tz_(a), tz_(b)) if max(tz_(a), tz_(b)) < w else 0)

def or_(a, b, w):
    A = isinstance(a, Term); B = isinstance(b, Term)
    m = (1 << w) - 1
    if not A and not B: return a | b
    if not A: a, b, A, B = b, a, B, A
    if a is b: return a
    if not B:
        if b == 0: return a
        if b == m: return m
    elif a.id > b.id: a, b = b, a
    # disjoint -> add
    if tz_(a) >= hi_(b).bit_length() or tz_(b) >= hi_(a).bit_length():
        # shape shl(zext(hi)),k | zext(lo) -> concat
        r = _try_concat(a, b, w)
        if r is not None: return r
        return add(a, b, w)
    hi = (1 << max(hi_(a).bit_length(), hi_(b).bit_length())) - 1
    return mk('or', (a, b), w, max(lo_(a), lo_(b)), hi, min(tz_(a), tz_(b)))

def _try_concat(a, b, w):
    if tz_(a) < tz_(b): a, b = b, a
    if isinstance(a, Term) and a.op == 'shl' and isinstance(a.args[0], Term):
        k = a.args[1]
        h = a.args[0]
        if hi_(b) < (1 << k):
            l = extract(b, k-1, 0)
            hh = extract(h, w-k-1, 0) if w-k < h.w or True else h
            if hi_(h) < (1 << (w-k)):
                return concat(hh, w-k, l, k)
    return None

def xor(a, b, w):
    A = isinstance(a, Term); B = isinstance(b, Term)
    m = (1 << w) - 1
    if not A and not B: return a ^ b
    if not A: a, b, A, B = b, a, B, A
    if a is b: return 0
    if not B:
        if b == 0: return a
        if a.op == 'xor' and not isinstance(a.args[1], Term): return xor(a.args[0], a.args[1] ^ b, w)
        if b == m:
            return mk('xor', (a, b), w, m - a.hi, m - a.lo)
    elif a.id > b.id: a, b = b, a
    hi = (1 << max(hi_(a).bit_length(), hi_(b).bit_length())) - 1
    return mk('xor', (a, b), w, 0, hi, min(tz_(a), tz_(b)))

def shl(a, b, w):
    if isinstance(b, Term):
        return mk('shlv', (a, b), w)
    if b >= w: return 0
    m = (1 << w) - 1
    if not isinstance(a, Term): return (a << b) & m
    if b == 0: return a
    if a.op == 'shl': return shl(a.args[0], a.args[1] + b, w)
    lo, hi = a.lo << b, a.hi << b
    if hi > m: lo, hi = 0, m & ~((1 << b) - 1)
    return mk('shl', (a, b), w, lo, hi, min(w, a.tz + b))

def lshr(a, b, w):
    if isinstance(b, Term):
        return mk('lshrv', (a, b), w, 0, hi_(a))
    if b >= w: return 0
    if not isinstance(a, Term): return a >> b
    if b == 0: return a
    if a.hi >> b == 0: return 0
    if a.op == 'shl' and a.args[1] == b and hi_(a.args[0]) < (1 << (w-b)): return a.args[0]
    return zext(extract(a, w-1, b), w-b, w)

def ashr(a, b, w):
    if isinstance(b, Term):
        if not (hi_(a) >> (w-1)): return lshr(a, b, w)
        return mk('ashrv', (a, b), w)
    if b >= w: b = w - 1
    if not isinstance(a, Term): return (sgn(a, w) >> b) & ((1 << w) - 1)
    if b == 0: return a
    if not (a.hi >> (w-1)): return lshr(a, b, w)
    return sext(extract(a, w-1, b), w-b, w)

def zext(a, fw, w):
    if fw == w or not isinstance(a, Term): return a
    if a.op == 'zext': return zext(a.args[0], a.args[0].w, w)
    return mk('zext', (a,), w, a.lo, a.hi, a.tz if a.tz < fw else 0)

def sext(a, fw, w):
    if fw == w: return a
    if not isinstance(a, Term): return sgn(a, fw) & ((1 << w) - 1)
    if not (a.hi >> (fw-1)): return zext(a, fw, w)
    if a.op == 'sext': return sext(a.args[0], a.args[0].w, w)
    return mk('sext', (a,), w)

def extract(a, h, l):
    """bits h..l"""
    w = h - l + 1
    if not isinstance(a, Term): return (a >> l) & ((1 << w) - 1)
    if l == 0 and w == a.w: return a
    if a.hi >> l == 0: return 0
    op = a.op
    if op == 'extract': return extract(a.args[0], a.args[2] + h, a.args[2] + l)
    if op == 'zext':
        b = a.args[0]
        if l >= b.w: return 0
        if h < b.w: return extract(b, h, l)
        return zext(extract(b, b.w-1, l), b.w-l, w)
    if op == 'sext':
        b = a.args[0]
        if h < b.w: return extract(b, h, l)
        if l == 0: return sext(b, b.w, w)
        if l < b.w: return sext(extract(b, b.w-1, l), b.w-l, w)
    if op == 'concat':
        hi, lo, lw = a.args[0], a.args[1], a.args[2]
        if h < lw: return extract(lo, h, l)
        if l >= lw: return extract(hi, h-lw, l-lw)
        return concat(extract(hi, h-lw, 0), h-lw+1, extract(lo, lw-1, l), lw-l)
    if op == 'shl':
        k = a.args[1]
        if l >= k: return extract(a.args[0], h-k, l-k)
        if h < k: return 0
    if l == 0 and op in ('add', 'sub', 'mul') and 0:
        pass
    if op in ('and', 'or', 'xor') and (not isinstance(a.args[1], Term)):
        f = {'and': and_, 'or': or_, 'xor': xor}[op]
        return f(extract(a.args[0], h, l), extract(a.args[1], h, l), w)
    if op == 'ite':
        if not isinstance(a.args[1], Term) or not isinstance(a.args[2], Term):
            return ite(a.args[0], extract(a.args[1], h, l), extract(a.args[2], h, l), w)
    if l == 0 and a.hi < (1 << w):
        return mk('extract', (a, h, l), w, a.lo, a.hi, min(a.tz, w))
    lo, hi = 0, (1 << w) - 1
    if (a.hi >> l) <= hi:
        lo, hi = a.lo >> l, a.hi >> l
    return mk('extract', (a, h, l), w, lo, hi, max(0, min(a.tz - l, w)))

def trunc(a, w): return extract(a, w-1, 0)

def concat(hi, hw, lo, lw):
    H = isinstance(hi, Term); L = isinstance(lo, Term)
    if not H and not L: return (hi << lw) | lo
    if not H and hi == 0: return zext(lo, lw, hw + lw)
    if H and L:
        if hi.op == 'extract' and lo.op == 'extract' and hi.args[0] is lo.args[0] and hi.args[2] == lo.args[1] + 1:
            return extract(hi.args[0], hi.args[1], lo.args[2])
        if hi.op == 'concat' : # right-assoc normal form
            h2, l2, lw2 = hi.args
            x = concat(l2, lw2, lo, lw)
            if not (isinstance(x, Term) and x.op == 'concat' and x.args[2] == lw):
                return concat(h2, hw - lw2, x, lw2 + lw)
        if lo.op == 'zext' or lo.op == 'extract' or True:
            if lo.op == 'concat':
                h2, l2, lw2 = lo.args
                x = concat(hi, hw, h2, lw - lw2)
                if not (isinstance(x, Term) and x.op == 'concat'):
                    return concat(x, hw + lw - lw2, l2, lw2)
        if hi.op == 'sext': pass
    if H and hi.op == 'zext' :
        b = hi.args[0]
        return zext(concat(b, b.w, lo, lw), b.w + lw, hw + lw)
    if H and L and hi.op == 'zext': pass
    if H and L and lo.op == 'extract' and lo.args[2] == 0 and hi.op == 'extract' and hi.args[0] is lo.args[0]: pass
    return mk('concat', (hi, lo, lw), hw + lw, (lo_(hi) << lw) + lo_(lo), (hi_(hi) << lw) + hi_(lo), tz_(lo) if tz_(lo) < lw else 0)

def not_(c):
    if not isinstance(c, Term): return 1 - c
    if c.op == 'not': return c.args[0]
    if c.op == 'ult': return ule(c.args[1], c.args[0])
    if c.op == 'ule': return ult(c.args[1], c.args[0])
    if c.op == 'xor' and c.w == 1 and c.args[1] == 1: return c.args[0]
    return mk('not', (c,), 1)

def width(a, b): return a.w if isinstance(a, Term) else b.w

def eq(a, b):
    A = isinstance(a, Term); B = isinstance(b, Term)
    if not A and not B: return 1 if a == b else 0
    if a is b: return 1
    if hi_(a) < lo_(b) or hi_(b) < lo_(a): return 0
    if not A: a, b, A, B = b, a, B, A
    if not B:
        if a.w == 1: return a if b == 1 else not_(a)
        if a.op == 'zext':
            return eq(a.args[0], b) if b >> a.args[0].w == 0 else 0
        if a.op == 'ite':
            x, y = a.args[1], a.args[2]
            if not isinstance(x, Term) or not isinstance(y, Term):
                return ite(a.args[0], eq(x, b), eq(y, b), 1)
        if a.op == 'add' and not isinstance(a.args[1], Term):
            return eq(a.args[0], (b - a.args[1]) & ((1 << a.w) - 1))
        if a.op == 'xor' and not isinstance(a.args[1], Term):
            return eq(a.args[0], b ^ a.args[1])
        if a.op == 'concat':
            return band(eq(a.args[0], b >> a.args[2]), eq(a.args[1], b & ((1 << a.args[2]) - 1)))
    elif a.id > b.id: a, b = b, a
    if B and a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w: return eq(a.args[0], b.args[0])
    return mk('eq', (a, b), 1)

def ult(a, b):
    A = isinstance(a, Term); B = isinstance(b, Term)
    if not A and not B: return 1 if a < b else 0
    if a is b: return 0
    if hi_(a) < lo_(b): return 1
    if lo_(a) >= hi_(b): return 0
    if B and not A and b.op == 'zext' and a >> b.args[0].w == 0: return ult(a, b.args[0])
    if A and not B and a.op == 'zext': return ult(a.args[0], b)
    return mk('ult', (a, b), 1)

def ule(a, b):
    A = isinstance(a, Term); B = isinstance(b, Term)
    if not A and not B: return 1 if a <= b else 0
    if a is b: return 1
    if hi_(a) <= lo_(b): return 1
    if lo_(a) > hi_(b): return 0
    return mk('ule', (a, b), 1)

def slt(a, b, w):
    A = isinstance(a, Term); B = isinstance(b, Term)
    if not A and not B: return 1 if sgn(a, w) < sgn(b, w) else 0
    if a is b: return 0
    if not (hi_(a) >> (w-1)) and not (hi_(b) >> (w-1)): return ult(a, b)
    return mk('slt', (a, b), 1)

def sle(a, b, w):
    A = isinstance(a, Term); B = isinstance(b, Term)
    if not A and not B: return 1 if sgn(a, w) <= sgn(b, w) else 0
    if a is b: return 1
    if not (hi_(a) >> (w-1)) and not (hi_(b) >> (w-1)): return ule(a, b)
    return mk('sle', (a, b), 1)

def band(a, b): return and_(a, b, 1)
def bor(a, b):
    if not isinstance(a, Term): return 1 if a else b
    if not isinstance(b, Term): return 1 if b else a
    return or_(a, b, 1)

def ite(c, a, b, w):
    if not isinstance(c, Term): return a if c else b
    if a is b or (not isinstance(a, Term) and not isinstance(b, Term) and a == b): return a
    if c.op == 'not': return ite(c.args[0], b, a, w)
    if w == 1 and not isinstance(a, Term) and not isinstance(b, Term):
        return c if a else not_(c)
    if isinstance(a, Term) and a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if isinstance(b, Term) and b.op == 'ite' and b.args[0] is c: b = b.args[2]
    return mk('ite', (c, a, b), w, min(lo_(a), lo_(b)), max(hi_(a), hi_(b)), min(tz_(a), tz_(b), w))

def bswap(a, w):
    n = w // 8
    r = 0; rw = 0
    for i in range(n):   # byte i of a becomes byte n-1-i
        byte = extract(a, 8*i+7, 8*i)
        r = byte if rw == 0 else concat(r, rw, byte, 8)
        rw += 8
    return r

# ---------------------------------------------------------------- z3 backend
class Z3:
    def __init__(s):
        import z3
        s.z3 = z3
        s.memo = {}
        s.vars = {}
    def var(s, name, w):
        v = s.vars.get(name)
        if v is None: v = s.vars[name] = s.z3.BitVec(name, w)
        return v
    def bv(s, t, w):
        if not isinstance(t, Term): return s.z3.BitVecVal(t, w)
        return s.conv(t)
    def conv(s, t):
        st = [t]
        memo = s.memo
        while st:
            x = st[-1]
            if x.id in memo: st.pop(); continue
            todo = [a for a in x.args if isinstance(a, Term) and a.id not in memo]
            if todo: st.extend(todo); continue
            memo[x.id] = s.conv1(x)
            st.pop()
        return memo[t.id]
    def conv1(s, t):
        z3 = s.z3
        op = t.op; a = t.args; w = t.w
        b2v = lambda c: z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == 'var': return s.var(a[0], w)
        if op == 'uf':
            f = z3.Function(a[0], *([z3.BitVecSort(x.w if isinstance(x, Term) else 64) for x in a[1:]] + [z3.BitVecSort(w)]))
            return f(*[s.bv(x, x.w if isinstance(x, Term) else 64) for x in a[1:]])
        if op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor', 'shlv', 'lshrv', 'ashrv'):
            x = s.bv(a[0], w); y = s.bv(a[1], w)
            return {'add': lambda: x+y, 'sub': lambda: x-y, 'mul': lambda: x*y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
                    'sdiv': lambda: x/y, 'srem': lambda: z3.SRem(x, y), 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                    'shlv': lambda: x << y, 'lshrv': lambda: z3.LShR(x, y), 'ashrv': lambda: x >> y}[op]()
        if op == 'shl': return s.bv(a[0], w) << a[1]
        if op == 'zext': return z3.ZeroExt(w - a[0].w, s.memo[a[0].id])
        if op == 'sext': return z3.SignExt(w - a[0].w, s.memo[a[0].id])
        if op == 'extract': return z3.Extract(a[1], a[2], s.memo[a[0].id])
        if op == 'concat': return z3.Concat(s.bv(a[0], w - a[2]), s.bv(a[1], a[2]))
        if op == 'not': return ~s.memo[a[0].id]
        if op in ('eq', 'ult', 'ule', 'slt', 'sle'):
            ww = width(a[0], a[1])
            x = s.bv(a[0], ww); y = s.bv(a[1], ww)
            return b2v({'eq': lambda: x == y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y}[op]())
        if op == 'ite': return z3.If(s.memo[a[0].id] == 1, s.bv(a[1], w), s.bv(a[2], w))
        raise NotImplementedError('z3 ' + op)
    def boolean(s, t):
        if not isinstance(t, Term): return s.z3.BoolVal(bool(t))
        return s.conv(t) == 1

def evaluate(t, env, memo=None):
    """concrete evaluation of a term under env: var name -> int"""
    if not isinstance(t, Term): return t
    memo = {} if memo is None else memo
    st = [t]
    while st:
        x = st[-1]
        if x.id in memo: st.pop(); continue
        todo = [a for a in x.args if isinstance(a, Term) and a.id not in memo]
        if todo: st.extend(todo); continue
        A = [memo[a.id] if isinstance(a, Term) else a for a in x.args]
        memo[x.id] = _ev(x, A, env)
        st.pop()
    return memo[t.id]

def _ev(x, A, env):
    op = x.op; w = x.w
    if op == 'var': return env[A[0]]
    if op == 'add': return add(A[0], A[1], w)
    if op == 'sub': return sub(A[0], A[1], w)
    if op == 'mul': return mul(A[0], A[1], w)
    if op == 'udiv': return A[0] // A[1] if A[1] else (1 << w) - 1
    if op == 'urem': return A[0] % A[1] if A[1] else A[0]
    if op == 'sdiv': return sdiv(A[0], A[1], w) if A[1] else 0
    if op == 'srem': return srem(A[0], A[1], w) if A[1] else A[0]
    if op == 'and': return A[0] & A[1]
    if op == 'or': return A[0] | A[1]
    if op == 'xor': return A[0] ^ A[1]
    if op in ('shl', 'shlv'): return shl(A[0], A[1], w)
    if op == 'lshrv': return lshr(A[0], A[1], w)
    if op == 'ashrv': return ashr(A[0], A[1], w)
    if op == 'zext': return A[0]
    if op == 'sext': return sext(A[0], x.args[0].w, w)
    if op == 'extract': return extract(A[0], A[1], A[2])
    if op == 'concat': return (A[0] << A[2]) | A[1]
    if op == 'not': return 1 - A[0]
    if op == 'eq': return int(A[0] == A[1])
    if op == 'ult': return int(A[0] < A[1])
    if op == 'ule': return int(A[0] <= A[1])
    if op in ('slt', 'sle'):
        ww = width(*x.args)
        p, q = sgn(A[0], ww), sgn(A[1], ww)
        return int(p < q) if op == 'slt' else int(p <= q)
    if op == 'ite': return A[1] if A[0] else A[2]
    raise NotImplementedError(op)
