"""C04: binary tower fields."""
import re
from tvc.suite import Suite
from tvc.bv import *
from tvc import terms as T
from tvc.terms import Term
from tvc.engine import Unsupported
S = Suite('C04', 'proof', handlers=lambda: [], trusted=['absl::SimpleAtoi / SimpleHexAtoi and GMP text conversion (executed natively, not verified)'],
  assumptions=['field theory: X^2 + aX + 1 is irreducible at every tower level, so the norm x0^2 + a x0 x1 + x1^2 vanishes only at zero (checked numerically for the 8-bit levels)'])
S.h('binfield')
# ---- independent specification: X_0^2 = X_0 + 1, X_k^2 = X_{k-1} X_k + 1 (Wiedemann tower), elements as integers
def mul(a, b, w):
    if a == 0 or b == 0: return 0
    if w == 1: return a & b
    h = w >> 1; m = (1 << h) - 1
    a0, a1, b0, b1 = a & m, a >> h, b & m, b >> h
    z1 = mul(a1, b1, h)
    lo = mul(a0, b0, h) ^ z1
    hi = mul(a0, b1, h) ^ mul(a1, b0, h) ^ mul(z1, gen_(h), h)
    return hi << h | lo
def gen_(w): return 1 << (w >> 1) if w > 1 else 1     # X of level w
TAB8 = {}
for _a in range(256):
    for _b in range(_a, 256): TAB8[_a, _b] = TAB8[_b, _a] = mul(_a, _b, 8)
_mul = mul
def mul(a, b, w):
    if w <= 8: return TAB8[a, b]
    if a == 0 or b == 0: return 0
    h = w >> 1; m = (1 << h) - 1
    a0, a1, b0, b1 = a & m, a >> h, b & m, b >> h
    z0 = mul(a0, b0, h); z1 = mul(a1, b1, h)
    z2 = mul(a0 ^ a1, b0 ^ b1, h) ^ z0 ^ z1
    return (z2 ^ mul(z1, gen_(h), h)) << h | (z0 ^ z1)
def power(a, e, w):
    r = 1
    while e:
        if e & 1: r = mul(r, a, w)
        a = mul(a, a, w); e >>= 1
    return r
def inv(a, w): return power(a, (1 << w) - 2, w)
# ---- symbolic: sub-field operations by contract, values as linear combinations of opaque sub-field elements
UF = {}
def uf(op, w, *args):
    nm = op + '#' + '#'.join(str(a.id) if isinstance(a, Term) else 'c%x' % a for a in args)
    t = T.var(nm, w); UF[nm] = (op, args, t); return t
def handlers(sub):
    def hs():
        UF.clear()
        pre = r'tachyon::math::BinaryTowerOperations<tachyon::math::BinaryField<tachyon::math::BinaryField%dConfig>, void>::(Mul|Square|MulByAlpha|Inverse)\(' % sub
        w = sub
        def make(e, f, mt):
            k = mt.group(1)
            if k == 'Mul': return lambda e, a: uf('mul', w, *(sorted(a, key=lambda v: v.id if isinstance(v, Term) else -1 - v)))
            if k == 'Square': return lambda e, a: uf('mul', w, a[0], a[0])
            if k == 'MulByAlpha': return lambda e, a: uf('alpha', w, a[0])
            def h(e, a):
                sret = f.params[0][0].k == 'ptr'
                v = a[-1]
                if e.decide(T.eq(v, 0)):
                    t, has = 0, 0
                else: t, has = uf('inv', w, v), 1
                if sret:
                    e.mem.store(a[0], w // 8, t); e.mem.store(a[0] + w // 8, 1, has); return None
                if f.ret.k == 'struct': return [t, has]
                n = {16: 32, 8: 16, 32: 64}[w]
                return T.concat(has, n - w, t, w)
            return h
        return [(re.compile(pre), make)]
    return hs
def bits(t, w):
    """bits of a term as sets of (variable, bit) atoms over GF(2)"""
    memo = {}
    def go(t, w):
        if not isinstance(t, Term): return [frozenset() if not (t >> i) & 1 else frozenset([None]) for i in range(w)]
        if t.id in memo: return memo[t.id]
        o, a = t.op, t.args
        if o == 'var': r = [frozenset([(t.args[0], i)]) for i in range(t.w)]
        elif o == 'xor': r = [x ^ y for x, y in zip(go(a[0], w), go(a[1], w))]
        elif o in ('or', 'add'):
            r = []
            for x, y in zip(go(a[0], w), go(a[1], w)):
                if x and y: raise Unsupported('overlapping bits')
                r.append(x ^ y)
        elif o == 'and' and not isinstance(a[1], Term): r = [x if (a[1] >> i) & 1 else frozenset() for i, x in enumerate(go(a[0], w))]
        elif o == 'shl' and not isinstance(a[1], Term): r = ([frozenset()]*a[1] + go(a[0], w))[:w]
        elif o == 'lshr' and not isinstance(a[1], Term): r = (go(a[0], w) + [frozenset()]*a[1])[a[1]:]
        elif o == 'zext':
            x = a[0]; fw = x.w
            r = go(x, fw) + [frozenset()]*(w - fw)
        elif o == 'extract':
            x, h, l = a
            r = go(x, x.w)[l:h+1]
        elif o == 'concat':
            lw = a[3] if len(a) == 4 else None
            hi, lo = (a[0], a[2]) if len(a) == 4 else (a[0], a[1])
            if lw is None: lw = lo.w if isinstance(lo, Term) else w - hi.w
            r = go(lo, lw) + go(hi, w - lw)
        else: raise Unsupported('operator %s in a tower value' % o)
        if len(r) != w: raise Unsupported('width of %s' % o)
        memo[t.id] = r
        return r
    return go(t, w)
def pmul(a, b):
    r = set()
    for x in a:
        for y in b: r ^= {tuple(sorted(x + y))}
    return frozenset(r)
class Sub:
    """polynomials over GF(2) in opaque sub-field elements"""
    def __init__(s, h, names): s.h = h; s.memo = {}; s.names = names
    def lin(s, bs):
        r = frozenset()
        for at in bs[0]:
            if at is None: raise Unsupported('constant bit')
            v, o = at
            r ^= s.var(v, o)
        for i in range(1, len(bs)):
            if frozenset((v, o - i) for v, o in bs[i]) != bs[0]: raise Unsupported('bits are not a combination of whole elements')
        return r
    def var(s, v, o):
        if v in UF:
            if o: raise Unsupported('offset into a value')
            return s.val(v)
        k = s.names.get((v, o))
        if k is None: raise Unsupported('bit %d of %s is no element boundary' % (o, v))
        return frozenset([(k,)])
    def val(s, v):
        r = s.memo.get(v)
        if r is None:
            op, a, t = UF[v]
            A = [s.el(x) for x in a]
            r = pmul(A[0], A[1]) if op == 'mul' else pmul(A[0], frozenset([('al',)])) if op == 'alpha' else frozenset([('inv' + v,)])
            s.memo[v] = r
        return r
    def el(s, t):
        if not isinstance(t, Term):
            if t == 0: return frozenset()
            if t == 1: return frozenset([()])
            raise Unsupported('constant element')
        return s.lin(bits(t, s.h))
def prog(x, w, ws):
    """(reader of a value as (lo, hi) polynomials, polynomial variables of the inputs)"""
    h = w >> 1; names = {}; inp = {}
    for a in ('a', 'b'):
        t = getattr(x, a, None)
        if t is None: continue
        t = t if isinstance(t, list) else [t]
        for half in (0, 1):
            bitpos = half * h
            names[t[bitpos // ws].args[0], bitpos % ws] = a + str(half)
        inp[a] = (frozenset([(a + '0',)]), frozenset([(a + '1',)]))
    sb = Sub(h, names)
    def rd(o):
        o = o if isinstance(o, list) else [o]
        bs = []
        for v in o: bs += bits(v, ws)
        return sb.lin(bs[:h]) if any(bs[:h]) else frozenset(), sb.lin(bs[h:]) if any(bs[h:]) else frozenset()
    return sb, rd, inp
AL = frozenset([('al',)])
def tmul(a, b):
    z = pmul(a[1], b[1])
    return (pmul(a[0], b[0]) ^ z, pmul(a[0], b[1]) ^ pmul(a[1], b[0]) ^ pmul(AL, z))
def word(v): return v if isinstance(v, int) else sum(q << (64*i) for i, q in enumerate(v))
def edge(rng, w):
    k = rng.random(); m = (1 << w) - 1
    if k < .45: return rng.getrandbits(w)
    if k < .65: return rng.choice([0, 1, 2, 3, m, m ^ 1, 1 << (w - 1), gen_(w), gen_(w) | 1, m >> 1]) & m
    if k < .8: return (1 << rng.randrange(w))
    if k < .9: return rng.getrandbits(w) & (m >> (w // 2)) if w > 1 else 1
    return rng.getrandbits(w) & (m << (w // 2)) & m
def level(w):
    N = 'f%d' % w
    ws = 8 if w <= 8 else min(w, 64); nw = 2 if w == 128 else 1
    U = 'u%d' % ws + ('*2' if nw == 2 else ':' )[:2] if nw == 2 else 'u%d' % ws
    A = 'a:' + U; B = ' b:' + U; R = ' r:' + U
    M = (1 << w) - 1
    def enc(v): return [v & (2**64-1), v >> 64] if nw == 2 else v
    H = handlers(w >> 1) if w >= 16 else (lambda: [])
    def c(fn, args, post, tag='', **k):
        k.setdefault('n', 150); k.setdefault('nt', 1500)
        if 'gen' not in k:
            def g(rng, i):
                a = edge(rng, w); r = {'a': enc(a)}
                if ' b:' in args: r['b'] = enc(a if rng.random() < .15 else edge(rng, w))
                if ' e:' in args:
                    e = rng.choice([0, 1, 2, 3, M, M - 1, M - 2 if w > 1 else 0, rng.getrandbits(128), rng.getrandbits(64), 2**64, rng.getrandbits(8), (1 << w) & (2**128 - 1)]) & (2**128-1)
                    r['e'] = [e & (2**64-1), e >> 64]
                return r
            k['gen'] = g
        if w < 8 and 'pre' not in k:
            def pre(x):
                for nm in ('a', 'b'):
                    if hasattr(x, nm):
                        v = getattr(x, nm)
                        if x.sym: x.assume(T.ule(v, M))
                        elif v > M: return False
            k['pre'] = pre
        return S.c(('BinaryField%d %s %s' % (w, fn, tag)).strip(), 'binfield', N + '_' + fn, args, post, **k)
    def V(v): return cat(v, ws)
    def eqv(x, got, want, label=None): x.true(got.eq(want), label)
    # additive structure: bit-vector equations
    for fn in ('add', 'addi', 'sub', 'subi'): c(fn, A + B + ' ->' + R, lambda x: eqv(x, V(x.r), V(x.a) ^ V(x.b)))
    for fn in ('neg', 'negi'): c(fn, A + ' ->' + R, lambda x: eqv(x, V(x.r), V(x.a)))
    for fn in ('dbl', 'dbli'): c(fn, A + ' ->' + R, lambda x: eqv(x, V(x.r), BV(0, V(x.a).w)))
    def cmp(x):
        a, b = V(x.a), V(x.b)
        for i, q in enumerate((a.eq(b), not_(a.eq(b)), a.ult(b), b.ult(a), a.ule(b), b.ule(a))):
            eqv(x, BV(x.ret, 64).bit(i), b2v(q, 1), ('==', '!=', '<', '>', '<=', '>=')[i])
    c('cmp', A + B + ' ->', cmp)
    def pred(x):
        a = V(x.a)
        for i, q in enumerate((a.eq(0), a.eq(1), a.eq(1))): eqv(x, BV(x.ret, 64).bit(i), b2v(q, 1), ('IsZero', 'IsOne', 'IsMinusOne')[i])
    c('pred', A + ' ->', pred)
    def const(x):
        r = x.r
        for i, v in ((0, 0), (2, 1), (4, 1)):
            x.eq(r[i], v, ('Zero', 'One', 'MinusOne')[i >> 1])
            if nw == 2: x.eq(r[i+1], 0, 'high limb')
    c('const', '-> r:u%d*6' % ws, const, gen=lambda rng, i: {})
    def big(x):
        eqv(x, cat(x.r, 64), V(x.a).ext(128), 'ToBigInt'); eqv(x, V(x.s), V(x.a), 'FromBigInt(ToBigInt)')
    c('big', A + ' -> r:u64*2 s:' + U, big)
    # multiplicative structure
    def mulpost(kind):
        def post(x):
            if not x.sym:
                a = word(x.a); b = word(getattr(x, 'b', 0)); r = word(x.r)
                want = mul(a, b, w) if kind == 'mul' else mul(a, a, w) if kind == 'sq' else mul(a, gen_(w), w)
                x.eq(r, want); return
            sb, rd, inp = prog(x, w, ws)
            lo, hi = rd(x.r); a = inp['a']
            want = tmul(a, inp['b']) if kind == 'mul' else tmul(a, a) if kind == 'sq' else tmul(a, (frozenset(), frozenset([()])))
            x.true(lo == want[0], 'low coefficient'); x.true(hi == want[1], 'high coefficient')
        return post
    kd = dict(handlers=H) if w >= 16 else dict(sym=False, whynot='table lookups: decided by complete enumeration of the operands below')
    for fn in ('mul', 'mulop', 'muli'): c(fn, A + B + ' ->' + R, mulpost('mul'), **kd)
    c('mulself', A + ' ->' + R, mulpost('sq'), **kd)
    for fn in ('sq', 'sqi'): c(fn, A + ' ->' + R, mulpost('sq'), **kd)
    c('alpha', A + ' ->' + R, mulpost('alpha'), **kd)
    def invpost(x):
        ok = x.ret & 1 if isinstance(x.ret, int) else x.ret
        if not x.sym:
            a = word(x.a); r = word(x.r)
            x.eq(x.ret, int(a != 0), 'fails exactly on zero')
            if a: x.eq(r, inv(a, w), 'inverse')
            return
        sb, rd, inp = prog(x, w, ws)
        a = inp['a']; d = pmul(a[0], a[0]) ^ pmul(AL, pmul(a[0], a[1])) ^ pmul(a[1], a[1])
        invs = [(v, q) for v, q in UF.items() if q[0] == 'inv']
        if not invs:
            # failing path: the value tested for zero is the norm
            conds = [cc for cc, v in x.eng.pc if isinstance(cc, Term) and cc.op == 'eq']
            x.true(len(conds) >= 1, 'fails only on zero norm')
            for cc in conds: x.true(sb.el(cc.args[0] if isinstance(cc.args[0], Term) else cc.args[1]) == d, 'fails only on zero norm')
            x.eq(x.ret, 0, 'reports failure'); return
        x.true(len(invs) == 1, 'one inversion')
        v, q = invs[0]
        x.true(sb.el(q[1][0]) == d, 'inverts the norm')
        x.eq(x.ret, 1, 'reports success')
        p = tmul(a, rd(x.r)); iv = frozenset([('inv' + v,)])
        x.true(p[0] == pmul(iv, d), 'product with the operand is 1'); x.true(p[1] == frozenset(), 'product with the operand is 1')
    c('inv', A + ' ->' + R, invpost, **kd)
    def invi(x):
        invpost(x)
        if not x.sym and word(x.a) == 0: x.eq(word(x.r), 0, 'operand unchanged on failure')
    c('invi', A + ' ->' + R, invi, **kd)
    def div(x):
        a, b = word(x.a), word(x.b)
        x.eq(x.ret, int(b != 0), 'fails exactly on zero divisor')
        if b: x.eq(word(x.r), mul(a, inv(b, w), w))
    c('div', A + B + ' ->' + R, div, sym=False, whynot='composition of Inverse and Mul, bounded', n=100)
    def pw(x):
        x.eq(word(x.r), power(word(x.a), word(x.e), w))
    c('pow', A + ' e:u64*2 ->' + R, pw, sym=False, whynot='loop over 128 exponent bits, bounded', n=60)
    def bat(n):
        def gen(rng, i): 
            vs = [enc(rng.choice([0, edge(rng, w), edge(rng, w)])) for _ in range(n)]
            return {'a': sum(vs, []) if nw == 2 else vs, 'c': enc(rng.choice([0, 1, edge(rng, w)]))}
        def post(x):
            v = x.a if isinstance(x.a, list) else [x.a]; r = x.r if isinstance(x.r, list) else [x.r]
            if nw == 2: v = [v[2*i] | v[2*i+1] << 64 for i in range(n)]; r = [r[2*i] | r[2*i+1] << 64 for i in range(n)]
            x.eq(x.ret, 1, 'succeeds')
            for i in range(n): x.eq(r[i], mul(word(x.c), inv(v[i], w), w) if v[i] else 0, 'entry %d' % i)
        k = 'u%d*%d' % (ws, n * nw)
        S.c('BinaryField%d batch inverse of %d' % (w, n), 'binfield', N + '_batch', 'a:%s n:u64 c:%s -> r:%s' % (k, U, k), post, gen=gen, fix={'n': [n]}, sym=False, n=40, whynot='bounded')
    for n in (1, 2, 5): bat(n)
    # text
    def strp(x):
        a = word(x.a)
        d = bytes(x.r).split(b'\0')[0].decode(); h = bytes(x.h).split(b'\0')[0].decode()
        x.true(d == str(a), 'decimal text %s' % d)
        x.true(h.startswith('0x') and h[2:].lower() == h[2:] and int(h, 16) == a, 'hexadecimal text %s' % h)
        x.eq(x.ret, 1, 'text reads back')
        s = x.s; x.eq(word(s[:nw]) if nw == 2 else s[0], a, 'decimal round trip'); x.eq(word(s[2:2+nw]) if nw == 2 else s[2], a, 'hexadecimal round trip')
        x.true(x.pad or len(h) <= 2 + max(1, (a.bit_length() + 3) // 4) , 'no padding unless asked')
    c('str', A + ' pad:u64 -> r:u8*48 h:u8*48 s:u%d*4' % ws, strp, sym=False, whynot='text conversion, bounded', gen=lambda rng, i: dict(a=enc(edge(rng, w)), pad=rng.randrange(2)))
    def parse_gen(rng, i):
        hexa = rng.randrange(2)
        v = rng.choice([edge(rng, w), M, M + 1, M + 2, 2*M + 1, rng.getrandbits(w + 3), 1 << 32, 1 << 64, (1 << 32) | edge(rng, min(w, 31)), (1 << 64) | edge(rng, w)])
        t = ('0x%x' if rng.randrange(2) else '%x') % v if hexa else str(v)
        k = rng.random()
        if k < .15: t = rng.choice(['', 'g', '-1', '0x', '1g', 'x1', '+', '--1', '12z'])
        b = t.encode()[:48]
        return dict(t=list(b) + [0]*(48 - len(b)), n=len(b), hex=hexa)
    def parse(x):
        t = bytes(x.t[:x.n]).decode()
        s = t[2:] if x.hex and t[:2] in ('0x', '0X') else t
        good = bool(re.fullmatch('[0-9a-fA-F]+' if x.hex else '[0-9]+', s))
        if not good:
            if s in ('', 'g', '-1', '1g', 'x1', '+', '--1', '12z', '0x') : x.eq(x.ret, 0, 'refuses %r' % t)
            return
        v = int(s, 16 if x.hex else 10)
        x.eq(x.ret, int(v <= M), 'accepts exactly the values of the field')
        if v <= M: x.eq(word(x.r), v, 'value')
    c('parse', 't:u8*48 n:u64 hex:u64 ->' + R, parse, sym=False, whynot='text conversion, bounded', gen=parse_gen)
    if w >= 16:
        h = w >> 1; hs = 8 if h <= 8 else min(h, 64)
        def dec(x):
            a = V(x.a).bits(w - 1, 0)
            eqv(x, BV(x.r[0], hs), a.bits(h-1, 0), 'low part'); eqv(x, BV(x.r[1], hs), a.bits(w-1, h), 'high part'); eqv(x, V(x.s), V(x.a), 'Compose(Decompose)')
        c('dec', A + ' -> r:u%d*2 s:%s' % (hs, U), dec)
    else:
        # complete enumeration: every pair of operands
        K = 1 << w
        for a in range(K):
            def post(x, a=a):
                r = x.r if isinstance(x.r, list) else [x.r]
                for b in range(K): x.eq(r[b], TAB8[a, b], '%d * %d' % (a, b))
            S.c('BinaryField%d complete row %d' % (w, a), 'binfield', N + '_row', 'a:u8 -> r:u8*%d' % K, post, fix={'a': [a]}, n=1, nt=1)
        def colp(x):
            for b in range(K):
                x.eq(x.s[b], TAB8[b, b], 'square %d' % b); x.eq(x.l[b], TAB8[b, gen_(w)], 'alpha %d' % b); x.eq(x.v[b], inv(b, w) if b else 0, 'inverse %d' % b)
        S.c('BinaryField%d complete squares, alpha, inverses' % w, 'binfield', N + '_col', '-> s:u8*%d l:u8*%d v:u8*%d' % (K, K, K), colp, n=1, nt=1)
for w in (1, 2, 4, 8, 16, 32, 64, 128): level(w)
