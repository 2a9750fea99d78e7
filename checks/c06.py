"""C06: big integers and word arithmetic are exact integer arithmetic."""
from tvc.suite import Suite
from tvc.bv import *
from tvc.zrun import zprove
from tvc import terms as T
S = Suite('C06', 'proof', handlers=lambda: [])
S.h('bigint')
def W(v): return cat(v, 64)
def eqv(x, got, want, label=None): x.true(got.eq(want), label)
def signed(v, w=64): return v - (1 << w) if v >> (w - 1) else v
def edge(rng, bits):
    k = rng.random()
    if k < .35: return rng.getrandbits(bits)
    if k < .5: return rng.choice([0, 1, 2, 3, (1 << bits) - 1, (1 << bits) - 2, 1 << (bits-1), (1 << (bits-1)) - 1, (1 << bits) - 3])
    if k < .75: return rng.getrandbits(rng.randrange(1, bits + 1))
    v = 0
    for i in range(0, bits, 64): v |= rng.choice([0, 1, 2**64-1, 2**63, rng.getrandbits(64)]) << i
    return v
def limbs(v, N): return [(v >> 64*i) & (2**64-1) for i in range(N)]
def sizes(N):
    B = 64 * N
    def c(fn, args, post, **k):
        k.setdefault('n', 120)
        if 'gen' not in k:
            def gen(rng, i):
                a = edge(rng, B); b = edge(rng, B)
                j = rng.random()
                if j < .12: b = a
                elif j < .2: b = (a + rng.choice([1, -1, 1 << rng.randrange(B), -(1 << rng.randrange(B))])) % (1 << B)
                elif j < .25: b = (-a) % (1 << B)
                r = {'a': limbs(a, N)}
                if ' b:' in args: r['b'] = limbs(b, N)
                return r
            k['gen'] = gen
        return S.c('BigInt<%d> %s' % (N, fn), 'bigint', 'b%d_%s' % (N, fn), args.replace('*2N', '*%d' % (2*N)).replace('*3N', '*%d' % (3*N)).replace('*8N', '*%d' % (8*N)).replace('*N', '*%d' % N), post, **k)
    AB = 'a:u64*N b:u64*N -> r:u64*N'; A = 'a:u64*N -> r:u64*N'
    def carry(x, wide): eqv(x, W(x.r), wide.ext(B), 'low part'); eqv(x, BV(x.ret, 64), wide.bits(B, B).ext(64), 'carry')
    Z = dict(run=zprove, zpre={'a': 1 << B, 'b': 1 << B}, znum={'r'})
    for s in ('', 'i'):
        c('add' + s, AB, lambda x: eqv(x, W(x.r), W(x.a) + W(x.b)))
        c('sub' + s, AB, lambda x: x.congruent(x.r, x.a - x.b, 1 << B), **Z)
        c('dbl' + s, A, lambda x: eqv(x, W(x.r), W(x.a) << 1))
        c('add' + s + 'c', AB, lambda x: carry(x, W(x.a).ext(B+1) + W(x.b).ext(B+1)))
        c('sub' + s + 'c', AB, lambda x: x.eq(x.r, (x.ret * (1 << B) if not x.sym else x.Z.val(x.ret) * (1 << B)) + (x.a - x.b)), **Z)
        c('dbl' + s + 'c', A, lambda x: carry(x, W(x.a).ext(B+1) << 1))
    c('adda', A, lambda x: carry(x, W(x.a).ext(B+1) << 1))
    c('half', A, lambda x: eqv(x, W(x.r), W(x.a) >> 1))
    for f, op in (('shl', lambda a, n: a << n), ('shr', lambda a, n: a >> n)):
        for s in ('', 'i'):
            def gen(rng, i): return dict(a=limbs(edge(rng, B), N), n=rng.choice([0, 1, 63, 64, 65, B-1, B, B+1, 2**32-1, rng.randrange(B)]))
            def sh(x, op=op):
                n = x.n if isinstance(x.n, int) else BV(x.n, 32).ext(B)
                eqv(x, W(x.r), op(W(x.a), n))
            c(f + s, 'a:u64*N n:u32 -> r:u64*N', sh, gen=gen)
    for f, op in (('and', lambda a, b: a & b), ('or', lambda a, b: a | b), ('xor', lambda a, b: a ^ b)):
        c(f, 'a:u64*N b:u64*N -> r:u64*2N', lambda x, op=op: (eqv(x, W(x.r[:N]), op(W(x.a), W(x.b))), eqv(x, W(x.r[N:]), op(W(x.a), W(x.b)), 'in place')))
    for f, op in (('eq', lambda a, b: a.eq(b)), ('ne', lambda a, b: not_(a.eq(b))), ('lt', lambda a, b: a.ult(b)), ('gt', lambda a, b: b.ult(a)), ('le', lambda a, b: a.ule(b)), ('ge', lambda a, b: b.ule(a))):
        c(f, 'a:u64*N b:u64*N -> ', lambda x, op=op: eqv(x, BV(x.ret, 64), b2v(op(W(x.a), W(x.b)), 64)))
    c('isz', 'a:u64*N -> ', lambda x: eqv(x, BV(x.ret, 64), b2v(W(x.a).eq(0), 64)))
    c('iso', 'a:u64*N -> ', lambda x: eqv(x, BV(x.ret, 64), b2v(W(x.a).eq(1), 64)), gen=lambda rng, i: dict(a=limbs(rng.choice([1, 1, 0, 2, 1 + (1 << rng.randrange(1, B))]), N)))
    c('par', 'a:u64*N -> ', lambda x: eqv(x, BV(x.ret, 64), (W(x.a).bit(0).ext(64) << 1) | (~W(x.a).bit(0)).ext(64)))
    c('ends', 'a:u64*N -> r:u64*4', lambda x: eqv(x, W(x.r), cat([x.a[0], x.a[0], x.a[N-1], x.a[N-1]], 64)))
    c('const', ' -> r:u64*3N', lambda x: eqv(x, W(x.r), BV((1 << B) | ((1 << B) - 1) << 2*B, 3*B)), n=1, gen=lambda r, i: {})
    c('mulx', 'a:u64*N b:u64*N -> r:u64*2N', lambda x: x.eq(x.r, x.a * x.b), **Z)
    c('mulw', 'a:u64*N b:u64*N -> r:u64*2N', lambda x: x.eq(x.r, x.a * x.b), **Z)
    for s in ('', 'i'):
        c('mul' + s, AB, lambda x: x.congruent(x.r, x.a * x.b, 1 << B), **Z)
    # division: quotient and remainder
    def dv(rng, i):
        b = edge(rng, rng.choice([B, B, 64, rng.randrange(1, B+1)]))
        a = rng.choice([edge(rng, B), b, (b - 1) % (1 << B), (b * rng.getrandbits(rng.randrange(1, B))) % (1 << B)])
        if i % 25 == 24: b = 0
        return dict(a=limbs(a, N), b=limbs(b, N))
    num = lambda v: sum(w << 64*i for i, w in enumerate(v))
    def div(x):
        a, b = num(x.a), num(x.b)
        x.eq(x.ret, int(b != 0), 'fails exactly for a zero divisor')
        if b: x.eq(num(x.q[:N]), a // b, 'quotient')
    c('div', 'a:u64*N b:u64*N -> q:u64*N', div, gen=dv, sym=False, n=150, whynot='64N-step long division')
    c('divi', 'a:u64*N b:u64*N -> q:u64*N', div, gen=dv, sym=False, n=150, whynot='64N-step long division')
    def mod(x):
        a, b = num(x.a), num(x.b)
        if b: x.eq(num(x.q[:N]), a % b, 'remainder'); x.eq(num(x.q[N:]), a % b, 'remainder in place')
    c('mod', 'a:u64*N b:u64*N -> q:u64*2N', mod, gen=dv, sym=False, n=150, whynot='64N-step long division')
    def divide(x):
        a, b = num(x.a), num(x.b)
        x.eq(x.ret, int(b != 0), 'fails exactly for a zero divisor')
        if b: x.eq(num(x.q[:N]), a // b, 'quotient'); x.eq(num(x.q[N:]), a % b, 'remainder')
    c('divide', 'a:u64*N b:u64*N -> q:u64*2N', divide, gen=dv, sym=False, n=150, whynot='64N-step long division')
    for w in (64, 32):
        def gen(rng, i, w=w):
            o = rng.choice([0, 1, w-1, w, w+1, B-w, B-1, rng.randrange(B)]) % B
            return dict(a=limbs(edge(rng, B), N), o=o, n=rng.choice([1, w-1, 13, rng.randrange(w)]))
        def pre(x, w=w):
            if not x.sym: return x.o < B and x.n < w
            x.assume(T.ult(x.o, B)); x.assume(T.ult(x.n, w))
        def ext(x, w=w):
            o = x.o if isinstance(x.o, int) else BV(x.o, 32).ext(B); n = x.n if isinstance(x.n, int) else BV(x.n, 32).ext(B)
            eqv(x, BV(x.ret, 64), ((W(x.a) >> o) & ((BV(1, B) << n) - 1)).ext(64))
        c('ext%d' % w, 'a:u64*N o:u32 n:u32 -> ', ext, pre=pre, gen=gen, n=250)
    c('extend', 'a:u64*N -> r:u64*%d' % (N+2), lambda x: eqv(x, W(x.r), W(x.a).ext(B + 128)))
    c('shrink', 'a:u64*%d -> r:u64*N' % (N+1), lambda x: eqv(x, W(x.r), W(x.a[:N])), gen=lambda rng, i: {})
    def bytes_(x):
        eqv(x, cat(x.l, 8), W(x.a), 'little endian'); eqv(x, cat(list(x.b)[::-1], 8), W(x.a), 'big endian')
    c('bytes', 'a:u64*N -> l:u8*8N b:u8*8N', bytes_)
    c('frombytes', 'a:u8*8N -> r:u64*2N', lambda x: (eqv(x, W(x.r[:N]), cat(x.a, 8)), eqv(x, W(x.r[N:]), cat(list(x.a)[::-1], 8), 'big endian')), gen=lambda rng, i: {})
    for k in (0, 1, 5, 8*N - 3, 8*N):
        def fbv(x, k=k):
            b = [v if i < k else 0 for i, v in enumerate(x.a)]
            eqv(x, W(x.r[:N]), cat(b, 8)); eqv(x, W(x.r[N:]), cat((list(x.a)[:k][::-1] + [0]*8*N)[:8*N], 8), 'big endian')
        c('frombytesv', 'n:u64 a:u8*8N -> r:u64*2N', fbv, fix={'n': [k]}, gen=lambda rng, i: {}, bound='byte strings of 0..8N bytes')
    NB = dict(sym=False, whynot='std::bitset: one branch per bit')
    def bits(M):
        def f(x):
            eqv(x, cat(x.l, 8), cat([W(x.a).bit(i).ext(8).v for i in range(M)], 8), 'little endian')
            eqv(x, cat(x.b, 8), cat([W(x.a).bit(M-1-i).ext(8).v for i in range(M)], 8), 'big endian')
        return f
    c('bits', 'a:u64*N -> l:u8*%d b:u8*%d' % (B, B), bits(B), **NB); c('bits70', 'a:u64*N -> l:u8*%d b:u8*%d' % (B-7, B-7), bits(B-7), **NB)
    c('frombits', 'a:u64*N -> r:u64*2N', lambda x: (eqv(x, W(x.r[:N]), W(x.a)), eqv(x, W(x.r[N:]), W(x.a), 'big endian')), **NB)
    c('frombits70', 'a:u64*N -> r:u64*2N', lambda x: (eqv(x, W(x.r[:N]), W(x.a) & ((1 << (B-7)) - 1)), eqv(x, W(x.r[N:]), W(x.a) & ((1 << (B-7)) - 1), 'big endian')), **NB)
    def naf(x):
        d = [signed(v, 8) for v in x.r]
        x.true(all(v in (-1, 0, 1) for v in d), 'digits'); x.eq(sum(v << i for i, v in enumerate(d)), num(x.a), 'value')
        x.true(all(not (d[i] and d[i+1]) for i in range(len(d)-1)), 'non-adjacent'); x.eq(x.ret, max([i + 1 for i, v in enumerate(d) if v], default=0), 'length')
    c('naf', 'a:u64*N -> r:u8*%d' % (B+1), naf, sym=False, whynot='64N data-dependent steps', n=150)
    for f, le, sk in (('itbe', 0, 0), ('itle', 1, 0), ('itbez', 0, 1), ('itlez', 1, 1)):
        def it(x, le=le, sk=sk):
            b = [(num(x.a) >> i) & 1 for i in range(B)] if not x.sym else [W(x.a).bit(i).ext(8).v for i in range(B)]
            if sk:
                while b and not b[-1]: b.pop()
            if not le: b = b[::-1]
            x.eq(x.ret, len(b), 'number of bits'); 
            if x.sym: eqv(x, cat(x.r, 8), cat(b, 8))
            else: x.eq(x.r, b + [0]*(B - len(b)))
        c(f, 'a:u64*N -> r:u8*%d' % B, it, sym=not sk, whynot='64N data-dependent steps' if sk else None)
    c('bit', 'a:u64*N i:u32 -> r:u64*N', lambda x: (eqv(x, W(x.r), W(x.a) ^ (BV(1, B) << (x.i if isinstance(x.i, int) else BV(x.i, 32).ext(B)))), eqv(x, BV(x.ret, 64), ((W(x.a) >> (x.i if isinstance(x.i, int) else BV(x.i, 32).ext(B))) & 1).ext(64))),
      pre=lambda x: (x.i < B) if not x.sym else x.assume(T.ult(x.i, B)), gen=lambda rng, i: dict(a=limbs(edge(rng, B), N), i=rng.randrange(B)))
    # text
    txt = lambda x: bytes(x.r[:x.ret]).decode('latin1')
    c('dec', 'a:u64*N -> r:u8*160', lambda x: x.eq(txt(x), str(num(x.a))), sym=False, whynot='GMP text conversion')
    c('hex', 'a:u64*N -> r:u8*160', lambda x: x.eq(txt(x), hex(num(x.a))), sym=False, whynot='GMP text conversion')
    c('hexp', 'a:u64*N -> r:u8*160', lambda x: x.eq(txt(x), '0x%0*x' % (16*N, num(x.a))), sym=False, whynot='GMP text conversion')
    def pgen(base, cap=120):
        def gen(rng, i):
            v = rng.choice([edge(rng, B), -edge(rng, B) if base == 10 else 7, (1 << B) - 1, 1 << B, (1 << B) + edge(rng, B), edge(rng, B + 40)])
            s = ('%d' % v) if base == 10 else rng.choice(['%x', '0x%x', '%X', '0x%040x']) % v
            if i % 10 == 9: s = rng.choice(['', 'x', '12g', 'zz', '0y1', '1 2x', '--1'])
            s = s[:cap].encode()
            return dict(n=len(s), s=list(s.ljust(cap, b'5')))
        return gen
    def parse(base):
        def f(x):
            s = bytes(x.s[:x.n]).decode()
            import re
            if base == 10: ok = re.fullmatch(r'[0-9]+', s)
            else: ok = re.fullmatch(r'(0x)?[0-9a-fA-F]+', s)
            v = int(s, base) if ok else None
            if re.fullmatch('-0+', s): return
            if ok and v < 1 << B: x.eq(x.ret, 1, 'accepted'); x.eq(num(x.r), v, 'value')
            elif ok: x.eq(x.ret, 0, 'overflow is refused')
            else: x.eq(x.ret, 0, 'malformed text is refused')
        return f
    for v in ('', 'v'):
        c('pdec' + v, 'n:u64 s:u8*120 -> r:u64*N', parse(10), gen=pgen(10), sym=False, whynot='GMP text conversion')
        c('phex' + v, 'n:u64 s:u8*120 -> r:u64*N', parse(16), gen=pgen(16), sym=False, whynot='GMP text conversion')
    PR = {1: [0xffffffff00000001, 101, 2**61-1], 2: [2**127-1], 3: [2**192 - 2**64 - 1], 4: [2**256 - 2**32 - 977, 21888242871839275222246405745257275088548364400416034343698204186575808495617], 6: [2**383 - 187, 2**384 - 317]}[N]
    def mg(rng, i):
        p = rng.choice(PR); a = rng.choice([0, 1, 2, p-1, rng.randrange(p), rng.randrange(p)])
        return dict(a=limbs(a, N), p=limbs(p, N), r2=limbs(pow(2, 2*B, p), N))
    def minv(x):
        a, p = num(x.a), num(x.p)
        x.eq(x.ret, int(a != 0))
        if a: x.true(num(x.r) < p, 'canonical'); x.eq(num(x.r) * a % p, pow(2, 2*B, p), 'Montgomery inverse')
    c('minv', 'a:u64*N p:u64*N r2:u64*N -> r:u64*N', minv, gen=mg, sym=False, whynot='binary extended Euclid: data-dependent loop')
for N in (1, 2, 3, 4, 6): sizes(N)
def w(name, args, post, **k): S.c(name, 'bigint', name, args, post, n=300, **k)
for q, pre_ in ((64, 'w_'), (32, 'w32_')):
    U = 'u%d' % q
    cin = lambda x: (x.c < 2) if not x.sym else x.assume(T.ult(x.c, 2))
    w(pre_ + 'addc', 'a:U b:U c:U -> r:U*2'.replace('U', U), lambda x, q=q: eqv(x, cat(x.r, q), BV(x.a, q).ext(2*q) + BV(x.b, q).ext(2*q) + BV(x.c, q).ext(2*q)), pre=cin, gen=lambda r, i: dict(c=r.randrange(2)))
    def sb(x, q=q):
        d = BV(x.a, q).ext(2*q) - BV(x.b, q).ext(2*q) - BV(x.c, q).ext(2*q)
        eqv(x, BV(x.r[0], q), d.ext(q)); eqv(x, BV(x.r[1], q), d.bits(q, q).ext(q), 'borrow')
    w(pre_ + 'subb', 'a:U b:U c:U -> r:U*2'.replace('U', U), sb, pre=cin, gen=lambda r, i: dict(c=r.randrange(2)))
for q, pre_ in ((64, 'w_'), (32, 'w32_')):
    U = 'u%d' % q
    w(pre_ + 'mac', 'a:U*1 b:U*1 c:U*1 d:U*1 -> r:U*2'.replace('U', U), lambda x: x.eq(x.r, x.a + (x.d + x.b * x.c)), run=zprove, zpre={k: 1 << q for k in 'abcd'}, znum={'r'})
def eg(x):
    from math import gcd
    a, b = x.a, x.b
    x.eq(signed(x.r[0]), gcd(a, b), 'gcd'); x.eq(signed(x.r[1]) * a + signed(x.r[2]) * b, gcd(a, b), 'Bezout')
w('egcd', 'a:u64 b:u64 -> r:u64*3', eg, gen=lambda r, i: dict(a=r.choice([1, 2, r.randrange(1, 1 << 31), r.randrange(1, 1 << 62)]), b=r.choice([1, 2**31-1, 0x78000001, r.randrange(1, 1 << 31), r.randrange(1, 1 << 62)])), sym=False, whynot='data-dependent loop')
lb = lambda x: cat([x.a], 64)
w('bits_pow2', 'a:u64 -> ', lambda x: eqv(x, BV(x.ret, 64), b2v(pop(BV(x.a, 64), 8).eq(1), 64)), gen=lambda r, i: dict(a=r.choice([0, 1 << r.randrange(64), (1 << r.randrange(64)) | (1 << r.randrange(64))])))
def clog(x, fl):
    a, r = BV(x.a, 64), BV(x.ret, 64)
    i = r.ext(130); one = BV(1, 130); A = a.ext(130)
    if fl:
        z = a.eq(0)
        x.true(T.ite(z, r.eq(-1), T.band((one << i).ule(A) if not isinstance(x.a, int) or x.a else True, A.ult(one << (i + 1))), 1) if x.sym else (x.ret == (x.a.bit_length() - 1) % 2**64))
    else: x.true(T.ite(a.eq(0), r.eq(-1), T.band(A.ule(one << i), T.bor(a.eq(1), (one << (i - 1)).ult(A))), 1) if x.sym else (x.ret == ((x.a - 1).bit_length() if x.a else 2**64-1)))
w('bits_floor', 'a:u64 -> ', lambda x: clog(x, 1)); w('bits_ceil', 'a:u64 -> ', lambda x: clog(x, 0))
w('bits_safeceil', 'a:u64 -> ', lambda x: x.eq(x.ret, (x.a - 1).bit_length() if x.a else 0) if not x.sym else x.true(T.ite(BV(x.a, 64).eq(0), BV(x.ret, 64).eq(0), T.band(BV(x.a, 64).ext(130).ule(BV(1, 130) << BV(x.ret, 64).ext(130)), T.bor(T.eq(x.a, 1), (BV(1, 130) << (BV(x.ret, 64).ext(130) - 1)).ult(BV(x.a, 64).ext(130)))), 1)))
w('bits_checked', 'a:u64 -> ', lambda x: eqv(x, BV(1, 64) << (x.ret if isinstance(x.ret, int) else BV(x.ret, 64)), BV(x.a, 64)), gen=lambda r, i: dict(a=1 << r.randrange(64)), pre=lambda x: bin(x.a).count('1') == 1 if not x.sym else (x.assume(T.not_(T.eq(x.a, 0))), x.assume(T.eq(T.and_(x.a, T.sub(x.a, 1, 64), 64), 0)))[0:0] or None)
def rv(a, n): return cat([a.bit(n - 1 - i).v for i in range(n)], 1)
w('bits_rev', 'a:u64 -> r:u64*2', lambda x: (eqv(x, BV(x.r[0], 64), rv(BV(x.a, 64), 64)), eqv(x, BV(x.r[1], 64), rv(BV(x.a, 64).ext(32).ext(64), 64), '32-bit argument')))
for n in (1, 2, 3, 5, 10, 20, 33, 64):
    S.c('bits_revlen %d' % n, 'bigint', 'bits_revlen', 'a:u64 n:u32 -> ', lambda x, n=n: eqv(x, BV(x.ret, 64), rv(BV(x.a, 64).ext(n), n).ext(64)), fix={'n': [n]}, n=40, bound='lengths 1, 2, 3, 5, 10, 20, 33, 64')
pw = lambda x: bin(x.n).count('1') == 1 if not x.sym else (x.assume(T.not_(T.eq(x.n, 0))), x.assume(T.eq(T.and_(x.n, T.sub(x.n, 1, 64), 64), 0)))[0:0] or None
ag = lambda r, i: dict(n=1 << r.randrange(64))
w('bits_aligndn', 'a:u64 n:u64 -> ', lambda x: (x.eq(x.ret, x.a - x.a % x.n) if not x.sym else (eqv(x, BV(x.ret, 64) & (BV(x.n, 64) - 1), BV(0, 64), 'multiple'), x.true(BV(x.ret, 64).ule(BV(x.a, 64))), x.true((BV(x.a, 64) - BV(x.ret, 64)).ult(BV(x.n, 64))))), pre=pw, gen=ag)
def upre(x):
    if not x.sym: return bin(x.n).count('1') == 1 and x.a + x.n <= 2**64
    pw(x); x.assume((BV(x.a, 65).ext(66) + BV(x.n, 64).ext(66)).ule(1 << 64)) if False else x.assume(BV(x.a, 64).ule(BV(0, 64) - BV(x.n, 64)))
w('bits_alignup', 'a:u64 n:u64 -> ', lambda x: (x.eq(x.ret, -(-x.a // x.n) * x.n % 2**64) if not x.sym else (eqv(x, BV(x.ret, 64) & (BV(x.n, 64) - 1), BV(0, 64), 'multiple'), x.true((BV(x.ret, 64) - BV(x.a, 64)).ult(BV(x.n, 64))))), pre=upre, gen=ag)
