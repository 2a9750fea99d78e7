"""C02: derived field algebra: inverses, powers, batch operations, square roots, roots of unity."""
from tvc.suite import Suite
from tvc.fe import *
S = Suite('C02', 'bounded', assumptions=['prime-field operations satisfy their contracts (check C01)'])
S.h('alg')
def rb(i, k): return int(format(i, '0%db' % k)[::-1], 2) if k else 0
def power(x, a, e):
    r = None; b = a
    if e == 0: return 1
    while e:
        if e & 1: r = b if r is None else r * b
        e >>= 1
        if e: b = b * b
    return r
SMALL = list(range(0, 18)) + [31, 32, 33, 63, 64, 100]
def field(n, m, small=False, root=None, sqrt=True):
    F = m.name; p = m.p
    def c(fn, args, post, tag='', **k):
        k.setdefault('n', 40)
        return S.c(('%s %s %s' % (n, fn, tag)).strip(), 'alg', n + '_' + fn, args.replace('F', F), post, **k)
    edges = [0, 1, 2, 3, p-1, p-2, (p+1)//2, (p-1)//2]
    def el(rng): return rng.choice(edges + [rng.randrange(p), rng.randrange(p), rng.randrange(p), 1 << rng.randrange(p.bit_length()-1)])
    ag = lambda rng, i: dict(a=el(rng))
    # inverse (body: extended gcd loop; bounded)
    zg = lambda rng, i: dict(a=rng.choice([0, 1, 2, 3, p-1, p-2, (p+1)//2, (p-1)//2, 1 << rng.randrange(p.bit_length()-1), pow(rng.randrange(1, p), -1, p), pow(rng.randrange(1, 200), -1, p), rng.randrange(1 << rng.randrange(1, p.bit_length())) % p]) if i % 2 else rng.randrange(p))
    def inv(x):
        if x.a == 0: x.eq(x.ret, 0, 'fails on zero')
        else: x.eq(x.ret, 1, 'succeeds'); x.eq(x.r * x.a, 1, 'inverse')
    c('inv', 'a:F -> r:F', inv, gen=zg, n=2500, sym=False, whynot='data-dependent extended-gcd loop without an in-place invariant')
    for e in SMALL:
        c('pow', 'a:F e:u64 -> r:F', lambda x, e=e: x.eq(x.r, power(x, x.a, e)), tag='e=%d' % e, fix={'e': [e]}, n=3, gen=ag, bound='exponents %s' % SMALL)
        c('smul', 'a:F e:u64 -> r:F', lambda x, e=e: x.eq(x.r, x.a * e), tag='k=%d' % e, fix={'e': [e]}, n=3, gen=ag, bound='scalars %s' % SMALL)
    def eg(rng, i):
        k = rng.choice([1, 2, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, rng.randrange(1, 257)])
        v = rng.choice([(1 << k) - 1, 1 << (k-1), rng.getrandbits(k), p - 1, p, p - 2, (p-1)//2, 0, 1])
        v &= (1 << 256) - 1
        return dict(a=el(rng), e=[(v >> 64*j) & (2**64-1) for j in range(4)])
    E4 = lambda x: sum(int(v) << 64*j for j, v in enumerate(x.e))
    c('powbig', 'a:F e:u64*4 -> r:F', lambda x: x.eq(x.r, pow(x.a.v, E4(x), p)), gen=eg, n=250, sym=False)
    c('smulbig', 'a:F e:u64*4 -> r:F', lambda x: x.eq(x.r, x.a * (E4(x) % p)), gen=eg, n=250, sym=False)
    ug = lambda rng, i: dict(a=el(rng), e=rng.choice([rng.getrandbits(rng.randrange(1, 65)), 2**64-1, 2**63, 2**32, 2**32-1]))
    c('pow', 'a:F e:u64 -> r:F', lambda x: x.eq(x.r, pow(x.a.v, int(x.e), p)), tag='any', gen=ug, n=250, sym=False)
    c('smul', 'a:F e:u64 -> r:F', lambda x: x.eq(x.r, x.a * (int(x.e) % p)), tag='any', gen=ug, n=250, sym=False)
    cs = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13)
    c('cpow', 'a:F -> r:F*11', lambda x: x.eq(x.r, [power(x, x.a, e) for e in cs]), gen=ag)
    c('cmul', 'a:F -> r:F*11', lambda x: x.eq(x.r, [x.a * e for e in cs]), gen=ag)
    for e in (0, 1, 2, 5, 0x80, 0xff, 0xa6):
        def pt(x, e=e):
            r = 1
            for i in range(8):
                if e >> i & 1: r = x.a[i] if isinstance(r, int) else r * x.a[i]
            x.eq(x.r, r)
        c('powtab', 'a:F*8 e:u64 -> r:F', pt, tag='e=%d' % e, fix={'e': [e]}, n=10, bound='tables of 8 entries, 7 exponents')
    for k in range(0, 7):
        c('exp2k', 'a:F k:u32 -> r:F', lambda x, k=k: x.eq(x.r, power(x, x.a, 1 << k)), tag='k=%d' % k, fix={'k': [k]}, n=5, gen=ag, bound='k <= 6')
    def cg(rng, i): return dict(g=el(rng), c=rng.choice([1, 1, el(rng)]))
    for sz in (0, 1, 2, 3, 4, 5, 8):
        def succ(x, sz=sz, br=False):
            k = sz.bit_length() - 1
            for i in range(sz):
                e = x.c if i == 0 else x.c * power(x, x.g, i)
                x.eq(x.r[rb(i, k) if br else i], e, 'power %d' % i)
        # c is compared with one: both outcomes are enumerated as paths
        c('succ', 'n:u64 g:F c:F -> r:F*%d' % max(1, sz), succ, tag='n=%d' % sz, fix={'n': [sz]}, gen=cg, n=10, bound='sizes 1..8')
        if sz and sz & (sz-1) == 0:
            for f in ('succbr', 'succbrs'):
                c(f, 'n:u64 g:F c:F -> r:F*%d' % sz, lambda x, sz=sz: succ(x, sz, True), tag='n=%d' % sz, fix={'n': [sz]}, gen=cg, n=10, bound='sizes 1..8')
    for sz in (16, 64, 129):
        def succ2(x, sz=sz, br=False):
            k = sz.bit_length() - 1; v = x.c
            for i in range(sz):
                x.eq(x.r[rb(i, k) if br else i], v, 'power %d' % i); v = v * x.g
        c('succ', 'n:u64 g:F c:F -> r:F*%d' % sz, succ2, tag='n=%d' % sz, fix={'n': [sz]}, gen=cg, n=6, sym=False)
        if sz and sz & (sz-1) == 0:
            for f in ('succbr', 'succbrs'):
                c(f, 'n:u64 g:F c:F -> r:F*%d' % sz, lambda x, sz=sz: succ2(x, sz, True), tag='n=%d' % sz, fix={'n': [sz]}, gen=cg, n=6, sym=False)
    # batch inversion: zeros map to zero, the rest to c/a
    def bi(x):
        x.eq(x.ret, 1, 'succeeds')
        for i, a in enumerate(x.a):
            if x.isz(a): x.eq(x.r[i], 0, 'zero[%d]' % i)
            else: x.eq(x.r[i] * a, x.c, 'inverse[%d]' % i)
    for f in ('binv', 'binvi', 'binvs', 'binvsi'):
        for sz in (1, 2, 3, 4):
            bg = lambda rng, i, sz=sz: dict(a=[rng.choice([0, el(rng), el(rng)]) for _ in range(sz)], c=rng.choice([0, 1, el(rng)]))
            c(f, 'n:u64 a:F*%d c:F -> r:F*%d' % (sz, sz), bi, tag='n=%d' % sz, fix={'n': [sz]}, gen=bg, n=15, bound='batches of 1..4 elements (every zero pattern, every coefficient)', sym=sz <= 3 or n == 'bnr')
        for sz in (7, 33, 128):
            bg = lambda rng, i, sz=sz: dict(a=[rng.choice([0, el(rng), el(rng)]) for _ in range(sz)] if i else [0]*sz, c=rng.choice([0, 1, el(rng)]))
            c(f, 'n:u64 a:F*%d c:F -> r:F*%d' % (sz, sz), bi, tag='n=%d' % sz, fix={'n': [sz]}, gen=bg, n=6, sym=False)
    c('binvbad', 'a:F*3 -> ', lambda x: x.eq(x.ret, 0, 'size mismatch is refused'), n=2, sym=False)
    def sop(x):
        s = 0
        for a, b in zip(x.a, x.b): s = a * b + s
        x.eq(x.r, [s, s])
    for sz in (1, 2, 3, 5):
        c('sop', 'n:u64 a:F*%d b:F*%d -> r:F*2' % (sz, sz), sop, tag='n=%d' % sz, fix={'n': [sz]}, n=8, bound='lengths 0..5')
    for sz in (17, 64): c('sop', 'n:u64 a:F*%d b:F*%d -> r:F*2' % (sz, sz), sop, tag='n=%d' % sz, fix={'n': [sz]}, n=5, sym=False)
    c('sop', 'n:u64 a:F b:F -> r:F*2', lambda x: x.eq(x.r, [0, 0]), tag='n=0', fix={'n': [0]}, n=2)
    def leg(v): return 0 if v == 0 else 1 if pow(v, (p-1)//2, p) == 1 else -1
    qg = lambda rng, i: dict(a=rng.choice([0, 1, p-1, 2, 3, pow(el(rng), 2, p), pow(rng.randrange(p), 2, p), rng.randrange(p), tw(rng)]))
    s2 = ((p-1) & -(p-1)).bit_length() - 1
    nr = next(z for z in range(2, 100) if pow(z, (p-1)//2, p) == p-1)
    W = pow(nr, (p-1) >> s2, p)
    def tw(rng): return pow(W, rng.choice([1 << rng.randrange(s2+1), rng.getrandbits(s2)]), p) * rng.choice([1, pow(rng.randrange(1, p), 1 << s2, p)]) % p
    c('leg', 'a:F -> ', lambda x: x.eq(x.ret & (2**64-1), leg(x.a.v) & (2**64-1)), gen=qg, n=120, sym=False)
    if sqrt:
        def sq(x):
            l = leg(x.a.v)
            x.eq(x.ret & 1, int(l >= 0), 'succeeds exactly on squares')
            if l >= 0: x.eq(x.r * x.r, x.a, 'square')
        c('sqrt', 'a:F -> r:F', sq, gen=qg, n=250, sym=False, whynot='data-dependent Tonelli-Shanks loops')
    if root:
        q, qa = root
        ns = [(1 << i) * q**j for i in range(s2 + 2) for j in range(qa + 2) if (1 << i) * q**j < 2**63]
        def rg(rng, i):
            if i < len(ns): return dict(n=ns[i])
            return dict(n=rng.choice([0, 3, 5, 6, 7, 9, 12, 15, 2**32+1, (1 << rng.randrange(40)) + 1, (1 << rng.randrange(1, 40)) - 1, rng.randrange(1, 2**62), rng.choice(ns)]))
        def rt(x):
            v = int(x.n); t = v; a = b = 0
            if v == 0: return
            while t % 2 == 0: t //= 2; a += 1
            if qa:
                while t % q == 0: t //= q; b += 1
            ok = t == 1 and a <= s2 and b <= qa
            x.eq(x.ret & 1, int(ok), 'exists')
            if ok:
                x.eq(x.r.v and pow(x.r.v, v, p), 1, 'order divides n')
                for f in ([2] if a else []) + ([q] if b else []): x.true(pow(x.r.v, v // f, p) != 1, 'primitive (%d)' % f)
        c('root', 'n:u64 -> r:F', rt, gen=rg, n=len(ns) + 40, sym=False)
field('bnq', BN254_FQ)
field('bnr', BN254_FR, root=(3, 2))
field('blr', BLS_FR, root=(3, 1))
field('seq', SECP_FQ)
field('b3r', BN384_FR, root=(3, 2))
field('bb', BABYBEAR, root=(2, 0))
field('kb', KOALABEAR, root=(2, 0))
field('m31', MERSENNE31, sqrt=False)
