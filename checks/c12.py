"""C12: evaluation domains: FFT / IFFT / coset / low-degree extension / Lagrange / vanishing / filter."""
from tvc.suite import Suite
from tvc.fe import *
import functools
S = Suite('C12', 'bounded', assumptions=['prime-field operations satisfy their contracts (check C01)', 'requested size and number of coefficients are at most the domain size; the batched transforms have at least two rows'],
  trusted=['stand-ins for libraries the sandbox lacks: powersort (std::stable_sort), perfetto (tracing macros expand to nothing)', 'in the IR only: absl::flat_hash_map (find/insert semantics) and absl::Mutex (single thread)'])
PK = ['tachyon/math/finite_fields/%s/internal/_objs/packed_%s_%s/packed_%s_%s.o' % (f, f, v, f, v) for f in ('baby_bear', 'koala_bear') for v in ('avx2', 'avx512')]
S.h('udom', irflags='-I/verif/harness/irstub', objs=[o for o in PK if 'baby' in o])
S.h('ubatch', ir=False, objs=PK + ['tachyon/math/finite_fields/%s/internal/_objs/%s_config/%s_config.o' % (f, f, f) for f in ('baby_bear', 'koala_bear')])
def lst(v): return list(v) if isinstance(v, (list, tuple)) else [v]
def pev(a, k):
    s = 0
    for u in reversed(a): s = (s*k + u) if not (isinstance(s, int) and s == 0) else u
    return s
def pfac(n): return [q for q in range(2, n+1) if n % q == 0 and all(q % r for r in range(2, q))]
def rnd(rng, p): return rng.choice([0, 1, p-1, rng.randrange(p), rng.randrange(p)])
def toint(v):
    if isinstance(v, int): return v
    if hasattr(v, 'v'): return v.v
    return v.const()
def dom(N, m, sizes, sym, best):
    F = m.name; p = m.p
    def c(fn, args, post, tag='', **k):
        k.setdefault('n', 12); k.setdefault('sym', sym)
        if not sym: k['sym'] = False
        return S.c(('%s %s %s' % (N, fn, tag)).strip(), 'udom', N + '_' + fn, args.replace('F', F), post, **k)
    def primitive(x, g, n):
        gi = toint(g)
        x.true(pow(gi, n, p) == 1, 'generator^size = 1')
        for q in pfac(n): x.true(pow(gi, n//q, p) != 1, 'generator has order exactly size')
        return gi
    for n in sizes:
        sz = best(n)
        for cs in (0, 1):
            tg = '%d%s' % (n, ' coset' if cs else '')
            fx = {'n': [n], 'cs': [cs]}
            nz = (lambda x: x.assume_nonzero(x.off) if x.sym else x.off != 0) if cs else None
            off = lambda x, cs=cs: x.off if cs else 1
            og = lambda rng, cs=cs: rng.choice([1, 2, 3, p-1, rng.randrange(1, p)])
            def one(n=n, cs=cs, sz=sz, tg=tg, fx=fx, nz=nz, off=off):
                bd = 'domain of %d' % sz
                def info(x):
                    g, gi, si, s, o, oi, op = lst(x.r)
                    primitive(x, g, sz); x.true(x.ret & 0xffffffff == sz, 'size'); x.true(x.ret >> 32 == (sz & -sz).bit_length()-1, 'log size')
                    x.eq(g*gi, 1); x.eq(s, sz % p); x.eq(s*si, 1); x.eq(o, off(x)); x.eq(o*oi, 1)
                    w = 1
                    for _ in range(sz): w = w*off(x)
                    x.eq(op, w) if sz <= 64 else None
                c('info', 'n:u64 cs:u64 off:F -> r:F*7', info, tag=tg, fix=fx, pre=nz, gen=lambda rng, i: {'off': og(rng)}, bound=bd)
                def pts(x, g):
                    gi = primitive(x, g, sz); o = off(x); r = []; w = 1
                    for i in range(sz): r.append(o*w); w = w*gi % p
                    return r, gi
                for k in sorted({1, sz//2, sz-1, sz} - {0}):
                    if n > 70 and k != sz: continue
                    for dr in ('fft', 'ifft'):
                        def post(x, k=k, dr=dr):
                            a = lst(x.a)[:k]; P, gi = pts(x, x.g)
                            z = dr == 'fft' and all(x.isz(v) for v in a)
                            r, s = lst(x.r), lst(x.s)
                            if dr == 'fft':
                                L = 0 if z else sz
                                x.true((x.ret & 0xffffffff) == L, 'size'); x.true(x.ret >> 32 == L, 'size (moved)')
                                for i in range(sz):
                                    w = pev(a, P[i]); x.eq(r[i], w, 'evaluation at the i-th domain element'); x.eq(s[i], w, 'moved')
                            else:
                                x.true(x.ret != (1 << 64)-1 and (x.ret >> 32) != 0xffffffff, 'canonical')
                                if k == sz or True:
                                    for i in range(sz):
                                        w = pev(r, P[i]); x.eq(w, a[i] if i < k else 0, 'interpolates the i-th evaluation')
                                    for i in range(sz): x.eq(r[i], s[i], 'moved')
                        def gen(rng, i, k=k):
                            v = [rnd(rng, p) for _ in range(k)]
                            if i == 0: v = [0]*k
                            if i == 1: v = [1] + [0]*(k-1)
                            return {'a': v, 'off': og(rng)}
                        small = sz <= 8 or dr == 'fft' and sz <= 18 and k == sz
                        c(dr, 'n:u64 cs:u64 off:F m:u64 a:F*%d cap:u64 -> r:F*%d s:F*%d g:F' % (k, sz, sz), post, tag='%s/%d' % (tg, k), fix=dict(fx, m=[k], cap=[sz]), pre=nz, gen=gen, bound='%d of %d' % (k, sz), n=12 if sz < 40 else 4, **({} if small else {'sym': False}))
                if n <= 70:
                    def lag(x):
                        P, gi = pts(x, x.g); t = x.tau
                        r = lst(x.r); d = [t - e for e in P]
                        nzd = [0 if x.isz(v) else 1 for v in d]
                        for i in range(sz):
                            if not all(nzd): x.eq(r[i], 1 - nzd[i], 'Lagrange coefficient at a domain point'); continue
                            num = den = 1
                            for j in range(sz):
                                if j != i: num = num*d[j]; den = den*(P[i]-P[j])
                            x.eq(r[i]*den, num, 'Lagrange coefficient')
                    tg_ = lambda rng, i: {'off': og(rng), 'tau': rnd(rng, p)}
                    c('lag', 'n:u64 cs:u64 off:F tau:F -> r:F*%d g:F' % sz, lag, tag=tg, fix=fx, pre=nz, gen=lambda rng, i: tau(rng, i), bound=bd, sym=False)
                    def tau(rng, i):
                        d = tg_(rng, i)
                        # domain points: derived from the library's own primitive root
                        if i % 2: d['tau'] = (d['off'] if cs else 1)*pow(root(sz), rng.randrange(sz), p) % p
                        return d
                    def lagp(x):
                        P, gi = pts(x, x.g); t = x.tau; fr, to = x.frm, x.to
                        d = [t - e for e in P]; nzd = [0 if x.isz(v) else 1 for v in d]
                        x.true(x.ret == to - fr, 'size')
                        for q, i in enumerate(range(fr, to)):
                            if not all(nzd): x.eq(lst(x.r)[q], 1 - nzd[i]); continue
                            num = den = 1
                            for j in range(sz):
                                if j != i: num = num*d[j]; den = den*(P[i]-P[j])
                            x.eq(lst(x.r)[q]*den, num)
                    def glp(rng, i):
                        d = tau(rng, i); a = rng.randrange(sz+1); b = rng.randrange(a, sz+1); d['frm'] = [a]; d['to'] = [b]; return d
                    c('lagp', 'n:u64 cs:u64 off:F tau:F frm:u64 to:u64 cap:u64 -> r:F*%d g:F' % sz, lagp, tag=tg, fix=dict(fx, cap=[sz]), pre=nz, gen=glp, bound=bd, sym=False)
                    def van(x):
                        w = t = 1
                        for _ in range(sz): w = w*off(x); t = t*x.tau
                        r = lst(x.r); x.eq(r[0], t - w); x.eq(r[1], t - w); x.eq(r[2], -w if not isinstance(w, int) else p-1); x.eq(r[3], 1); x.true(x.ret == (sz << 8 | 2), 'degree / terms')
                    c('van', 'n:u64 cs:u64 off:F tau:F -> r:F*4', van, tag=tg, fix=fx, pre=nz, gen=tau, bound=bd)
                    for e in (0, 1, 2, sz-1, sz, sz+3, 2**64-1, 2**64-sz-2):
                        c('elem', 'n:u64 cs:u64 off:F i:u64 -> r:F g:F', lambda x, e=e: x.eq(x.r, off(x)*pow(primitive(x, x.g, sz), (e - (e >> 63 << 64)) % sz, p)), tag='%s %d' % (tg, e - (e >> 63 << 64)), fix=dict(fx, i=[e]), pre=nz, gen=lambda rng, i: {'off': og(rng)}, n=4, bound=bd)
                    def elems(x):
                        P, gi = pts(x, x.g); x.true(x.ret == sz, 'size')
                        for u, v in zip(lst(x.r), P): x.eq(u, v)
                    c('elems', 'n:u64 cs:u64 off:F cap:u64 -> r:F*%d g:F' % sz, elems, tag=tg, fix=dict(fx, cap=[sz]), pre=nz, gen=lambda rng, i: {'off': og(rng)}, n=4, bound=bd, **({} if sz <= 16 else {'sym': False}))
                    # filter polynomials of subgroups and cosets of subgroups
                    for m_ in [v for v in range(1, sz+1) if sz % v == 0 and best(v) == v]:
                        def filt(x, m_=m_):
                            """1 on the subdomain, 0 on the rest of the domain, Z_H/Z_S up to a constant elsewhere"""
                            P, gi = pts(x, x.g); t = x.tau; t = toint(t); P = [toint(v) % p for v in P]
                            S_ = [toint(x.off2)*pow(gi, sz//m_*j, p) % p for j in range(m_)]
                            x.true(all(v in P for v in S_), 'subdomain')
                            if t in S_: w = 1
                            elif t in P: w = 0
                            else:
                                zs = 1; zh = 1; k = 1
                                for v in P:
                                    zh = zh*(t-v) % p
                                    if v not in S_: k = k*(S_[0]-v) % p
                                for v in S_: zs = zs*(t-v) % p
                                w = zh*pow(zs*k, -1, p) % p
                            x.eq(x.r, w, 'filter polynomial'); x.true(x.ret == 1, 'has a value'); x.eq(x.s, w, 'EvaluateFilterPolynomial')
                        def gf(rng, i, m_=m_):
                            d = tau(rng, i); e = rng.randrange(sz); d['cs2'] = [1]; d['off2'] = (d['off'] if cs else 1)*pow(root(sz), e, p) % p
                            return d
                        c('filt', 'n:u64 cs:u64 off:F m:u64 cs2:u64 off2:F tau:F -> r:F s:F g:F', filt, tag='%s in %s' % (m_, tg), fix=dict(fx, m=[m_]), gen=gf, bound=bd, sym=False)
            one()
    @functools.lru_cache(None)
    def root(n):
        """some element of order exactly n (the domain is the same set for each of them)"""
        a = 1
        while True:
            a += 1; g = pow(a, (p-1)//n, p)
            if all(pow(g, n//q, p) != 1 for q in pfac(n)): return g
def pow2(n): return 1 << (n-1).bit_length()
dom('f', BN254_FR, [1, 2, 3, 4, 8, 13, 64, 256], True, pow2)
dom('b', BABYBEAR, [1, 2, 4, 7, 8, 32, 512], False, pow2)
def mixed(n):
    """smallest 2^i 3^j >= n (two-adicity 12, small subgroup 3^2)"""
    return min(2**i*3**j for i in range(13) for j in range(3) if 2**i*3**j >= n)
dom('m', BN384_FR, [1, 2, 3, 4, 5, 6, 8, 9, 11, 17, 18, 36, 70, 144], True, mixed)
for n in (1, 2, 3, 100, 4095, 4096, 4097, 4608, 5000, 6145, 8193, 12288, 12289, 18432, 18433, 36863, 36864):
    def wrap(n):
        S.c('m default factory %d' % n, 'udom', 'm_default', 'n:u64 -> ', lambda x: x.true(x.ret == (pow2(n) if n <= 4096 else mixed(n)), 'size'), fix={'n': [n]}, n=1, handlers=lambda: [], sym=False, bound='one size')
        S.c('m default mixed %d' % n, 'udom', 'm_mixed', 'n:u64 -> ', lambda x: x.true(x.ret == mixed(n), 'size'), fix={'n': [n]}, n=1, handlers=lambda: [], sym=False, bound='one size')
    wrap(n)
# batched transforms (packed lanes: 8 or 16 columns at a time plus a scalar tail)
def brev(i, k): return int(format(i, '0%db' % k)[::-1], 2) if k else 0
def batch(N, m):
    F = m.name; p = m.p
    def prim(n):
        a = 1
        while True:
            a += 1; g = pow(a, (p-1)//n, p)
            if n == 1 or pow(g, n//2, p) == p-1: return g
    def evals(cols, g, n, sh, k):
        """row i = evaluation at sh*g^i of the polynomial with coefficient rows 0..k-1"""
        r = []
        for i in range(n):
            t = sh*pow(g, i, p) % p; row = []
            for c in cols:
                s = 0
                for u in reversed(c): s = (s*t+u) % p
                row.append(s)
            r.append(row)
        return r
    for n, c in ((2, 1), (2, 9), (4, 3), (8, 8), (8, 17), (16, 16), (32, 5), (64, 33)):
        def one(n=n, c=c):
            n_ = 4 if n < 64 else 2
            gen = lambda rng, i: {'a': [rnd(rng, p) for _ in range(n*c)], 'sh': rng.choice([1, 2, p-1, rng.randrange(1, p), rng.randrange(1, p)])}
            cols = lambda v: [[toint(v[i*c+j]) for i in range(n)] for j in range(c)]
            bd = '%dx%d matrix' % (n, c)
            def K(fn, args, post, tag='', fix={}):
                S.c('%s batch %s %dx%d%s' % (N, fn, n, c, tag), 'ubatch', N + '_' + fn, args.replace('F', F), post, fix=dict({'n': [n], 'c': [c]}, **fix), gen=gen, n=n_, sym=False, bound=bd)
            def fwd(x):
                w = evals(cols(x.a), toint(x.g), n, 1, n)
                x.true(pow(toint(x.g), n//2, p) == p-1, 'generator')
                for i in range(n):
                    for j in range(c): x.eq(x.r[i*c+j], w[i][j], 'column FFT')
            K('fft', 'n:u64 c:u64 a:F*%d -> r:F*%d g:F' % (n*c, n*c), fwd)
            K('nfft', 'n:u64 c:u64 a:F*%d -> r:F*%d g:F' % (n*c, n*c), fwd)
            def inv(x):
                w = evals(cols(x.r), toint(x.g), n, 1, n)
                for i in range(n):
                    for j in range(c): x.eq(x.a[i*c+j], w[i][j], 'column IFFT')
            K('ifft', 'n:u64 c:u64 a:F*%d -> r:F*%d g:F' % (n*c, n*c), inv)
            K('nifft', 'n:u64 c:u64 a:F*%d -> r:F*%d g:F' % (n*c, n*c), inv)
            for k in (0, 1, 2) if n < 64 else (1,):
                for rv in (0, 1):
                    def lde(x, k=k, rv=rv):
                        N_ = n << k; g = toint(x.g); G = toint(x.g2); sh = toint(x.sh)
                        x.true(pow(G, N_//2, p) == p-1 and pow(g, n//2, p) == p-1, 'generators')
                        a = x.a; ginv = pow(g, -1, p); ni = pow(n, -1, p); L = N_.bit_length()-1
                        cf = [[sum(toint(a[i*c+j])*pow(ginv, i*t % n, p) for i in range(n))*ni % p for t in range(n)] for j in range(c)]
                        w = evals(cf, G, N_, sh, n)
                        for i in range(N_):
                            q = i if rv else brev(i, L)
                            for j in range(c): x.eq(x.r[i*c+j], w[q][j], 'low-degree extension')
                        x.true(x.ret == 1, 'input kept')
                    for fn in ('lde', 'ldec'):
                        K(fn, 'n:u64 c:u64 k:u64 rev:u64 sh:F a:F*%d -> r:F*%d g:F g2:F' % (n*c, (n*c) << k), lde, tag=' +%d rev %d' % (k, rv), fix={'k': [k], 'rev': [rv]})
                if True:
                    def nlde(x, k=k):
                        N_ = n << k; g = toint(x.g); G = toint(x.g2); sh = toint(x.sh); a = x.a; ginv = pow(g, -1, p); ni = pow(n, -1, p)
                        cf = [[sum(toint(a[i*c+j])*pow(ginv, i*t % n, p) for i in range(n))*ni % p for t in range(n)] for j in range(c)]
                        w = evals(cf, G, N_, sh, n)
                        for i in range(N_):
                            for j in range(c): x.eq(x.r[i*c+j], w[i][j], 'low-degree extension')
                        x.true(x.ret == 1, 'input kept')
                    K('nlde', 'n:u64 c:u64 k:u64 sh:F a:F*%d -> r:F*%d g:F g2:F' % (n*c, (n*c) << k), nlde, tag=' +%d' % k, fix={'k': [k]})
        one()
    for n, k in ((2, 1), (4, 3), (8, 2), (64, 3)):
        def aft(n=n, k=k):
            N_ = n << k
            def post(x):
                g = toint(x.g); a = [toint(x.a[i % n]) for i in range(N_)]
                w = evals([a], g, N_, 1, N_)
                for i in range(N_): x.eq(x.r[i], w[i][0], 'FFT after a low-degree extension of the same size')
            S.c('%s batch after %d+%d' % (N, n, k), 'ubatch', N + '_after', ('n:u64 k:u64 sh:F a:F*%d -> r:F*%d g:F' % (n, N_)).replace('F', F), post, fix={'n': [n], 'k': [k]}, gen=lambda rng, i: {'a': [1] + [rnd(rng, p) for _ in range(n-1)], 'sh': 3}, n=2, sym=False, bound='%d evaluations' % N_)
        aft()
batch('b', BABYBEAR)
batch('k', KOALABEAR)
