"""C19: sparse and dense matrix utilities denote the same matrix; points and dimensions round-trip."""
from tvc.suite import Suite
from tvc.fe import *
from tvc import terms as T
S = Suite('C19', 'bounded', assumptions=['prime-field operations satisfy their contracts (check C01)'], trusted=['Eigen (third party): its code is executed with the code under contract, not specified separately', 'std::vector / std::sort'])
PK = ['tachyon/math/finite_fields/%s/internal/_objs/packed_%s_%s/packed_%s_%s.o' % (f, f, v, f, v) for f in ('baby_bear', 'koala_bear') for v in ('avx2', 'avx512')]
PK4 = ['tachyon/math/finite_fields/%s/internal/_objs/packed_%s4/packed_%s4.o' % (f, f, f) for f in ('baby_bear', 'koala_bear')]
S.h('matrix', objs=['tachyon/math/elliptic_curves/bn/bn254/_objs/fr_config/fr_config.o', 'tachyon/math/finite_fields/baby_bear/internal/_objs/baby_bear_config/baby_bear_config.o'])
S.h('matpack', ir=False, objs=PK + ['tachyon/math/finite_fields/%s/internal/_objs/%s_config/%s_config.o' % (f, f, f) for f in ('baby_bear', 'koala_bear')])
def lst(v): return list(v) if isinstance(v, (list, tuple)) else [v]
def rnd(rng, p): return rng.choice([0, 1, p-1, rng.randrange(p), rng.randrange(p)])
def eqs(x, got, want):
    for g, w in zip(got, want): x.eq(g, w)
def brev(i, n):
    return int(bin(i)[2:].zfill(n)[::-1], 2) if n else 0
def fam(N, fname):
    m = FIELDS[fname]; p = m.p; small = p < 2**40
    def c(fn, args, post, tag='', **k):
        k.setdefault('n', 40 if small else 20)
        return S.c(('%s %s %s' % (N, fn, tag)).strip(), 'matrix', N + '_' + fn, args.replace(':F', ':' + fname), post, **k)
    def mask_gen(R, C):
        def g(rng, i):
            b = R*C; k = rng.randrange(4)
            return rng.getrandbits(b) if k == 0 else rng.getrandbits(b) & rng.getrandbits(b) if k == 1 else rng.getrandbits(b) | rng.getrandbits(b) if k == 2 else rng.choice([0, 1, (1 << b)-1, 1 << (b-1), ((1 << C)-1), ((1 << C)-1) << (b-C)])
        return g
    SYM = {(2, 3): [0, 1, 0b100, 0b001010, 0b101000, 0b111111, 0b000111], (3, 2): [0b010000, 0b110011, 0b001100], (1, 1): [0, 1], (4, 4): [0b1001_1110_0000_0101]}
    def shape(R, C):
        bd = '%dx%d' % (R, C); mg = mask_gen(R, C); ms = SYM.get((R, C), [])
        def rows(mk): return [[j for j in range(C) if mk >> (i*C+j) & 1] for i in range(R)]
        def ncol(mk): return max([j+1 for r in rows(mk) for j in r] or [0])
        def den(x, mk): v = lst(x.v); return [v[i] if mk >> i & 1 else 0 for i in range(R*C)]
        def both(fn, args, post, **k):
            g = k.pop('gen', None)
            c(fn, args, post, tag=bd, fix={'R': [R], 'C': [C]}, gen=lambda rng, i: {'mask': mg(rng, i), **({'rv': rng.randrange(2)} if 'rv' in args else {}), **(g(rng, i) if g else {})}, sym=False, bound=bd + ' matrices, random sparsity', **k)
            for mk in ms:
                for rv in ((0, 1) if 'rv' in args else (0,)):
                    fx = {'R': [R], 'C': [C], 'mask': [mk]}
                    if 'rv' in args: fx['rv'] = [rv]
                    c(fn, args, post, tag='%s mask %d%s' % (bd, mk, ' desc' if rv else ''), fix=fx, nat=False, bound='this sparsity pattern, all values', **k)
        def post(x):
            t = [int(v) if not hasattr(v, 'const') else v for v in lst(x.meta)]
            mk = x.mask; rs = rows(mk); nz = sum(map(len, rs))
            x.true(t[0] == (1 if not x.rv or all(len(r) < 2 for r in rs) else 0), 'IsSorted before sorting')
            for i, (w, l) in enumerate([(1, 'IsSorted'), (R, 'MaxRows'), (ncol(mk), 'MaxCols'), (nz, 'NonZeros'), (1, 'sorted matrix equals the one built in order'), (nz, 'entries')], 1): x.true(t[i] == w, l)
            eqs(x, lst(x.r), den(x, mk))
        both('ell', 'R:u64 C:u64 mask:u64 rv:u64 v:F*%d -> r:F*%d meta:u64*8' % (R*C, R*C), post)
        def postc(x):
            post(x); t = lst(x.meta); k = 0
            x.true(t[7] == R+1, 'number of row pointers')
            for i, r in enumerate(rows(x.mask)):
                x.true(t[8+i] == k, 'row pointer'); k += len(r)
            x.true(t[8+R] == k, 'last row pointer')
        both('csr', 'R:u64 C:u64 mask:u64 rv:u64 v:F*%d -> r:F*%d meta:u64*%d' % (R*C, R*C, 9+R), postc)
        def conv(x):
            t = lst(x.meta); mk = x.mask; nc = ncol(mk); nz = sum(map(len, rows(mk)))
            for i, (w, l) in enumerate([(1, 'CSR -> ELL gives the same matrix'), (R, 'Eigen rows from ELL'), (nc, 'Eigen columns from ELL'), (R, 'Eigen rows from CSR'), (nc, 'Eigen columns from CSR'), (nz, 'Eigen non-zeros'), (1, 'Eigen round trip'), (1, 'row-major Eigen matrix read')]): x.true(t[i] == w, l)
            for o in (x.a, x.b, x.c, x.d): eqs(x, lst(o), den(x, mk))
        both('conv', 'R:u64 C:u64 mask:u64 v:F*%d -> a:F*%d b:F*%d c:F*%d d:F*%d meta:u64*8' % ((R*C,)*5), conv)
        def eq(x):
            a, b = int(x.m1), int(x.m2); same = a == b
            if same:
                for i, (u, w) in enumerate(zip(lst(x.v), lst(x.w))):
                    if a >> i & 1 and not x.isz(u-w): same = False; break
            t = lst(x.meta)
            for i, l in ((0, 'ELL =='), (2, 'CSR ==')): x.true(t[i] == (1 if same else 0), l); x.true(t[i+1] == (0 if same else 1), l[:-2] + '!=')
        def ge(rng, i):
            a = mg(rng, i); v = [rnd(rng, p) for _ in range(R*C)]; w = list(v)
            if rng.random() < .5: j = rng.randrange(R*C); w[j] = rnd(rng, p)
            return {'m1': a, 'm2': a if rng.random() < .7 else mg(rng, i), 'v': v, 'w': w}
        c('eqs', 'R:u64 C:u64 m1:u64 m2:u64 v:F*%d w:F*%d -> meta:u64*4' % (R*C, R*C), eq, tag=bd, fix={'R': [R], 'C': [C]}, gen=ge, sym=False, bound=bd)
        for mk in ms[:3]:
            c('eqs', 'R:u64 C:u64 m1:u64 m2:u64 v:F*%d w:F*%d -> meta:u64*4' % (R*C, R*C), eq, tag='%s mask %d' % (bd, mk), fix={'R': [R], 'C': [C], 'm1': [mk], 'm2': [mk]}, nat=False, bound='this sparsity pattern, all values')
    for s in ((1, 1), (2, 3), (3, 2), (4, 4), (7, 3), (1, 6), (6, 1), (3, 20)): shape(*s)
    # products
    def mv(R, C, kind, sym):
        def post(x):
            x.true(x.ret == R, 'size of the product'); a, v, r = lst(x.a), lst(x.v), lst(x.r)
            for i in range(R):
                s = 0
                for j in range(C): s = s + a[i*C+j]*v[j]
                x.eq(r[i], s)
        c('mv', 'R:u64 C:u64 k:u64 a:F*%d v:F*%d -> r:F*%d' % (R*C, C, R), post, tag='%dx%d kind %d' % (R, C, kind), fix={'R': [R], 'C': [C], 'k': [kind]}, sym=sym, n=6, bound='%dx%d' % (R, C))
    def mm(R, C, K, kind, sym):
        def post(x):
            x.true(x.ret == 1, 'shape of the product'); a, b, r = lst(x.a), lst(x.b), lst(x.r)
            for i in range(R):
                for k in range(K):
                    s = 0
                    for j in range(C): s = s + a[i*C+j]*b[j*K+k]
                    x.eq(r[i*K+k], s)
        c('mm', 'R:u64 C:u64 K:u64 k:u64 a:F*%d b:F*%d -> r:F*%d' % (R*C, C*K, R*K), post, tag='%dx%dx%d kind %d' % (R, C, K, kind), fix={'R': [R], 'C': [C], 'K': [K], 'k': [kind]}, sym=sym, n=6, bound='%dx%dx%d' % (R, C, K))
    for R, C in ((1, 1), (2, 3), (3, 2), (4, 4), (1, 5), (5, 1), (2, 2), (17, 9), (9, 17)):
        for k in range(10): mv(R, C, k, R*C <= 16 and (small or k % 2 == 0))
    for R, C, K in ((1, 1, 1), (2, 3, 2), (3, 2, 4), (1, 4, 1), (3, 1, 3), (3, 3, 3), (9, 11, 10)):
        for k in range(6): mm(R, C, K, k, R*C*K <= 27)
    # rearrangements
    for n in (1, 2, 3, 4, 7, 16):
        def circ(x, n=n):
            x.true(x.ret == 1, 'shape'); a, r = lst(x.a), lst(x.r)
            for i in range(n):
                for j in range(n): x.eq(r[i*n+j], a[(i-j) % n])
        c('circ', 'n:u64 a:F*%d -> r:F*%d' % (n, n*n), circ, tag='%d' % n, fix={'n': [n]}, n=4, bound='size %d' % n)
    for R, C in ((1, 1), (1, 4), (2, 1), (4, 3), (8, 2), (16, 1), (32, 3), (64, 2)):
        def rev(x, R=R, C=C):
            lg = R.bit_length()-1; a, r = lst(x.a), lst(x.r); x.true(x.ret == R*100+C, 'shape kept')
            for i in range(R):
                for j in range(C): x.eq(r[brev(i, lg)*C+j], a[i*C+j])
        c('rev', 'R:u64 C:u64 a:F*%d -> r:F*%d' % (R*C, R*C), rev, tag='%dx%d' % (R, C), fix={'R': [R], 'C': [C]}, n=4, sym=R <= 16, bound='%d rows' % R)
    for R, C, n in ((4, 2, 1), (4, 2, 2), (5, 3, 3), (4, 1, 4), (7, 2, 3)):
        def split(x, R=R, C=C, n=n):
            x.true(x.ret == n, 'chunks'); a, r = lst(x.a), lst(x.r); h = R-n+1; k = 0
            for i in range(n):
                for q in range(h):
                    for j in range(C): x.eq(r[k], a[(i+q)*C+j]); k += 1
        c('split', 'R:u64 C:u64 n:u64 a:F*%d -> r:F*%d' % (R*C, (R-n+1)*n*C), split, tag='%dx%d/%d' % (R, C, n), fix={'R': [R], 'C': [C], 'n': [n]}, n=3, bound='%dx%d' % (R, C))
    for k in (0, 1):
        c('map', 'R:u64 C:u64 k:u64 a:F*6 -> r:F*6', lambda x: (x.true(x.ret == int(x.R)*100+int(x.C), 'shape'), eqs(x, lst(x.r), lst(x.a))), tag='kind %d' % k, fix={'R': [2], 'C': [3], 'k': [k]}, n=3, bound='2x3')
    def det(a, n, p):
        a = [[int(a[i*n+j]) % p for j in range(n)] for i in range(n)]; d = 1
        for i in range(n):
            q = next((r for r in range(i, n) if a[r][i]), None)
            if q is None: return 0
            if q != i: a[i], a[q] = a[q], a[i]; d = -d
            d = d*a[i][i] % p; iv = pow(a[i][i], -1, p)
            for r in range(i+1, n):
                f = a[r][i]*iv % p
                a[r] = [(u-f*w) % p for u, w in zip(a[r], a[i])]
        return d % p
    def vv(q): return q.v if hasattr(q, 'v') else int(q)
    for n in (1, 2, 3, 4, 5, 6):
        def inv(x, n=n):
            a, r = lst(x.a), lst(x.r)
            if not x.sym: x.eq(x.d, det([vv(q) for q in a], n, p))
            if not x.ret & 1: x.eq(x.d, 0); return
            for i in range(n):
                for j in range(n):
                    s = 0
                    for k in range(n): s = s + a[i*n+k]*r[k*n+j]
                    x.eq(s, 1 if i == j else 0)
        def gi(rng, i, n=n):
            a = [rnd(rng, p) if i % 3 else rng.randrange(3) for _ in range(n*n)]
            return {'a': a}
        c('inv', 'n:u64 a:F*%d -> r:F*%d d:F' % (n*n, n*n), inv, tag='%d' % n, fix={'n': [n]}, gen=gi, n=30 if n < 6 else 20, sym=n <= 2, bound='size %d' % n)
    # buffers
    SH = {0: (2, 3), 1: (3, 2), 2: (2, 4), 3: (3, 2), 4: (2, 2), 5: (4, 1), 6: (1, 4), 7: (2, 3), 8: (4, 1), 9: (3, 1)}
    for k, (R, C) in SH.items():
        def cpp(x, R=R, C=C, k=k): x.true(x.ret == 100 + (R*10+C if k < 8 else R*11), 'round trip keeps the shape'); eqs(x, lst(x.r), lst(x.a))
        c('copy', 'R:u64 C:u64 k:u64 a:F*%d -> r:F*%d' % (R*C, R*C), cpp, tag='kind %d' % k, fix={'R': [R], 'C': [C], 'k': [k]}, n=6, bound='%dx%d' % (R, C))
    for R, C in ((2, 2), (2, 3), (3, 2), (3, 3), (1, 2), (4, 1), (1, 1), (1, 3)):
        w = (R == C == 2) | (R == 2) << 1 | (C == 2) << 2 | (C == 1) << 3 | (R == 1) << 4 | (R == C == 3) << 5 | (R == 2) << 6 | (R == 3) << 7
        c('shapes', 'R:u64 C:u64 a:F*%d ->' % (R*C), lambda x, w=w: x.true(x.ret == w, 'a buffer is accepted exactly by the types its shape fits'), tag='%dx%d' % (R, C), fix={'R': [R], 'C': [C]}, n=2, bound='%dx%d' % (R, C))
    c('pt', 'a:F*9 -> r:F*9', lambda x: (x.true(x.ret == 0, 'written and read back'), eqs(x, lst(x.r), lst(x.a))))
    def pteq(x):
        a, b = lst(x.a), lst(x.b); e = [None]*4; k = 0
        while k < 4 and x.isz(a[k]-b[k]): k += 1
        w = 0
        for t, q in enumerate((2, 3, 4)): w |= (1 if k >= q else 2) << (2*t)
        x.true(T.eq(x.ret, w) if x.sym else x.ret == w, 'point equality')
    def gpe(rng, i):
        a = [rnd(rng, p) for _ in range(4)]; b = list(a)
        if i % 5: b[i % 5 - 1] = rnd(rng, p)
        return {'a': a, 'b': b}
    c('pteq', 'a:F*4 b:F*4 ->', pteq, gen=gpe)
fam('bb', 'baby_bear'); fam('fr', 'bn254.Fr')
from tvc.bv import *
from tvc import terms as T
def dims(x):
    B = lambda v: BV(v, 64)
    a, b, r = [[B(t) for t in v] for v in (x.a, x.b, x.r)]
    e = b2v(a[0].eq(b[0]), 64) & b2v(a[1].eq(b[1]), 64)
    x.eq(x.ret, 0); x.eq(x.r[0], x.a[0]); x.eq(x.r[1], x.a[1]); x.eq(x.r[2], e.v); x.eq(x.r[3], (e ^ 1).v); x.eq(x.r[4], 16)
def gd(rng, i):
    a = [rng.choice([0, 1, 7, 2**64-1, rng.getrandbits(64)]) for _ in range(2)]; b = list(a)
    if i % 3: b[i % 2] = rng.choice([0, 1, rng.getrandbits(64)])
    return {'a': a, 'b': b}
S.c('dimensions', 'matrix', 'dims', 'a:u64*2 b:u64*2 -> r:u64*5', dims, gen=gd, n=40, handlers=lambda: [])
# packed rows (vector intrinsics: native)
def packs(N, F):
    m = FIELDS[F]; p = m.p; W = 11 if N == 'b' else 3
    def hor(fn, R, C):
        for row in sorted({0, R-1, R//2}):
            def post(x, R=R, C=C, row=row):
                n, w = divmod(x.ret, 1000); x.true(w in (8, 16) and n == (C+w-1)//w, 'number of packed elements'); a, r = lst(x.a), lst(x.r)
                for i in range(n*w): x.eq(r[i], a[row*C+i] if i < C else 0)
            S.c('%s %s %dx%d row %d' % (N, fn, R, C, row), 'matpack', N + '_' + fn, 'R:u64 C:u64 row:u64 a:%s*%d -> r:%s*%d' % (F, R*C, F, C+32), post, fix={'R': [R], 'C': [C], 'row': [row]}, n=4, sym=False, bound='%dx%d' % (R, C))
    for fn in ('hor', 'horc'):
        for R, C in ((1, 1), (2, 3), (3, 16), (2, 17), (3, 8), (2, 31), (2, 33), (3, 9)): hor(fn, R, C)
    def ver(fn, R, C, row, d):
        def post(x):
            n, w = divmod(x.ret, 1000); x.true(w in (8, 16) and n == C*d, 'number of packed elements'); a, r = lst(x.a), lst(x.r)
            for i in range(C*d):
                for l in range(w): x.eq(r[i*w+l], a[(((row+l) % R)*C + i//d)*d + i % d])
        S.c('%s %s %dx%d row %d' % (N, fn, R, C, row), 'matpack', N + '_' + fn, 'R:u64 C:u64 row:u64 a:%s*%d -> r:%s*%d' % (F, R*C*d, F, C*16*d), post, fix={'R': [R], 'C': [C], 'row': [row]}, n=4, sym=False, bound='%dx%d' % (R, C))
    for R, C in ((1, 1), (3, 2), (16, 2), (20, 3), (32, 1), (5, 4)):
        for row in sorted({0, 1, R-1, R//2, R+3}):
            ver('ver', R, C, row, 1); ver('vere', R, C, row, 4)
    def mul4(a, b):
        t = [0]*7
        for i in range(4):
            for j in range(4): t[i+j] = (t[i+j] + a[i]*b[j]) % p
        return [(t[i] + (W*t[i+4] if i < 3 else 0)) % p for i in range(4)]
    for R, C in ((1, 1), (2, 3), (3, 16), (2, 17), (3, 8), (2, 33), (1, 40)):
        def dot(x, R=R, C=C):
            x.true(x.ret == R, 'one value per row'); b = [v.v for v in lst(x.b)]; a = [v.v for v in lst(x.a)]; r = lst(x.r)
            for i in range(R):
                pw = [1, 0, 0, 0]; s = [0]*4
                for j in range(C): s = [(u + a[i*C+j]*w) % p for u, w in zip(s, pw)]; pw = mul4(pw, b)
                eqs(x, r[4*i:4*i+4], s)
        S.c('%s dot %dx%d' % (N, R, C), 'matpack', N + '_dot', 'R:u64 C:u64 b:%s*4 a:%s*%d -> r:%s*%d' % (F, F, R*C, F, 4*R), dot, fix={'R': [R], 'C': [C]}, n=4, sym=False, bound='%dx%d' % (R, C))
packs('b', 'baby_bear'); packs('k', 'koala_bear')
