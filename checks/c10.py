"""C10: scalar multiplication, GLV and multi-scalar multiplication compute the exact linear combination."""
import random
from tvc.suite import Suite
from tvc.fe import *
from tvc import spec
from tvc.bv import *
S = Suite('C10', 'bounded', assumptions=['prime-field operations satisfy their contracts (check C01); curve point operations satisfy theirs (check C08)',
    'the group algorithms use only the group operations of their Point parameter: they are verified on a stand-in group whose elements are their own discrete logarithm'],
  trusted=['std::vector, std::accumulate and absl::Span code is executed with the code under contract', 'stand-in for perfetto: tracing macros expand to nothing', 'GMP integer operations (GLV decomposition): native runs only'])
S.h('msm', irflags='-I/verif/harness/irstub', objs=['tachyon/math/elliptic_curves/bn/bn254/_objs/fr_config/fr_config.o', 'tachyon/math/finite_fields/test/_objs/gf7_config/gf7_config.o', 'tachyon/math/finite_fields/baby_bear/internal/_objs/baby_bear_config/baby_bear_config.o'])
def lst(v): return list(v) if isinstance(v, (list, tuple)) else [v]
FR = BN254_FR; R = FR.p
SCAL = {'f7': ('gf7', 7), 'fr': ('bn254.Fr', R), 'bb': ('baby_bear', 2013265921)}
def val(v): return v.v if hasattr(v, 'v') else v
def dot(ks, ps):
    t = None
    for k, p in zip(ks, ps):
        u = p * k
        t = u if t is None else t + u
    return 0 if t is None else t
def edge(q, rng):
    c = [0, 1, 2, q - 1, q - 2, (q - 1) // 2, (q + 1) // 2, q // 3]
    if q > 2**40: c += [2**k for k in (63, 64, 127, 128, 191, 192, 252)] + [2**k - 1 for k in (64, 128, 192, 253)] + [sum(4 << 3*i for i in range(83)), sum(3 << 3*i for i in range(84)) % q, sum(7 << 3*i for i in range(84)) % q]
    return rng.choice(c) % q if rng.random() < .5 else rng.randrange(q)
HOW = ['variable-base', 'Pippenger serial', 'Pippenger parallel windows', 'adapter none', 'adapter windows', 'adapter terms', 'adapter windows and terms', 'Pippenger other digits']
rng0 = random.Random(5)
def msm(nm, suffix, how, n, ks, sym=True, gen=None):
    fld, q = SCAL[nm]
    N = max(n, 1)
    def post(x):
        k = [val(v) for v in lst(x.k)][:n]; p = lst(x.p)[:n]
        x.eq(x.ret, 1, 'accepted'); x.eq(lst(x.r)[0], dot([int(v) for v in k], p) if n else 0, 'sum k_i P_i')
    def postk(x):
        if x.sym: x.k = list(ks)
        post(x)
    g = gen or (lambda rng, i: dict(p=[rng.randrange(R) if rng.random() < .7 else rng.choice([0, 1, R - 1]) for _ in range(N)], old=rng.randrange(R)))
    S.c('%s %s%s n=%d%s' % (HOW[how], nm, suffix, n, '' if ks is None else ' k=%s' % '.'.join(hex(k)[2:12] for k in ks[:4])), 'msm', '%s_msm%s' % (nm, suffix), 'how:u64 n:u64 m:u64 p:bn254.Fr*%d k:%s*%d old:bn254.Fr -> r:bn254.Fr' % (N, fld, N), postk if ks is not None else post,
        fix=dict(how=[how], n=[n], m=[n], **({} if ks is None else dict(k=list(ks) or [0]))), gen=g, n=2 if ks is not None else 24, sym=sym, bound='listed scalars' if sym else 'native')
for nm in SCAL:
    q = SCAL[nm][1]
    for sf in ('', 'p'):
        for how in range(8):
            msm(nm, sf, how, 0, [])
            if q == 7:
                for a in range(7): msm(nm, sf, how, 1, [a])
                for a in range(7):
                    for b in range(7):
                        if how in (0, 1, 7): msm(nm, sf, how, 2, [a, b])
                msm(nm, sf, how, 3, [6, 0, 5]); msm(nm, sf, how, 4, [3, 3, 4, 1])
            elif sf == '' or how in (0, 1, 7):
                for i in range(6 if how in (0, 1) else 2):
                    n = [1, 2, 3][i % 3]; msm(nm, sf, how, n, [edge(q, rng0) for _ in range(n)])
            # native, random sizes including the float-sized windows
            for n in (1, 2, 5, 31, 32, 40, 100, 200):
                def gen(rng, i, n=n, q=q):
                    return dict(p=[rng.randrange(R) if rng.random() < .8 else 0 for _ in range(n)], k=[edge(q, rng) for _ in range(n)], old=rng.randrange(R))
                if n < 10 or (how in (0, 1, 7)): msm(nm, sf, how, n, None, sym=False, gen=gen)
        # mismatched sizes are refused and the output is left alone
        for how in range(8):
            for n, m in ((0, 1), (1, 0), (1, 2), (2, 1)):
                def post(x): x.eq(x.ret, 0, 'refused'); x.eq(lst(x.r)[0], x.old, 'output untouched')
                fld = SCAL[nm][0]
                S.c('%s %s%s %d bases %d scalars' % (HOW[how], nm, sf, n, m), 'msm', '%s_msm%s' % (nm, sf), 'how:u64 n:u64 m:u64 p:bn254.Fr*2 k:%s*2 old:bn254.Fr -> r:bn254.Fr' % fld, post, fix=dict(how=[how], n=[n], m=[m], k=[1, 2]), n=2, bound='sizes')
    # fixed base
    def fixed(size, n, m, ks, sym=True, nm=nm, q=q):
        fld = SCAL[nm][0]; N = max(n, 1)
        def post(x):
            k = ks if x.sym else [val(v) for v in lst(x.k)]
            b = lst(x.base)[0]; r = lst(x.r)
            x.eq(x.ret, (3 if n == m else 0) | 4, 'accepted iff the sizes match')
            for i in range(m):
                w = b * int(k[i]) if n == m else 0
                x.eq(r[i], w, 'serial'); x.eq(r[m + i], w, 'parallel')
                if n == m: x.eq(r[2*m + i], w, 'single')
        S.c('fixed-base %s size=%d n=%d m=%d%s' % (nm, size, n, m, '' if ks is None else ' k=%s' % '.'.join(hex(k)[2:12] for k in ks)), 'msm', nm + '_fixed', 'size:u64 n:u64 m:u64 base:bn254.Fr k:%s*%d -> r:bn254.Fr*%d' % (fld, N, max(3*m, 1)), post,
            fix=dict(size=[size], n=[n], m=[m], **({} if ks is None else dict(k=list(ks) or [0]))), gen=lambda rng, i: dict(base=rng.choice([0, 1, rng.randrange(R)]), k=[edge(q, rng) for _ in range(N)] if ks is None else list(ks) or [0]), n=2 if ks is not None else 8, sym=sym, bound='listed scalars' if sym else 'native')
    for n, m in ((0, 0), (0, 1), (1, 0), (2, 1), (1, 2)): fixed(1, n, m, [3, 4][:n])
    if q == 7:
        for a in range(7): fixed(a, 1, 1, [a])
    else:
        for i in range(4): fixed([0, 1, 31, 7][i], 1, 1, [edge(q, rng0)])
    for size in (0, 1, 31, 32, 33, 100, 1000, 4096, 100000): fixed(size, 4, 4, None, sym=False)
    def ctx(x, q=q):
        wb, wc, size = x.ret & 255, x.ret >> 8 & 0xffff, x.ret >> 32; b = q.bit_length()
        x.true(x.ret >> 31 & 1 == 0, 'window length'); x.true(size == x.size, 'size')
        x.true(0 < wb < 32 and wb * wc >= b and wb * (wc - 1) < b, 'windows cover the scalar exactly')
    S.c('window context %s' % nm, 'msm', nm + '_ctx', 'size:u64 -> ', ctx, gen=lambda rng, i: dict(size=i if i < 300 else rng.randrange(2**rng.randrange(1, 32))), n=600, sym=False, bound='native', handlers=lambda: [])
    # element-wise scalar multiplication
    for n in (1, 2, 3):
        for t in range(3 if q > 7 else 7):
            ks = [edge(q, rng0) if q > 7 else (t + 3*i) % 7 for i in range(n)]
            def post(x, ks=ks, n=n):
                p, r = lst(x.p), lst(x.r); k = ks
                x.eq(x.ret, 7, 'accepted iff the sizes match')
                for i in range(n):
                    x.eq(r[i], p[i] * k[i], 'scalars by bases'); x.eq(r[n + i], p[0] * k[i], 'scalars by one base'); x.eq(r[2*n + i], p[i] * k[0], 'one scalar by bases')
            S.c('MultiScalarMul %s k=%s' % (nm, '.'.join(hex(k)[2:12] for k in ks)), 'msm', nm + '_msmb', 'n:u64 p:bn254.Fr*%d k:%s*%d -> r:bn254.Fr*%d' % (n, SCAL[nm][0], n, 3*n), post, fix=dict(n=[n], k=ks), n=2, bound='listed scalars')
# ---- double-and-add
def mul(x):
    k = val(x.k) if not x.sym else K
    x.eq(x.r[0], x.p * k); x.eq(x.r[1], x.p * k)
def mulk(K):
    S.c('scalar multiple %d' % K, 'msm', 'ge_mul', 'k:u64 p:bn254.Fr -> r:bn254.Fr*2', lambda x: (x.eq(x.r[0], x.p * K), x.eq(x.r[1], x.p * K, 'word scalar')), fix=dict(k=[K]), n=2, bound='listed scalars')
for K in list(range(0, 70)) + [2**k + d for k in (7, 16, 31, 32, 33, 62, 63) for d in (-1, 0, 1)] + [2**64 - 1, 0xaaaaaaaaaaaaaaaa, 0x5555555555555555]: mulk(K)
def mul4(ks):
    K = sum(w << 64*i for i, w in enumerate(ks))
    S.c('scalar multiple 0x%x' % K, 'msm', 'ge_mul4', 'k:u64*4 p:bn254.Fr -> r:bn254.Fr', lambda x: x.eq(lst(x.r)[0], x.p * K), fix=dict(k=ks), n=2, bound='listed scalars')
M = 2**64 - 1
for ks in ([0]*4, [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 0, 1 << 63], [M]*4, [M, 0, M, 0], [0, M, 0, 0], [R & M, R >> 64 & M, R >> 128 & M, R >> 192], [(R - 1) & M, R >> 64 & M, R >> 128 & M, R >> 192], [0x123456789abcdef0, 0, 0, 0x10]): mul4(ks)
def gm(rng, i): return dict(k=[rng.choice([0, 1, M, rng.getrandbits(64), 1 << rng.randrange(64)]) for _ in range(4)], p=rng.randrange(R))
S.c('scalar multiples (256 bits)', 'msm', 'ge_mul4', 'k:u64*4 p:bn254.Fr -> r:bn254.Fr', lambda x: x.eq(lst(x.r)[0], x.p * sum(int(val(w)) << 64*i for i, w in enumerate(x.k))), gen=gm, n=300, sym=False, bound='native')
def const(x):
    for i, k in enumerate([0, 1, 2, 3, 4, 5, 6, 7, 8, 1000003]): x.eq(x.r[i], x.p * k, 'constant %d' % k)
S.c('ConstScalarMul', 'msm', 'ge_const', 'p:bn254.Fr -> r:bn254.Fr*10', const, n=6)
for n in range(0, 9):
    def succ(x, n=n):
        x.eq(x.ret, n, 'length')
        for i, r in enumerate(lst(x.r)[:n]): x.eq(r, lst(x.p)[0] * i, 'i P')
    S.c('successive multiples n=%d' % n, 'msm', 'ge_succ', 'n:u64 p:bn254.Fr -> r:bn254.Fr*%d' % max(n, 1), succ, fix=dict(n=[n]), n=3, bound='length')
def grp(x):
    a, b, r = x.a, x.b, x.r
    for i, w in enumerate([a - b, a + b, -a, a - b, a + b, a + a + b + b, b + b]): x.eq(r[i], w, 'group operator %d' % i)
S.c('group operators', 'msm', 'ge_sub', 'a:bn254.Fr b:bn254.Fr -> r:bn254.Fr*7', grp, n=6)
for n in range(1, 9):
    def lc(x, n=n):
        a = lst(x.a); f = b = 0
        for i in range(n): f = f * x.x + a[i]; b = b * x.x + a[n - 1 - i]
        for i, w in enumerate([f, b, f, b]): x.eq(x.r[i], w, ['forward', 'backward', 'forward in place', 'backward in place'][i])
    S.c('linear combination n=%d' % n, 'msm', 'f_lc', 'n:u64 a:bn254.Fr*%d x:bn254.Fr -> r:bn254.Fr*4' % n, lc, fix=dict(n=[n]), n=3, bound='length')
S.c('empty linear combination', 'msm', 'f_lc0', 'x:bn254.Fr -> r:bn254.Fr*2', lambda x: (x.zero(x.r[0]), x.zero(x.r[1])), n=3)
for n in list(range(0, 9)) + [16, 32]:
    def acc(x, n=n):
        t = 0
        for i, b in enumerate(lst(x.b)[:n]): t = b * (i + 1) + t
        x.eq(x.r[0], t + x.init, 'sum of (i+1) bucket_i'); x.eq(x.r[1], t)
    S.c('bucket accumulation n=%d' % n, 'msm', 'acc_buckets', 'n:u64 b:bn254.Fr*%d init:bn254.Fr -> r:bn254.Fr*2' % max(n, 1), acc, fix=dict(n=[n]), n=3, bound='number of buckets')
for n in range(1, 8):
    for wb in (1, 3, 4, 13):
        def accw(x, n=n, wb=wb):
            t = 0
            for i, b in enumerate(lst(x.w)): t = b * (1 << wb*i) + t
            x.eq(lst(x.r)[0], t, 'sum of 2^(wb i) window_i')
        S.c('window accumulation n=%d bits=%d' % (n, wb), 'msm', 'acc_windows', 'n:u64 wb:u64 w:bn254.Fr*%d -> r:bn254.Fr' % n, accw, fix=dict(n=[n], wb=[wb]), n=3, bound='number of windows')
# ---- signed digits: for every scalar
def sext(v, w): return (v.ext(w) ^ (1 << 63)) - (1 << 63)
def wide(k, w):
    t = BV(0, w)
    for i, v in enumerate(k): t = t | (BV(v, 64).ext(w) << 64*i if i else BV(v, 64).ext(w))
    return t
def digits(N, bits, wb):
    n = (bits + wb - 1) // wb; W = 64 * N + 64
    def pre(x):
        c = wide(lst(x.k), W).ult(BV(1 << bits, W))
        return x.assume(c) if x.sym else c
    def post(x):
        d = [BV(v, 64) for v in lst(x.d)]
        # digit i + 2^wb carry i+1 = window i of the scalar + carry i; with the telescoping sum this is sum d_i 2^(wb i) = scalar
        k = wide(lst(x.k), W); c = BV(0, 64)
        for i, v in enumerate(d):
            w = k.bits(min(wb * (i + 1), W) - 1, wb * i).ext(64)
            if i < n - 1:
                # the only carry that keeps the digit within half a window
                nc = (w + c + (1 << (wb - 1))) >> wb
                x.true((v + (nc << wb)).eq(w + c), 'digit %d denotes its window' % i); c = nc
            else: x.true(v.eq(w + c), 'the last digit absorbs the carry')
        for i, v in enumerate(d):
            if i < n - 1: x.true((v + (1 << (wb - 1))).ult(BV(1 << wb, 64)), 'digit within half a window')
            else: x.true(v.ule(BV(1 << wb, 64)), 'last digit within a window')
    gen = lambda rng, i: (lambda K: dict(k=[K >> 64*j & M for j in range(N)]))((1 << bits) - 1 if i == 0 else rng.choice([rng.getrandbits(bits), sum((1 << (wb-1)) << wb*j for j in range(n)) & ((1 << bits) - 1), 0, 1, 1 << (bits - 1)]))
    S.c('signed digits %d bits window %d' % (bits, wb), 'msm', 'fill%d' % N, 'k:u64*%d wb:u64 n:u64 -> d:u64*%d' % (N, n), post, pre=pre, gen=gen, fix=dict(wb=[wb], n=[n]), n=60, handlers=lambda: [], timeout=60, bound='field sizes and window sizes')
for N, bits in ((1, 31), (1, 3), (1, 64), (2, 127), (4, 253), (4, 254), (4, 255), (4, 256)):
    for wb in (3, 4, 5, 8, 13, 16, 21): digits(N, bits, wb)
# ---- the shipped curves (native runs)
from tvc.suite import FEM
from tvc.ecspec import *
from checks.c08 import CURVES, rawpt, BN2, BL2
PKB = lambda *a: ['tachyon/math/base/gmp/_objs/gmp_util/gmp_util.o'] + ['tachyon/math/elliptic_curves/%s/_objs/%s_config/%s_config.o' % (d, f, f) for d in a for f in ('fq', 'fr')]
S.h('msm_ec1', ir=False, objs=PKB('bn/bn254')); S.h('msm_ec3', ir=False, objs=PKB('bls12/bls12_381')); S.h('msm_ec2', ir=False, objs=PKB('secp/secp256k1', 'pasta/pallas', 'pasta/vesta'))
CV = {'bn1': ('msm_ec1', CURVES['ec_bn254', 'g1'], BN254_FR), 'bn2': ('msm_ec1', CURVES['ec_bn254', 'g2'], BN254_FR), 'bl1': ('msm_ec3', CURVES['ec_bls', 'g1'], BLS_FR), 'bl2': ('msm_ec3', CURVES['ec_bls', 'g2'], BLS_FR),
      'secp': ('msm_ec2', CURVES['ec_other', 'secp'], SECP_FR), 'pallas': ('msm_ec2', CURVES['ec_other', 'pallas'], PALLAS_FR), 'vesta': ('msm_ec2', CURVES['ec_other', 'vesta'], VESTA_FR)}
RET = {'a': 'j', 'j': 'j', 'p': 'p', 'x': 'x'}; BUCKET = {'a': 'x', 'j': 'j', 'p': 'p', 'x': 'x'}
def split(v, n):
    v = lst(v); return [v[i:i + n] for i in range(0, len(v), n)]
def same(x, C, k, r, w, label):
    P = affine(C, k, r)
    x.true(P == w if (P is None or w is None) else (P[0] == w[0] and P[1] == w[1]), label)
def gdl(C, rng, dl):
    """point of discrete logarithm dl, from a cached table"""
    if not hasattr(C, 'dlt'): C.dlt = {}
    if dl not in C.dlt: C.dlt[dl] = C.mul(C.G, dl)
    return C.dlt[dl]
DL = [0, 1, 2, 3, 5, 7, 11, 64, -1, -2, -5, 2**100 + 1, 2**200 + 3]
def flat(l): return [c for e in l for c in e]
def scal(q, rng, lam=None):
    if lam and rng.random() < .7:
        a, b = (rng.choice([0, 1, 2, 3, 2**rng.randrange(1, 127), rng.getrandbits(rng.randrange(1, 127))]) * rng.choice([1, -1]) for _ in '12')
        return (a + b * lam) % q
    return edge(q, rng)
# eigenvalue of the endomorphism (x, y) -> (beta x, y) on the subgroup of prime order
LAM = {'bn1': 21888242871839275217838484774961031246154997185409878258781734729429964517155, 'bn2': 4407920970296243842393367215006156084916469457145843978461,
       'bl1': 52435875175126190479447740508185965837461563690374988244538805122978187051009, 'bl2': 228988810152649578064853576960394133503}
def lam(nm): return LAM[nm]
def curve(nm):
    h, C, FRx = CV[nm]; F = C.m.name; q = FRx.p; KF = FRx.name
    for k in 'ajpx':
        rk = RET[k]
        def post(x, k=k, rk=rk):
            P = affine(C, k, lst(x.p)); w = C.mul(P, val(x.k))
            for i, r in enumerate(split(x.r, NC[rk])): same(x, C, rk, r, w, ['P * k', 'ScalarMul(integer)', 'in place'][i])
        def gen(rng, i, k=k): return dict(p=rawpt(C, k, gdl(C, rng, rng.choice(DL)), rng), k=scal(q, rng))
        S.c('%s %s scalar multiplication' % (nm, k), h, '%s_%s_mul' % (nm, k), 'p:%s*%d k:%s -> r:%s*%d' % (F, NC[k], KF, F, 3*NC[rk]), post, gen=gen, n=10, sym=False, bound='native')
        for how in range(6):
            for n in ((0, 1, 2, 5, 33, 70) if how < 2 else (2, 5)):
                if n == 70 and k not in 'a': continue
                bk = BUCKET[k]; N = max(n, 1)
                def post(x, k=k, bk=bk, n=n):
                    x.eq(x.ret, 1)
                    t = None; ks = [val(v) for v in lst(x.k)][:n]; ps = split(x.p, NC[k])[:n]
                    acc = {}
                    for kk, p in zip(ks, ps):
                        P = affine(C, k, p)
                        if P is None: continue
                        key = repr((P[0].v, P[1].v)); acc[key] = (P, acc.get(key, (P, 0))[1] + kk)
                    for P, kk in acc.values(): t = C.add(t, C.mul(P, kk % q))
                    same(x, C, bk, lst(x.r), t, 'sum k_i P_i')
                def gen(rng, i, k=k, n=n, N=N):
                    pool = rng.sample(DL, 3) if i % 2 else [rng.choice(DL)]; z = [1, -1, 0] + pool
                    return dict(p=flat(rawpt(C, k, gdl(C, rng, rng.choice(z if i % 3 else pool)), rng) for _ in range(N)), k=[scal(q, rng) for _ in range(N)])
                S.c('%s %s msm %d n=%d' % (nm, k, how, n), h, '%s_%s_msm' % (nm, k), 'how:u64 n:u64 p:%s*%d k:%s*%d -> r:%s*%d' % (F, N*NC[k], KF, N, F, NC[bk]), post, gen=gen, fix=dict(how=[how], n=[n]), n=4 if n < 33 else 2, sym=False, bound='native')
        for n in (1, 3, 40):
            def post(x, k=k, rk=rk, n=n):
                x.eq(x.ret, 1); P = affine(C, k, lst(x.p))
                for kk, r in zip(lst(x.k), split(x.r, NC[rk])): same(x, C, rk, r, C.mul(P, val(kk)), 'k_i P')
            def gen(rng, i, k=k, n=n): return dict(p=rawpt(C, k, gdl(C, rng, rng.choice(DL)), rng), k=[scal(q, rng) if j < 3 else j for j in range(n)])
            S.c('%s %s fixed-base n=%d' % (nm, k, n), h, '%s_%s_fixed' % (nm, k), 'n:u64 p:%s*%d k:%s*%d -> r:%s*%d' % (F, NC[k], KF, n, F, n*NC[rk]), post, gen=gen, fix=dict(n=[n]), n=2, sym=False, bound='native')
        if nm[:2] not in ('bn', 'bl'): continue
        # lambda: the eigenvalue of the endomorphism; any primitive cube root of unity that the decomposition uses must act as such
        def post(x, k=k, rk=rk):
            P = affine(C, k, lst(x.p)); same(x, C, rk, lst(x.r), C.mul(P, val(x.k)), 'GLV multiple')
            E = affine(C, k, lst(x.e)); l = lam(nm)
            same(x, C, 'a', [conc(C.m, C.m.fin(0))]*2 if E is None else list(E), C.mul(P, l), 'endomorphism acts as lambda')
        def gen(rng, i, k=k): return dict(p=rawpt(C, k, gdl(C, rng, rng.choice(DL)), rng), k=scal(q, rng, lam(nm)))
        S.c('%s %s GLV multiplication' % (nm, k), h, '%s_%s_glv' % (nm, k), 'p:%s*%d k:%s -> r:%s*%d e:%s*%d' % (F, NC[k], KF, F, NC[rk], F, NC[k]), post, gen=gen, n=24, sym=False, bound='native')
        def dec(x):
            r = lst(x.r); big = lambda o: sum(v << 64*i for i, v in enumerate(r[o:o+6]))
            k1 = big(1) * (-1 if r[0] else 1); k2 = big(8) * (-1 if r[7] else 1); l = sum(v << 64*i for i, v in enumerate(r[14:18]))
            x.true(l == lam(nm), 'lambda'); x.true((k1 + k2 * l - val(x.k)) % q == 0, 'k1 + lambda k2 = k')
            x.true(abs(k1).bit_length() <= 130 and abs(k2).bit_length() <= 130, 'both halves are short')
            x.eq(x.ret, (1 if k1 == 0 else 0) | (2 if k2 == 0 else 0), 'sign of zero')
        S.c('%s %s GLV decomposition' % (nm, k), h, '%s_%s_glvdec' % (nm, k), 'k:%s -> r:u64*18' % KF, dec, gen=lambda rng, i: dict(k=scal(q, rng, lam(nm))), n=200, sym=False, bound='native')
for nm in CV: curve(nm)
