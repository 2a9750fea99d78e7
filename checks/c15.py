"""C15: Poseidon / Poseidon2 permutations, their parameters, and the sponges built on them."""
import json, os, random
from tvc.suite import Suite
from tvc.fe import *
from tvc.bv import *
from tvc import terms as T
from tvc import fe as FEM, uf as UF
from tvc.zrun import zprove, zcalls
FR = FIELDS['bn254.Fr']; BB = FIELDS['baby_bear']; KB = FIELDS['koala_bear']; M31F = FIELDS['mersenne31']; GL = FIELDS['goldilocks']
def H():
    UF.reset()
    return [UF.handler('fr', FR), UF.handler('bb', BB), UF.pow_handler(), mi_handler(), FEM.fe_handler()]
S = Suite('C15', 'proof', assumptions=['prime-field operations satisfy their contracts (C01)', 'ConstPow<a>(x) is a function of x equal to x^a (its contract is checked in C01); the proofs use only that equal arguments give equal results'],
  trusted=['clang IR of the templates instantiated in harness/sponge.cc', 'Eigen (its code is executed by the engine as part of the functions under contract, nothing about it is assumed)'], handlers=H)
O = 'tachyon/math/finite_fields/'
S.h('sponge', objs=[O + '%s/internal/_objs/packed_%s_avx2/packed_%s_avx2.o' % (f, f, f) for f in ('baby_bear', 'koala_bear', 'mersenne31')] + [O + '%s/internal/_objs/%s_config/%s_config.o' % (f, f, f) for f in ('baby_bear', 'koala_bear', 'mersenne31', 'goldilocks')])
lst = lambda v: list(v) if isinstance(v, (list, tuple)) else [v]
import re
def mi_handler():
    """internal matrix with shifts (u64 arithmetic on Montgomery words): replaced by its contract, proved below as 'shift layer'"""
    def make(e, f, mt):
        ms = [m for c, m in BYCFG.items() if c in f.dem]
        m = ms[0]
        if m.size > 4 or 'unsigned char' not in f.dem: return None
        def h(e, a):
            vp = e.mem.load(a[0], 8); n = e.mem.load(a[0] + 8, 8); sp = e.mem.load(a[1], 8); k = e.mem.load(a[1] + 8, 8)
            if k + 1 != n: raise Unsupported('shift vector size')
            v = [read_fe(e, m, vp + m.size*i) for i in range(n)]
            sh = [e.mem.load(sp + i, 1) for i in range(k)]
            if not all(isinstance(s, int) and s < 32 for s in sh): raise Unsupported('shifts')
            for i, o in enumerate(shift_layer(m, v, sh)): write_fe(e, m, vp + m.size*i, o)
        return h
    return (re.compile(r'.*Poseidon2Plonky3InternalMatrix<.*>::Apply<'), make)
def shift_layer(m, v, sh):
    ri = m.Ri if m.R != 1 else 1
    s = v[0]
    for u in v[1:]: s = s + u
    return [(s - v[0]*2)*ri] + [(s + u*(1 << k))*ri for u, k in zip(v[1:], sh)]
def mat_vec(M, v):
    r = []
    for row in M:
        s = 0
        for c, x in zip(row, v):
            if not (isinstance(c, int) and c == 0): s = x*c + s
        r.append(s)
    return r
# ---------------------------------------------------------------- Grain LFSR
class Grain:
    def __init__(s, nbits, t, rf, rp, inv=0):
        b = [0]*80; b[1] = 1; b[5] = inv
        def put(v, lo, hi):
            for i in range(hi, lo - 1, -1): b[i] = v & 1; v >>= 1
        put(nbits, 6, 17); put(t, 18, 29); put(rf, 30, 39); put(rp, 40, 49)
        for i in range(50, 80): b[i] = 1
        s.b = b; s.n = nbits
        for _ in range(160): s.step()
    def step(s):
        b = s.b; v = b[62] ^ b[51] ^ b[38] ^ b[23] ^ b[13] ^ b[0]
        s.b = b[1:] + [v]
        return v
    def bit(s):
        while True:
            a = s.step(); c = s.step()
            if a: return c
    def num(s):
        v = 0
        for _ in range(s.n): v = v << 1 | s.bit()
        return v
    def rej(s, p, k):
        r = []
        for _ in range(k):
            while True:
                v = s.num()
                if v < p: r.append(v); break
        return r
    def mod(s, p, k): return [s.num() % p for _ in range(k)]
for nm, m in (('fr', FR), ('bb', BB), ('m31', M31F), ('gl', GL)):
    def lf(nm, m, i):
        rng = random.Random(1000*i + m.p % 977)
        t, rf, rp, inv = rng.choice([1, 2, 3, 9, 24, 4095]), rng.choice([2, 8, 1023]), rng.choice([0, 1, 22, 60, 1023]), rng.randrange(2)
        nops = rng.randrange(1, 5); kind = [rng.randrange(2) for _ in range(nops)]; ln = [rng.randrange(0, 4) for _ in range(nops)]; tot = sum(ln)
        def post(x):
            g = Grain(m.p.bit_length(), t, rf, rp, inv); w = []
            for k, l in zip(kind, ln): w += g.mod(m.p, l) if k else g.rej(m.p, l)
            x.eq(x.ret, tot)
            for a, b in zip(lst(x.out), w): x.eq(a, b)
        S.c('Grain LFSR %s #%d' % (nm, i), 'sponge', 'lfsr_' + nm, 'cfg:u64*5 nops:u64 kind:u64*%d len:u64*%d -> out:%s*%d' % (nops, nops, m.name, max(tot, 1)), post,
            fix=dict(cfg=[m.p.bit_length(), t, rf, rp, inv], nops=[nops], kind=kind, len=ln), n=1, sym=False, bound='one configuration', whynot='a generator with no inputs: each configuration is one execution')
    for i in range(6): lf(nm, m, i)
# ---------------------------------------------------------------- Poseidon parameters and permutation
def minv(M, p):
    n = len(M); A = [list(r) + [int(i == j) for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        k = next((r for r in range(c, n) if A[r][c] % p), None)
        if k is None: return None
        A[c], A[k] = A[k], A[c]
        iv = pow(A[c][c], -1, p); A[c] = [v * iv % p for v in A[c]]
        for r in range(n):
            if r != c and A[r][c]:
                f = A[r][c]; A[r] = [(u - f*v) % p for u, v in zip(A[r], A[c])]
    return [r[n:] for r in A]
def mm(A, B, p): return [[sum(a*b for a, b in zip(r, c)) % p for c in zip(*B)] for r in A]
def tr(A): return [list(c) for c in zip(*A)]
_raw = {}
def raw_params(m, W, FU, PA, skip):
    k = (m.name, W, FU, PA, skip)
    if k not in _raw:
        g = Grain(m.p.bit_length(), W, FU, PA); p = m.p
        ark = [g.rej(p, W) for _ in range(FU + PA)]
        for _ in range(skip): g.mod(p, 2*W)
        xs = g.mod(p, W); ys = g.mod(p, W)
        _raw[k] = ark, [[pow(x + y, -1, p) for y in ys] for x in xs]
    return _raw[k]
def optimise(m, ark, mds, FU, PA):
    """an optimised schedule (round constants moved through the linear layer, sparse partial-round matrices)"""
    p = m.p; W = len(mds); inv = minv(mds, p); h = FU//2
    mv = lambda M, v: [sum(a*b for a, b in zip(r, v)) % p for r in M]
    o = [None]*(FU + PA); o[0] = ark[0]
    for i in list(range(1, h)) + list(range(h + PA + 1, FU + PA)): o[i] = mv(inv, ark[i])
    acc = ark[h + PA]
    for i in range(h, h + PA):
        t = mv(inv, acc); o[FU + PA - i] = [t[0]] + [0]*(W - 1)
        t[0] = 0; acc = [(a + b) % p for a, b in zip(t, ark[FU + PA - i - 1])]
    o[h] = mv(inv, acc)
    mt = tr(mds); acc = mt; sp = []
    for _ in range(PA):
        hat = [r[1:] for r in acc[1:]]; w = mv(minv(hat, p), [r[0] for r in acc[1:]])
        sp.append(([acc[0][0]] + w, acc[0][1:]))     # transpose of [[acc00, acc0*],[w, I]]: row (acc00, w), column acc0*
        mp = [[1] + [0]*(W - 1)] + [[0] + r for r in hat]
        acc = mm(mt, mp, p)
    sp.reverse()
    return o, tr(acc), [s[0] for s in sp], [s[1] for s in sp]
class Lin:
    """affine forms over an open set of symbols, modulo p (exact decision of the permutation identity for all states)"""
    def __init__(s, p): s.p = p; s.memo = {}; s.n = 0
    def var(s): s.n += 1; return {s.n: 1}
    def lc(s, cs, fs, k=0):
        r = {0: k % s.p}
        for c, f in zip(cs, fs):
            if c:
                for i, v in f.items(): r[i] = (r.get(i, 0) + c*v) % s.p
        return {i: v for i, v in r.items() if v}
    def sb(s, f):
        k = tuple(sorted(f.items()))
        if not any(i for i in f): return {0: pow(f.get(0, 0), s.alpha, s.p)} if f.get(0, 0) else {}
        if k not in s.memo: s.memo[k] = s.var()
        return s.memo[k]
def same_permutation(m, alpha, W, FU, PA, ark, mds, o, pre, row, col):
    L = Lin(m.p); L.alpha = alpha; h = FU//2
    st = [L.var() for _ in range(W)]
    add = lambda s, a: [L.lc([1], [f], k) for f, k in zip(s, a)]
    mv = lambda M, s: [L.lc(r, s) for r in M]
    sb = lambda s: [L.sb(f) for f in s]
    a = list(st)
    for i in range(FU + PA):
        a = add(a, ark[i])
        a = sb(a) if i < h or i >= h + PA else [L.sb(a[0])] + a[1:]
        a = mv(mds, a)
    b = add(st, o[0])
    for i in range(1, h): b = mv(mds, add(sb(b), o[i]))
    b = mv(pre, add(sb(b), o[h]))
    for i in range(h + 1, h + PA + 1):
        b[0] = L.lc([1], [L.sb(b[0])], o[i][0])
        v0 = L.lc(row[i - h - 1], b)
        b = [v0] + [L.lc([1, c], [f, b[0]]) for f, c in zip(b[1:], col[i - h - 1])]
    for i in range(h + PA + 1, FU + PA): b = mv(mds, add(sb(b), o[i]))
    b = mv(mds, sb(b))
    return a == b
def poseidon(m, alpha, FU, PA, ark, mds, s):
    h = FU//2
    for i in range(FU + PA):
        s = [v + c for v, c in zip(s, ark[i])]
        s = [UF.sbox(m, alpha, v) for v in s] if i < h or i >= h + PA else [UF.sbox(m, alpha, s[0])] + s[1:]
        s = mat_vec(mds, s)
    return s
flat = lambda M: [v for r in M for v in r]
def resh(v, w): return [list(v[i:i + w]) for i in range(0, len(v), w)]
def pos(nm, m, R, A, FU, PA, sym=True, create=True, skips=(0,), thorough=False):
    W = R + 1; T = FU + PA; F = m.name
    args = 'F*%d mds:F*%d pre:F*%d row:F*%d col:F*%d' % (T*W, W*W, W*W, PA*W, PA*(W - 1))
    ark, mds = raw_params(m, W, FU, PA, skips[0])
    o, pre, row, col = optimise(m, ark, mds, FU, PA)
    fx = dict(ark=flat(o), mds=flat(mds), pre=flat(pre), row=flat(row), col=flat(col))
    def post(x):
        x.eq(x.ret, W, 'state size and mode')
        for i, (a, b) in enumerate(zip(lst(x.r), poseidon(m, A, FU, PA, ark, mds, lst(x.s)))): x.eq(a, b, 'element %d' % i)
    S.c('%s Permute' % nm, 'sponge', nm + '_perm', ('ark:' + args + ' s:F*%d -> r:F*%d' % (W, W)).replace('F', F), post, fix=fx, n=15, sym=sym, timeout=600, whynot='time', thorough=False)
    for sk in skips if create else ():
        def cpost(x, sk=sk):
            x.eq(x.ret, 0, 'valid configuration')
            ra, rm = raw_params(m, W, FU, PA, sk)
            g = lambda v: [int(u.v) for u in lst(v)]
            x.eq(lst(x.mds), flat(rm), 'MDS matrix from the generator')
            a = resh(g(x.ark), W)
            x.true(same_permutation(m, A, W, FU, PA, ra, rm, a, resh(g(x.pre), W), resh(g(x.row), W), resh(g(x.col), W - 1)), 'optimised schedule equals the reference permutation for every state')
        S.c('%s Create skip %d' % (nm, sk), 'sponge', nm + '_create', ('skip:u64 -> ark:' + args).replace('F', F), cpost, fix=dict(skip=[sk]), n=1, sym=False, bound='one configuration', whynot='no inputs: one execution; the resulting constants are then decided for every state')
        def fpost(x, sk=sk):
            ra, rm = raw_params(m, W, FU, PA, sk)
            x.eq(x.ret, W)
            for i, (a, b) in enumerate(zip(lst(x.r), poseidon(m, A, FU, PA, ra, rm, lst(x.s)))): x.eq(a, b, 'element %d' % i)
        for fn in ('full', 'copy'):
            S.c('%s %s skip %d' % (nm, 'Create+Permute' if fn == 'full' else 'serialisation round trip', sk), 'sponge', nm + '_' + fn, ('skip:u64 s:F*%d -> r:F*%d' % (W, W)).replace('F', F), fpost, fix=dict(skip=[sk]), n=3, sym=False, bound='sampled', whynot='constant generation is outside the engine\'s budget')
pos('pfr3', FR, 2, 5, 8, 10, skips=(0, 1, 2))
pos('pfr17', FR, 2, 17, 8, 31)
pos('pfrs', FR, 1, 5, 4, 3, skips=(0, 3))
pos('pfr5', FR, 4, 5, 8, 60)
pos('pfr9', FR, 8, 5, 8, 63)
pos('pbb16', BB, 15, 7, 8, 22)
pos('pbb24', BB, 23, 7, 8, 22)
pos('pgl8', GL, 7, 7, 8, 22, create=False)   # Create needs One(), see the Goldilocks finding of C01
for n in (2, 3, 5, 9):
    def sp(n):
        def post(x):
            row, col, v = lst(x.row), lst(x.col), lst(x.v)
            s = 0
            for a, b in zip(row, v): s = s + a*b
            for i, (a, b) in enumerate(zip(lst(x.r), [s] + [u + c*v[0] for u, c in zip(v[1:], col)])): x.eq(a, b, 'product %d' % i)
            for i in range(n):
                for j in range(n): x.eq(lst(x.m)[i*n + j], row[j] if i == 0 else col[i - 1] if j == 0 else int(i == j), 'entry %d,%d' % (i, j))
            x.eq(x.ret, 1, 'rebuilt from its matrix')
        S.c('SparseMDSMatrix %d' % n, 'sponge', 'sparse_fr', ('n:u64 row:F*%d col:F*%d v:F*%d -> r:F*%d m:F*%d' % (n, n - 1, n, n, n*n)).replace('F', FR.name), post, fix=dict(n=[n]), n=10)
    sp(n)
# ---------------------------------------------------------------- Poseidon2
M4 = {'h': [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]], 'p': [[2, 3, 1, 1], [1, 2, 3, 1], [1, 1, 2, 3], [3, 1, 1, 2]]}
def ext(v, W):
    if W == 2: return [[2, 1], [1, 2]]
    if W == 3: return [[2, 1, 1], [1, 2, 1], [1, 1, 2]]
    b = M4[v]
    if W == 4: return b
    return [[b[i % 4][j % 4] * (2 if i//4 == j//4 else 1) for j in range(W)] for i in range(W)]
for v in 'hp':
    for W in (2, 3, 4, 8, 12, 16, 20, 24):
        def post(x, v=v, W=W):
            E = ext(v, W)
            for i, (a, b) in enumerate(zip(lst(x.r), mat_vec(E, lst(x.v)))): x.eq(a, b, 'element %d' % i)
            for i in range(W):
                for j in range(W): x.eq(lst(x.m)[i*W + j], E[i][j], 'entry %d,%d' % (i, j))
        S.c('external matrix %s width %d' % ({'h': 'Horizen', 'p': 'Plonky3'}[v], W), 'sponge', 'ext%s_%d' % (v, W), ('v:F*%d -> r:F*%d m:F*%d' % (W, W, W*W)).replace('F', FR.name), post, n=10)
for n in (2, 3, 8, 16):
    def post(x, n=n):
        v = lst(x.v); s = 0
        for u in v: s = s + u
        for i, (a, u, d) in enumerate(zip(lst(x.r), v, lst(x.d))): x.eq(a, u*d + s, 'element %d' % i)
    S.c('internal matrix %d' % n, 'sponge', 'int_fr', ('n:u64 d:F*%d v:F*%d -> r:F*%d' % (n, n, n)).replace('F', FR.name), post, fix=dict(n=[n]), n=10)
BBS16 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15]
BBS24 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 19, 20, 21, 22, 23]
SHIFTS = {('baby_bear', 16): BBS16, ('baby_bear', 24): BBS24,
  ('koala_bear', 16): list(range(14)) + [15], ('koala_bear', 24): list(range(22)) + [23],
  ('mersenne31', 16): [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 14, 15, 16], ('mersenne31', 24): [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]}
for nm, m in (('bb', BB), ('kb', KB), ('m31', M31F)):
    for sh in ([3], [0, 30], [0, 1, 2, 3, 4, 5, 6], SHIFTS[m.name, 16], SHIFTS[m.name, 24]):
        n = len(sh) + 1
        def post(x, m=m, sh=sh):
            for i, (a, b) in enumerate(zip(lst(x.r), shift_layer(m, lst(x.v), sh))): x.eq(a, b, 'element %d' % i)
        S.c('shift layer %s width %d' % (m.name, n), 'sponge', 'shf_' + nm, ('n:u64 sh:u8*%d v:F*%d -> r:F*%d' % (n - 1, n, n)).replace('F', m.name), post, fix=dict(n=[n], sh=sh), n=20,
            gen=lambda rng, i, m=m, n=n: dict(v=[rng.choice([0, 1, m.p - 1, m.dec(m.p - 1), rng.randrange(m.p)]) for _ in range(n)]) , run=zprove, handlers=lambda m=m: zcalls({'ToBigInt', 'Negate', 'AddR'} if m is M31F else {'ToBigInt', 'Negate', 'Add'})())
# the linear layer over Mersenne31 adds words equal to p: contract of Add on that larger domain
def addr_pre(x):
    P = M31F.p
    if not x.sym: return x.a <= P and x.b <= P and x.a + x.b < 2*P
    x.assume(T.ule(x.a, P)); x.assume(T.ule(x.b, P)); x.assume((BV(x.a, 32).ext(34) + BV(x.b, 32).ext(34)).ult(BV(2*P, 34)))
def addr(x):
    s = BV(x.a, 32).ext(34) + BV(x.b, 32).ext(34); P = BV(M31F.p, 34)
    x.true(BV(x.r, 32).ext(34).eq(ite(s.ult(P), s, s - P)), 'canonical sum')
S.c('Add mersenne31 on words up to p', 'sponge', 'addraw_m31', 'a:u32 b:u32 -> r:u32', addr, pre=addr_pre, n=200, handlers=lambda: [], gen=lambda rng, i: (lambda a: dict(a=a, b=rng.choice([0, 1, M31F.p - 1, M31F.p - a - (a < M31F.p), M31F.p - a, rng.randrange(M31F.p)])))(rng.choice([0, 1, M31F.p, M31F.p - 1, rng.randrange(M31F.p)])))
def ark2(m, W, FU, PA):
    g = Grain(m.p.bit_length(), W, FU, PA)
    return [g.rej(m.p, W if i < FU//2 or i >= FU//2 + PA else 1) for i in range(FU + PA)]
def poseidon2(m, A, FU, PA, ark, E, inner, s):
    h = FU//2; W = len(s)
    s = mat_vec(E, s)
    for i in range(FU + PA):
        if i < h or i >= h + PA:
            s = mat_vec(E, [UF.sbox(m, A, v + c) for v, c in zip(s, ark[i])])
        else: s = inner([UF.sbox(m, A, s[0] + ark[i][0])] + s[1:])
    return s
def inner_of(m, diag, sh):
    if sh is not None: return lambda s: shift_layer(m, s, sh)
    def f(s):
        t = s[0]
        for u in s[1:]: t = t + u
        return [u*d + t for u, d in zip(s, diag)]
    return f
def p2(nm, m, R, A, FU, PA, ev, shifts, sym=True):
    W = R + 1; F = m.name; rng = random.Random(W*FU + PA)
    ark = [[rng.randrange(m.p) for _ in range(W)] for _ in range(FU + PA)]
    diag = [rng.randrange(m.p) for _ in range(W)]
    sh = SHIFTS[m.name, W] if shifts else None
    E = ext(ev, W)
    def post(x):
        x.eq(x.ret, W, 'state size and mode')
        for i, (a, b) in enumerate(zip(lst(x.r), poseidon2(m, A, FU, PA, ark, E, inner_of(m, diag, sh), lst(x.s)))): x.eq(a, b, 'element %d' % i)
    S.c('%s Permute' % nm, 'sponge', nm + '_perm', ('ark:F*%d diag:F*%d sh:u8*%d s:F*%d -> r:F*%d' % (W*(FU + PA), W, R, W, W)).replace('F', F), post, fix=dict(ark=flat(ark), diag=diag, sh=sh or [0]*R), n=15, sym=sym, timeout=600)
p2('qfr2', FR, 1, 5, 4, 5, 'h', False); p2('qfr3', FR, 2, 5, 8, 56, 'h', False); p2('qfr4', FR, 3, 5, 8, 12, 'p', False); p2('qfr8', FR, 7, 5, 6, 4, 'h', False); p2('qfr12', FR, 11, 5, 4, 3, 'p', False)
p2('qgl8', GL, 7, 7, 8, 22, 'h', False)
p2('qbb16hp', BB, 15, 7, 8, 13, 'h', True); p2('qbb16pp', BB, 15, 7, 8, 13, 'p', True); p2('qbb16hh', BB, 15, 7, 8, 13, 'h', False); p2('qbb24pp', BB, 23, 7, 8, 21, 'p', True)
p2('qkb16pp', KB, 15, 7, 8, 13, 'p', True); p2('qkb16hh', KB, 15, 3, 4, 3, 'p', False); p2('qm16pp', M31F, 15, 7, 8, 13, 'p', True)
# parameter sets shipped with the library
def polymul(a, b, f, p):
    n = len(f) - 1; r = [0]*(2*n)
    for i, u in enumerate(a):
        if u:
            for j, v in enumerate(b): r[i + j] = (r[i + j] + u*v) % p
    for i in range(2*n - 1, n - 1, -1):
        c = r[i]
        if c:
            for j in range(n + 1): r[i - n + j] = (r[i - n + j] - c*f[j]) % p
    return r[:n]
def charpoly(M, p):
    """Faddeev-LeVerrier; monic, low degree first"""
    n = len(M); c = [0]*n + [1]; A = [[0]*n for _ in range(n)]
    for k in range(1, n + 1):
        A = mm(M, A, p) if k > 1 else A
        for i in range(n): A[i][i] = (A[i][i] + c[n - k + 1]) % p
        MA = mm(M, A, p)
        c[n - k] = -sum(MA[i][i] for i in range(n)) * pow(k, -1, p) % p
    return c
def gcd1(a, f, p):
    """gcd(a, f) constant?"""
    a = a[:]; f = f[:]
    def deg(v):
        d = len(v) - 1
        while d >= 0 and v[d] % p == 0: d -= 1
        return d
    while True:
        da = deg(a)
        if da < 0: return deg(f) == 0
        df = deg(f)
        while df >= da:
            q = f[df] * pow(a[da], -1, p) % p
            for j in range(da + 1): f[df - da + j] = (f[df - da + j] - q*a[j]) % p
            df = deg(f)
        a, f = f, a
def irreducible(f, p):
    n = len(f) - 1; x = [0, 1] + [0]*(n - 2) if n > 1 else None
    if n == 1: return True
    def frob(a):
        r = [1] + [0]*(n - 1); e = p
        while e:
            if e & 1: r = polymul(r, a, f, p)
            a = polymul(a, a, f, p); e >>= 1
        return r
    a = x; qs = [q for q in range(2, n + 1) if n % q == 0 and all(q % d for d in range(2, q))]
    for i in range(1, n + 1):
        a = frob(a)
        if any(i == n//q for q in qs) and not gcd1([(u - v) % p for u, v in zip(a, x)], f, p): return False
    return a == x
ROUNDS = {(31, 16, 7): 13, (31, 24, 7): 21, (64, 8, 7): 22, (64, 12, 7): 22, (64, 16, 7): 22, (64, 20, 7): 22}
def p2c(nm, m, R, A, ev, shifts, p_, PA, F=None, full=True, packed=False, golden=None):
    W = R + 1; F = F or m.name; p = p_
    key = (m.name, W)
    state = {}
    def gone(x): pass
    S.c('%s rounds' % nm, 'sponge', nm + '_rounds', '-> o:u64*3', lambda x: (x.eq(x.o[0], 8, 'full rounds'), x.eq(x.o[1], PA, 'partial rounds'), x.eq(x.o[2], W, 'width')), n=1, sym=False, bound='one configuration', whynot='no inputs', only_ir=False)
    T = 8 + PA
    def cpost(x):
        w = ark2(m, W, 8, PA); a = resh(lst(x.ark), W)
        for i in range(T):
            for j in range(len(w[i])): x.eq(a[i][j], w[i][j], 'round constant %d,%d' % (i, j))
        if shifts:
            x.eq(x.ret, 2, 'only shifts'); x.eq(lst(x.sh), SHIFTS[key], 'shifts')
            D = [p - 2] + [1 << s for s in SHIFTS[key]]
        else:
            x.eq(x.ret, 1, 'only a diagonal'); D = [int(v.v) for v in lst(x.diag)]
        M = [[(1 + D[i]*(i == j)) % p for j in range(W)] for i in range(W)]
        x.true(minv(M, p) is not None, 'internal matrix is invertible')
        if os.environ.get('TVC_DUMP_DIAG') and not shifts: open(os.environ['TVC_DUMP_DIAG'], 'a').write(json.dumps([nm, D, irreducible(charpoly(M, p), p)]) + '\n')
        if not shifts: x.eq(D, golden, 'published diagonal')
    S.c('%s CreateDefault' % nm, 'sponge', nm + '_create', ('-> ark:F*%d diag:F*%d sh:u8*%d' % (T*W, W, R)).replace('F', F), cpost, n=1, sym=False, bound='one configuration', whynot='no inputs: one execution')
    def D():
        if shifts: return None
        return golden
    def fpost(x):
        w = ark2(m, W, 8, PA)
        for i, (a, b) in enumerate(zip(lst(x.r), poseidon2(m, A, 8, PA, w, ext(ev, W), inner_of(m, golden, SHIFTS[key] if shifts else None), lst(x.s)))): x.eq(a, b, 'element %d' % i)
        x.eq(x.ret, W if full else 0)
    S.c('%s default permutation' % nm, 'sponge', nm + '_full', ('s:F*%d -> r:F*%d' % (W, W)).replace('F', F), fpost, n=6, sym=False, bound='sampled', whynot='constant generation is outside the engine\'s budget')
    S.c('%s serialisation round trip' % nm, 'sponge', nm + '_copy', ('s:F*%d -> r:F*%d' % (W, W)).replace('F', F), fpost, n=3, sym=False, bound='sampled', whynot='constant generation is outside the engine\'s budget')
    if packed:
        def ppost(x):
            x.eq(x.ret, 0, 'every lane equals the scalar permutation')
            w = ark2(m, W, 8, PA)
            for a, b in zip(lst(x.r), poseidon2(m, A, 8, PA, w, ext(ev, W), inner_of(m, golden, SHIFTS[key] if shifts else None), lst(x.s)[:W])): x.eq(a, b)
        S.c('%s packed' % nm, 'sponge', nm + '_packed', ('s:F*%d -> r:F*%d' % (2*W, W)).replace('F', F), ppost, n=6, sym=False, bound='sampled', whynot='vector intrinsics')
DG = {k: [int(v, 16) for v in d] for k, d in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c15_diagonals.json'))).items()}
BL = FIELDS['bls12_381.Fr']; VE = FIELDS['vesta.Fr']; PL = FIELDS['pallas.Fr']
def P(nm, m, R, A, ev, shifts, PA, packed=False): p2c(nm, m, R, A, ev, shifts, m.p, PA, packed=packed, golden=DG.get(nm))
P('cbn3', FR, 2, 5, 'h', False, 56); P('cbls2', BL, 1, 5, 'h', False, 56); P('cbls3', BL, 2, 5, 'h', False, 56); P('cbls4', BL, 3, 5, 'h', False, 56); P('cbls4p', BL, 3, 5, 'p', False, 56); P('cbls8', BL, 7, 5, 'h', False, 56)
P('cvesta3', VE, 2, 5, 'h', False, 56); P('cpal3', PL, 2, 5, 'h', False, 56); P('cpal4', PL, 3, 5, 'p', False, 56); P('cpal8', PL, 7, 5, 'h', False, 56)
P('cgl8', GL, 7, 7, 'h', False, 22); P('cgl12', GL, 11, 7, 'h', False, 22); P('cgl16', GL, 15, 7, 'p', False, 22); P('cgl20', GL, 19, 7, 'h', False, 22)
P('cbb16hh', BB, 15, 7, 'h', False, 13, True); P('cbb16hp', BB, 15, 7, 'h', True, 13, True); P('cbb16pp', BB, 15, 7, 'p', True, 13, True); P('cbb24hh', BB, 23, 7, 'h', False, 21); P('cbb24pp', BB, 23, 7, 'p', True, 21, True)
P('ckb16', KB, 15, 7, 'p', True, 13, True); P('ckb24', KB, 23, 7, 'h', True, 21, True); P('cm16', M31F, 15, 7, 'p', True, 13, True); P('cm24', M31F, 23, 7, 'p', True, 21, True)
# ---------------------------------------------------------------- sponges over an arbitrary permutation
def sponge(m, R, C, s, mode, ops, ins):
    """duplex sponge: (outputs, state, mode); a block of R cells after the C capacity cells is filled / read, the
    permutation is applied exactly when a cell beyond the block is needed or the direction changes"""
    perm = lambda s: UF.apply(m, 1, s, R + C)
    s = list(s); sq, pos = mode; out = []; ins = list(ins)
    for op, k in ops:
        if op == 0:
            if sq: s = perm(s); sq, pos = 0, 0
            elif pos == R: s = perm(s); pos = 0
            for _ in range(k):
                if pos == R: s = perm(s); pos = 0
                s[C + pos] = s[C + pos] + ins.pop(0); pos += 1
        else:
            if not sq: s = perm(s); sq, pos = 1, 0
            elif pos == R: s = perm(s); pos = 0
            for _ in range(k):
                if pos == R: s = perm(s); pos = 0
                out.append(s[C + pos]); pos += 1
    return out, s, (sq, pos)
def toy(nm, m, R, C):
    F = m.name; W = R + C
    def script(mode, ops, tag):
        ni = sum(k for o, k in ops if not o); no = sum(k for o, k in ops if o)
        def post(x):
            x.eq(x.ret, W, 'completes')
            out, st, md = sponge(m, R, C, lst(x.s), mode, ops, lst(x.inp)[:ni])
            for i, v in enumerate(out): x.eq(lst(x.out)[i], v, 'output %d' % i)
            for i, v in enumerate(st): x.eq(lst(x.so)[i], v, 'state %d' % i)
            x.eq(x.mo[0], md[0], 'mode'); x.eq(x.mo[1], md[1], 'position')
        S.c('duplex sponge %s %s %s' % (nm, 'SA'[not mode[0]] + str(mode[1]), ' '.join('%s%d' % ('AST'[o], k) for o, k in ops)), 'sponge', nm + '_script',
            ('s:F*%d mode:u64*2 nops:u64 op:u64*%d len:u64*%d inp:F*%d -> out:F*%d so:F*%d mo:u64*2' % (W, len(ops), len(ops), max(ni, 1), max(no, 1), W)).replace('F', F), post,
            fix=dict(mode=list(mode), nops=[len(ops)], op=[o for o, _ in ops], len=[k for _, k in ops]), n=2, bound='one script of operations')
    for sq in (0, 1):
        for pos in range(R + 1):
            for k in range(0, 2*R + 2):
                script((sq, pos), [(0, k)], ''); script((sq, pos), [(1, k)], '')
                if k <= R + 1: script((sq, pos), [(2, k)], '')
    rng = random.Random(R*10 + C)
    for i in range(12): script((rng.randrange(2), rng.randrange(R + 1)), [(rng.randrange(3), rng.randrange(0, 2*R + 2)) for _ in range(rng.randrange(2, 5))], '')
    for n in range(0, 3*R + 2):
        for fn, o in (('pfs', C), ('pfs2', W)):
            def post(x, n=n, o=o):
                s = [0]*W; v = lst(x.inp)[:n]
                for i in range(0, n, R):
                    for j, u in enumerate(v[i:i+R]): s[j] = u
                    s = UF.apply(m, 1, s, W)
                for a, b in zip(lst(x.out), s): x.eq(a, b)
            S.c('padding-free sponge %s %s %d' % (nm, fn, n), 'sponge', nm + '_' + fn, ('n:u64 inp:F*%d -> out:F*%d' % (max(n, 1), o)).replace('F', F), post, fix=dict(n=[n]), n=2, bound='input length')
toy('t21', FR, 2, 1); toy('t31', FR, 3, 1); toy('t22', FR, 2, 2); toy('t11', FR, 1, 1); toy('b43', BB, 4, 3)
for ch, n, W in ((2, 2, 4), (1, 2, 3), (1, 3, 5), (3, 2, 7)):
    def post(x, ch=ch, n=n, W=W):
        for a, b in zip(lst(x.out), UF.apply(FR, 1, lst(x.inp) + [0]*(W - ch*n), W)): x.eq(a, b)
    S.c('truncated permutation %dx%d' % (n, ch), 'sponge', 'tr_%d_%d' % (ch, n), ('inp:F*%d -> out:F*%d' % (ch*n, ch)).replace('F', FR.name), post, n=3)
# values absorbed through other types
def ser(fn, m, w):
    def post(x):
        v = int(x.v) if not x.sym else x.v
        if not x.sym:
            if v >= m.p: x.eq(x.ret, 0, 'refused'); return
            x.eq(x.ret, 257, 'one element'); x.eq(x.out, v)
        else: pass
    S.c('serialise ' + fn, 'sponge', fn, 'v:u%d -> out:%s' % (w, m.name), post, n=200, sym=False, bound='sampled', whynot='PrimeField constructor from machine words is under contract in C01',
        gen=lambda rng, i: dict(v=rng.choice([0, 1, m.p - 1, m.p, m.p + 1, 2**w - 1, rng.getrandbits(w)]) % 2**w))
for w in (8, 32, 64): ser('ser_u%d' % w, FR, w); ser('serb_u%d' % w, BB, w)
for n in range(4):
    for fn, t in (('vu64', 'u64'), ('vf', 'F'), ('sf', 'F')):
        def post(x, n=n):
            x.eq(x.ret, 256 + n)
            for i, v in enumerate(lst(x.out)): x.eq(v, lst(x.v)[i] if i < n else 0)
        S.c('serialise %s %d' % (fn, n), 'sponge', 'ser_' + fn, ('n:u64 v:%s*%d -> out:F*3' % (t, max(n, 1))).replace('F', FR.name), post, fix=dict(n=[n]), n=10, sym=fn != 'vu64', whynot='constructor from words')
S.c('serialise array', 'sponge', 'ser_af', 'v:F*3 -> out:F*3'.replace('F', FR.name), lambda x: (x.eq(x.ret, 259), x.eq(lst(x.out), lst(x.v))), n=5)
def stc(x):
    x.eq(x.ret, 0); x.eq(lst(x.so), lst(x.s)); x.eq(lst(x.mo), [x.mode[0], x.mode[1]])
S.c('sponge state serialisation', 'sponge', 'st_copy', 's:F*3 mode:u64*2 -> so:F*3 mo:u64*2'.replace('F', FR.name), stc, n=20, sym=False, bound='sampled', whynot='byte buffers', gen=lambda rng, i: dict(mode=[rng.randrange(2), rng.randrange(3)]))
def ste(x):
    same = all([x.isz(a - b) for a, b in zip(lst(x.s), lst(x.t))]) and list(x._m) == list(x._n) if False else None
for mo in ([0, 0], [0, 1], [1, 0]):
    for mo2 in ([0, 0], [0, 1], [1, 0]):
        def post(x, mo=mo, mo2=mo2):
            same = mo == mo2
            for a, b in zip(lst(x.s), lst(x.t)):
                if not x.isz(a - b): same = False; break
            x.eq(x.ret, 1 if same else 2)
        S.c('sponge state equality %s %s' % (mo, mo2), 'sponge', 'st_eq', 's:F*3 mode:u64*2 t:F*3 mode2:u64*2 ->'.replace('F', FR.name), post, fix=dict(mode=mo, mode2=mo2), n=10,
            gen=lambda rng, i: (lambda v: dict(s=v, t=[v[0], v[1], v[2] + rng.randrange(2)] if rng.randrange(2) else [v[0] + 1, v[1], v[2]]))([rng.randrange(100) for _ in range(3)]))
