"""C05: every lane of a packed (vector-register) field computes the field operation."""
import os, re
from tvc.suite import Suite
from tvc.fe import *
from tvc.zrun import zprove, zcalls
from tvc.zrun import resolve, ZMod, canon_limbs, ZErr, ZP, Num
from tvc.engine import Unsupported
from tvc import terms as T
from tvc.terms import Term
S = Suite('C05', 'proof', assumptions=['scalar prime-field operations satisfy their contracts (check C01)'],
  trusted=['lane semantics of the x86 vector intrinsics as LLVM IR defines them (clang lowers them to generic vector instructions; llvm.x86.avx2.psign.d is modelled by hand)'], handlers=lambda: [])
CPU = open('/proc/cpuinfo').read()
def lst(v): return list(v) if isinstance(v, (list, tuple)) else [v]
def depends(t, names, memo):
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, Term) or x.id in memo: continue
        memo.add(x.id)
        if x.op == 'var':
            if x.args[0] in names: return True
        else: st.extend(x.args)
    return False
def redcall(m):
    """calls of the signed Montgomery reduction replaced by its contract (proved separately):
    for -2^31 p <= C < 2^31 p the upper half is a signed D, |D| < p, with D 2^32 = C modulo p; the lower half is anything"""
    p = m.p; inv = pow(p, -1, 2**32)
    def make(e, f, mt):
        if len(f.params) != 3: return None
        if f.ret.k != 'vec': return None
        return h
    def h(e, a):
        x = e.zx; Z = x.Z
        if not hasattr(x, 'names'): x.names = {'a%d_0' % x.lane}; x.nv = 0; x.memo = {}; x.red = True
        def fresh(tag, w, lo=0, hi=None):
            x.nv += 1; n = '%s%d' % (tag, x.nv)
            return n, T.var(n, w, lo, (1 << w) - 1 if hi is None else hi)
        R = lambda t: resolve(e, t, x.memo)
        def sv(t, w):
            """signed value of t on this path"""
            def K(v, w): v -= v >> (w-1) << w; return ZP.c(v), v, v
            if not isinstance(t, Term): return K(t, w)
            if t.op == 'mul' and w == 64:
                A, al, ah = sv(t.args[0], 64); B, bl, bh = sv(t.args[1], 64)
                q = (al*bl, al*bh, ah*bl, ah*bh)
                if min(q) < -2**63 or max(q) >= 2**63: raise ZErr('product beyond 64 bits')
                return A * B, min(q), max(q)
            if t.op == 'sext':
                fw = t.args[0].w; v = R(t.args[0])
                if not isinstance(v, Term): return K(v, fw)
                if T.lo_(v) >= 1 << (fw-1) or T.hi_(v) >= 1 << (fw-1) and not e.decide(T.ult(v, 1 << (fw-1))): return Z.val(v) - (1 << fw), max(T.lo_(v), 1 << (fw-1)) - (1 << fw), T.hi_(v) - (1 << fw)
                return Z.val(v), T.lo_(v), min(T.hi_(v), (1 << (fw-1)) - 1)
            v = R(t)
            if T.hi_(v) >= 1 << (w-1): raise ZErr('sign of an operand of the reduction')
            return Z.val(v), T.lo_(v), T.hi_(v)
        x.viac = True
        out = []
        for k, c in enumerate(a[0]):
            if not depends(c, x.names, set()): out.append(fresh('any', 64)[1]); continue
            for q, want in ((a[1][k], p), (a[2][k], inv)):
                if isinstance(q, Term) or q & 0xffffffff != want: raise Unsupported('constant operand of the reduction')
            C, lo, hi = sv(c, 64); x.nob += 1
            if not (-p << 31) <= lo <= hi < p << 31: x._fail('operand of the signed reduction', 'range [%d, %d]' % (lo, hi))
            g = C * pow(2, -32, p); n, neg = fresh('neg', 1)
            if e.decide(neg): n, d = fresh('red', 32, 0, p - 2); d = T.add(d, 2**32 - p + 1, 32); E = Z.val(d) - 2**32 - g
            else: n, d = fresh('red', 32, 0, p - 1); E = Z.val(d) - g
            x.names.add(n)
            E = ZP({k: v % p for k, v in E.d.items() if v % p}); ld = (Z.vmap[n],); Z.rows.append((p, ld, E * pow(E.d[ld], -1, p)))
            out.append(T.concat(d, 32, fresh('any', 32)[1], 32))
        return out
    return [(re.compile(r'tachyon::math::PartialMontyRed(?:UnsignedToSigned|SignedToSigned)\('), make)]
def mulcall(m):
    """P::Mul replaced by its contract (proved separately): every lane canonical and the product"""
    p = m.p
    def make(e, f, mt):
        if len(f.params) != 3: return None
        def h(e, a):
            x = e.zx; Z = x.Z; x.viac = True; N = 16 if '512' in f.name or 'AVX512' in mt.group(0) else 8
            ts = []
            for k in range(N):
                u, v = e.mem.load(a[1] + 4*k, 4), e.mem.load(a[2] + 4*k, 4)
                if k != x.lane: ts.append(0); continue
                P, Q = Z.opd(u), Z.opd(v)
                for W in (P, Q): x.below(Num(W, None, 0), p, 'operand of Mul')
                ts += canon_limbs(Z, m, P*Q*m.Ri)
            for k, t in enumerate(ts): e.mem.store(a[0] + 4*k, 4, t)
        return h
    return [(re.compile(r'tachyon::math::Packed\w+AVX(?:2|512)::Mul\('), make)]
def rng_(rng, p): return rng.choice([0, 1, 2, p - 1, p - 2, (p - 1)//2, (p + 1)//2, rng.randrange(p), rng.randrange(p), rng.randrange(p), rng.randrange(1 << rng.randrange(1, 31)) % p])
def rel(x):
    a, b = [int(v.v) for v in lst(x.a)], [int(v.v) for v in lst(x.b)]
    x.eq(x.ret, (a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5)
def isz(x):
    a = [int(v.v) for v in lst(x.a)]; p = lst(x.a)[0].p if hasattr(lst(x.a)[0], 'p') else lst(x.a)[0].m.p
    x.eq(x.ret, all(v == 0 for v in a) | all(v == 1 for v in a) << 1 | all(v == p - 1 for v in a) << 2)
def field(h, m, v, N, raw, exp):
    F = m.name; p = m.p; nm = '%s x%d' % (F, N); NAT = v == 2 or 'avx512f' in CPU
    S.h(h, flags='-mavx2' if v == 2 else '-mavx512f -mfma -DTACHYON_HAS_AVX512', native=NAT)
    g = lambda rng, i: dict((k, [rng_(rng, p) for _ in range(N)]) for k in 'ab')
    def relg(rng, i):
        a = [rng_(rng, p) for _ in range(N)]; b = list(a)
        if i % 4: j = rng.randrange(N); b[j] = rng_(rng, p); j = rng.randrange(N); b[j] = (a[j] + rng.randrange(3)) % p
        return dict(a=a, b=b)
    def isg(rng, i):
        a = [rng.choice([0, 1, p - 1])] * N
        if i % 2: a[rng.randrange(N)] = rng_(rng, p)
        return dict(a=a)
    def c(fn, args, post, **k):
        k.setdefault('run', zprove); k.setdefault('n', 60); k.setdefault('gen', g); k.setdefault('lanes', N if fn not in ('const',) else 0)
        return S.c('%s %s' % (nm, k.pop('nm', fn)), h, 'k_' + fn, args.replace('V', '%s*%d' % (F, N)), post, **k)
    def lanes(f): 
        def post(x):
            r = lst(x.r); a = lst(x.a); b = lst(x.b) if hasattr(x, 'b') else a
            for i in range(N) if getattr(x, 'lane', None) is None else [x.lane]: x.eq(r[i], f(a[i], b[i]), 'lane %d' % i)
        return post
    for s in ('', 'i'):
        c('add' + s, 'a:V b:V -> r:V', lanes(lambda a, b: a + b))
        c('sub' + s, 'a:V b:V -> r:V', lanes(lambda a, b: a - b))
        c('mul' + s, 'a:V b:V -> r:V', lanes(lambda a, b: a * b))
        c('neg' + s, 'a:V -> r:V', lanes(lambda a, b: -a))
        c('dbl' + s, 'a:V -> r:V', lanes(lambda a, b: a + a))
        c('sq' + s, 'a:V -> r:V', lanes(lambda a, b: a * a))
    c('adda', 'a:V -> r:V', lanes(lambda a, b: a + a)); c('suba', 'a:V -> r:V', lanes(lambda a, b: a - a)); c('mula', 'a:V -> r:V', lanes(lambda a, b: a * a))
    if exp:
        for e in (3, 5, 7):
            c('e%d' % e, 'a:V -> r:V', viacalls(lanes(lambda a, b, e=e: pw(a, e)), e), handlers=lambda: redcall(m))
        def red(x, neg):
            sg = lambda c: -1 - c if neg else c
            if isinstance(x.ret, int) and not x.ret: raise Unsupported('no such reduction')
            for i in range(N // 2):
                if getattr(x, 'lane', None) not in (None, i): continue
                if getattr(x, 'z', False):
                    r = x.Z.val(x.r[i]); x.below(Num(r - 1, None, 0), 2*p - 1, 'signed result of size below p'); x.eq(ZMod(p, r * 2**32), ZMod(p, sg(x.Z.val(x.c[i]))), 'reduction')
                else: x.true(1 <= x.r[i] < 2*p and (x.r[i]*2**32 - sg(x.c[i])) % p == 0, 'reduction')
        for ng in (0, 1):
            c('red' + 'pn'[ng], 'c:u64*%d -> r:u64*%d' % (N//2, N//2), lambda x, ng=ng: red(x, ng), lanes=N//2, zb=dict(c=2**31*p), gen=lambda rng, i, ng=ng: dict(c=[rng.choice([0, (p << 31) - 1, rng.randrange(p << 31), (p << 31) - 1 - rng.randrange(99), rng.randrange(9)]) for _ in range(N//2)]))
    for e in (1, 2, 3, 5, 7, 11):
        c('cp%d' % e, 'a:V -> r:V', viacalls(lanes(lambda a, b, e=e: pw(a, e)), e), handlers=lambda: mulcall(m) + redcall(m))
    S_ = c('const', '-> z:V o:V m:V h:V', lambda x: ([(x.eq(a, 0), x.eq(b, 1), x.eq(d, -1), x.eq(f*2, 1)) for a, b, d, f in zip(lst(x.z), lst(x.o), lst(x.m), lst(x.h))], x.eq(x.ret, 7)), n=1, gen=None)
    c('rel', 'a:V b:V', rel, sym=False, gen=relg, lanes=0, run=None)
    c('is', 'a:V', isz, sym=False, gen=isg, lanes=0, run=None)
    c('ctor', 'v:u64 -> r:V', lambda x: [x.eq(r, int(x.v) & 0xffffffff) for r in lst(x.r)], sym=False, lanes=0, run=None, gen=lambda rng, i: dict(v=rng.choice([0, 1, p - 1, rng.randrange(p)])))
    for i in range(N):
        c('lane', 'a:V v:%s i:u64 -> r:V o:%s' % (F, F), lambda x, i=i: (x.eq(x.o, lst(x.a)[i]), [x.eq(r, x.v if j == i else a) for j, (r, a) in enumerate(zip(lst(x.r), lst(x.a)))]), fix=dict(i=[i]), nm='lane %d' % i, n=3, sym=False, lanes=0, run=None, gen=lambda rng, i: dict(a=[rng_(rng, p) for _ in range(N)], v=rng_(rng, p)))
    c('pow', 'a:V e:u64 -> r:V', lambda x: [x.eq(r, pow(int(a.v), int(x.e), p)) for r, a in zip(lst(x.r), lst(x.a))], sym=False, lanes=0, run=None, gen=lambda rng, i: dict(a=[rng_(rng, p) for _ in range(N)], e=rng.choice([0, 1, 2, 3, 2**64 - 1, 2**63, rng.getrandbits(64), rng.getrandbits(9)])))
    c('inv', 'a:V -> r:V q:V', lambda x: (x.eq(x.ret, 1), [(x.eq(r, pow(int(a.v), -1, p) if a.v else 0), x.eq(q, pow(int(a.v), -1, p) if a.v else 0)) for r, q, a in zip(lst(x.r), lst(x.q), lst(x.a))]), sym=False, lanes=0, run=None)
    c('frob', 'a:V e:u64 -> r:V', lambda x: [x.eq(r, a) for r, a in zip(lst(x.r), lst(x.a))], sym=False, lanes=0, run=None, n=5, gen=lambda rng, i: dict(a=[rng_(rng, p) for _ in range(N)], e=rng.randrange(5)))
    if raw: c('rawone', '-> r:V', lambda x: [x.eq(r, m.Ri) for r in lst(x.r)], n=1, gen=None, lanes=0)
    c('bc', 'a:%s -> r:V' % F, lambda x: [x.eq(r, x.a, 'lane') for i, r in enumerate(lst(x.r)) if getattr(x, 'lane', None) in (None, i)], gen=lambda rng, i: dict(a=rng_(rng, p)))
def viacalls(post, e):
    """the powers are decided against the contracts of the multiplications they call; without such calls there is no proof"""
    def f(x):
        if e > 1 and getattr(x, 'lane', None) is not None and not getattr(x, 'viac', False): raise Unsupported('no call of a multiplication under contract')
        post(x)
    return f
def pw(a, e):
    r = a
    for _ in range(e - 1): r = r * a
    return r
def lanecalls(m):
    """the packed Add, Sub, Mul and Negate replaced by their contracts (proved above): the field operation in every lane"""
    ops = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b, 'Negate': lambda a: -a}
    def make(e, f, mt):
        op = ops[mt.group(2)]; k = 1 if mt.group(2) == 'Negate' else 2; N = 16 if mt.group(1) == '512' else 8
        if len(f.params) != k + 1: return None
        def h(e, a):
            vs = [op(*[read_fe(e, m, a[1+j] + 4*i) for j in range(k)]) for i in range(N)]
            for i, v in enumerate(vs): write_fe(e, m, a[0] + 4*i, v)
        return h
    return [(re.compile(r'tachyon::math::Packed\w+AVX(2|512)::(Add|Sub|Mul|Negate)\(tachyon::math::Packed\w+ const&\) const|tachyon::math::Packed\w+AVX(2|512)::(Negate)\(\) const'), lambda e, f, mt: make(e, f, type('M', (), {'group': lambda s, i: mt.group(i) or mt.group(i + 2)})()))]
W4 = {'baby_bear': 11, 'koala_bear': 3}
def xmul(a, b, w):
    r = [0]*7
    for i in range(4):
        for j in range(4): t = a[i]*b[j]; r[i+j] = t if isinstance(r[i+j], int) else r[i+j] + t
    return [r[k] + r[k+4]*w if k < 3 else r[k] for k in range(4)]
def ext(h, m, v, N):
    F = m.name; p = m.p; w = W4[F]; nm = '%s4 x%d' % (F, N)
    S.h(h, flags='-mavx2' if v == 2 else '-mavx512f -mfma -DTACHYON_HAS_AVX512', native=v == 2 or 'avx512f' in CPU)
    g = lambda rng, i: dict((k, [rng_(rng, p) for _ in range(4*N)]) for k in 'ab')
    at = lambda v, i: [v[j*N + i] for j in range(4)]
    H = lambda: [fe_handler()] + lanecalls(m)
    def c(fn, args, post, **k):
        k.setdefault('n', 25); k.setdefault('gen', g)
        S.c('%s %s' % (nm, k.pop('nm', fn)), h, 'x_' + fn, args.replace('V4', '%s*%d' % (F, 4*N)).replace('V', '%s*%d' % (F, N)), post, handlers=H, **k)
    def lanes(f):
        def post(x):
            for i in range(N):
                for j, t in enumerate(f(at(x.a, i), at(x.b, i))): x.eq(x.r[j*N + i], t, 'lane %d coefficient %d' % (i, j))
        return post
    A = 'a:V4 b:V4 -> r:V4'
    for s in ('', 'i'):
        c('add' + s, A, lanes(lambda a, b: [x + y for x, y in zip(a, b)]))
        c('sub' + s, A, lanes(lambda a, b: [x - y for x, y in zip(a, b)]))
        c('mul' + s, A, lanes(lambda a, b: xmul(a, b, w)))
        c('neg' + s, A, lanes(lambda a, b: [-x for x in a]))
        c('dbl' + s, A, lanes(lambda a, b: [x + x for x in a]))
        c('sq' + s, A, lanes(lambda a, b: xmul(a, a, w)))
        c('scale' + s, 'a:V4 b:V -> r:V4', gen=lambda rng, i: dict(a=[rng_(rng, p) for _ in range(4*N)], b=[rng_(rng, p) for _ in range(N)]), post=lambda x: [x.eq(x.r[j*N + i], x.a[j*N + i]*x.b[i], 'lane %d' % i) for i in range(N) for j in range(4)])
    c('mula', A, lanes(lambda a, b: xmul(a, a, w)))
    c('const', '-> z:V4 o:V4', lambda x: ([(x.eq(x.z[j*N + i], 0), x.eq(x.o[j*N + i], int(j == 0))) for i in range(N) for j in range(4)], x.eq(x.ret, 3)), n=1, gen=None)
    for n in (0, 1, 2, 3):
        def powers(x, n=n):
            x.eq(x.ret, n, 'number of packed powers'); q = None
            for e in range(n*N):
                q = [1, 0, 0, 0] if e == 0 else list(x.b) if e == 1 else red4(xmul(q, x.b, w))
                for j in range(4): x.eq(x.r[(e//N)*4*N + j*N + e % N], q[j], 'power %d' % e)
        red4 = lambda q: q
        c('pow', 'b:%s*4 n:u64 -> r:%s*%d' % (F, F, 4*N*max(n, 1)), powers, fix={'n': [n]}, n=6, nm='powers %d' % n, gen=lambda rng, i: dict(b=[rng_(rng, p) for _ in range(4)]), sym=False, bound='up to 3 packed powers', whynot='degree of the polynomials')
for h, m, raw in (('pk_bb', BABYBEAR, 1), ('pk_kb', KOALABEAR, 1), ('pk_m31', MERSENNE31, 0)):
    field(h + '_2', m, 2, 8, raw, raw); field(h + '_512', m, 512, 16, raw, 0)
for a, m in (('bb', BABYBEAR), ('kb', KOALABEAR)): ext('pk4_%s_2' % a, m, 2, 8); ext('pk4_%s_512' % a, m, 512, 16)
