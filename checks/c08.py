"""C08: point arithmetic in every coordinate system is the group law of the curve."""
from tvc.suite import Suite, FEM
from tvc import fe, spec
from tvc.fe import *
from tvc.ecspec import *
S = Suite('C08', 'proof', assumptions=[
  'prime-field operations satisfy their contracts (check C01); quadratic extension operations satisfy theirs (check C03)',
  'every non-zero representative of a point has the form stated by its coordinate system: (x z^2, y z^3, z), (x z, y z, z), (x z^2, y z^3, z^2, z^3) with z != 0',
  'the chord-and-tangent law on affine points is the specification of the group; its associativity is the standard theorem'])
S.h('ec_bn254'); S.h('ec_bls'); S.h('ec_other')
BN2 = ExtField('bn254.Fq2', BN254_FQ, spec.bn254_tower(BN254_FQ.p)[0], r'QuadraticExtensionField<tachyon::math::Fp2<tachyon::math::bn254::Fq2Config<tachyon::math::PrimeField<tachyon::math::bn254::FqConfig, void> > > >|Fp2<tachyon::math::bn254::Fq2Config<tachyon::math::PrimeField<tachyon::math::bn254::FqConfig, void> > >')
BL2 = ExtField('bls12_381.Fq2', BLS_FQ, spec.bls_tower(BLS_FQ.p)[0], BN2.rx.replace('bn254', 'bls12_381'))
def fxinv(m, v): return Fx(m, m.kinv(m.fin(v)))
CURVES = {
 ('ec_bn254', 'g1'): Curve(BN254_FQ, 0, 3, (1, 2), BN254_FR.p),
 ('ec_bn254', 'g2'): Curve(BN2, 0, (fxinv(BN2, (9, 1)) * 3).v, ((10857046999023057135944570762232829481370756359578518086990519993285655852781, 11559732032986387107991004021392285783925812861821192530917403151452391805634), (8495653923123431417604973247489272438418190587263600148770280649306958101930, 4082367875863433681332203403145435568316851327593401208105741076214120093531)), BN254_FR.p),
 ('ec_bls', 'g1'): Curve(BLS_FQ, 0, 4, (0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb, 0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1), BLS_FR.p),
 ('ec_bls', 'g2'): Curve(BL2, 0, (4, 4), ((0x024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8, 0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e), (0x0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801, 0x0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be)), BLS_FR.p),
 ('ec_other', 'secp'): Curve(SECP_FQ, 0, 7, (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8), SECP_FR.p),
 ('ec_other', 'pallas'): Curve(PALLAS_FQ, 0, 5, (-1, 2), PALLAS_FR.p),
 ('ec_other', 'vesta'): Curve(VESTA_FQ, 0, 5, (-1, 2), VESTA_FR.p),
}
ANY = Curve(BN254_FQ, 5, 11, (0, 0)) if False else None

def pts(C):
    """pool of multiples of the generator (cached)"""
    if not hasattr(C, 'pool'):
        C.pool = []; P = None
        for i in range(24): P = C.add(P, C.G); C.pool.append(P)
        C.pool += [C.mul(C.G, (C.n or 2**61) // k + k) for k in (2, 3, 7)]
    return C.pool
def rawpt(C, k, P, rng):
    """concrete coordinates (values) of a representative of P"""
    m = C.m
    if P is None:
        if k == 'a': return [m.fin(0), m.fin(0)]
        r = [m.rnd(rng), m.rnd(rng)] if rng.random() < .6 else [m.fin(1), m.fin(1)] if rng.random() < .5 else [m.fin(0), m.fin(1)]
        return r + [m.fin(0)] * (NC[k] - 2)
    z = conc(m, m.fin(1) if rng.random() < .25 else m.rnd(rng))
    if rng.random() < .1: z = -conc(m, m.fin(1))
    if z == 0: z = conc(m, m.fin(1))
    return [c.v for c in rep(k, P[0], P[1], z)]

def symrep(C, k, tag, cls, x):
    m = C.m; v = m.sym
    if cls == 'z':
        if k == 'a': return [m.kpoly(0), m.kpoly(0)], None
        return [v('X' + tag), v('Y' + tag)] + [m.kpoly(0)] * (NC[k] - 2), None
    X, Y = v('x' + tag), v('y' + tag)
    Z = v('z' + tag)
    if k != 'a': x.assume_nonzero(Z)
    return rep(k, X, Y, Z), (X, Y)

class PtArg:
    """named point argument"""
    def __init__(s, name, k): s.name = name; s.k = k

def get(x, C, name, k):
    if x.sym: return x.pts[name]
    return affine(C, k, getattr(x, name))

def is_pt(x, C, k, r, want, label=''):
    """r (coordinates of kind k) represents `want` = None or ((Xn, dx), (Yn, dy)) as fractions"""
    if want is None:
        if k == 'a': x.zero(r[0], label + 'zero.x'); x.zero(r[1], label + 'zero.y')
        else:
            x.zero(r[2], label + 'zero')
            if k == 'x': x.zero(r[3], label + 'zero.zzz')
        return
    (xn, xd), (yn, yd) = want
    if k == 'a': wx, wy = 1, 1
    elif k == 'j': wx = r[2]*r[2]; wy = wx*r[2]; x.nz(r[2], label + 'finite')
    elif k == 'p': wx = wy = r[2]; x.nz(r[2], label + 'finite')
    else:
        wx, wy = r[2], r[3]
        x.nz(r[2], label + 'finite'); x.eq(wx*wx*wx, wy*wy, label + 'zz^3=zzz^2')
    x.eq(r[0]*xd, xn*wx, label + 'x'); x.eq(r[1]*yd, yn*wy, label + 'y')
def frac(P): return None if P is None else ((P[0], 1), (P[1], 1))
def addspec(x, C, P, Q, a):
    """fraction form of P + Q"""
    if P is None: return frac(Q)
    if Q is None: return frac(P)
    if x.isz(P[0] - Q[0]):
        if x.sym: return dblspec(x, C, P, a) if x.isz(P[1] - Q[1]) else None
        return dblspec(x, C, P, a) if P[1] == Q[1] else None
    return chord(P, Q[1] - P[1], Q[0] - P[0], P[0] + Q[0])
def dblspec(x, C, P, a):
    if P is None or x.isz(P[1]): return None
    return chord(P, 3*(P[0]*P[0]) + a, 2*P[1], 2*P[0])
def chord(P, n, d, xs):
    d2 = d*d; xn = n*n - xs*d2
    return ((xn, d2), (n*(P[0]*d2 - xn) - P[1]*(d2*d), d2*d))

def binary(h, nm, C, fn, ka, kb, kr, neg=False, order='ab', anya=False):
    F = C.m.name
    hs = handlers(C)
    for va in 'nz':
        for vb in 'nz':
            def param(x, va=va, vb=vb):
                x.pts = {}
                r = {}
                if anya: r['ca'] = C.m.sym('a')
                r['a'], x.pts['a'] = symrep(C, ka, '1', va, x)
                r['b'], x.pts['b'] = symrep(C, kb, '2', vb, x)
                if va == 'n' and ka == 'a': nz_affine(x, C, x.pts['a'])
                if vb == 'n' and kb == 'a': nz_affine(x, C, x.pts['b'])
                return r
            def post(x):
                P, Q = get(x, C, 'a', ka), get(x, C, 'b', kb)
                if neg and Q is not None: Q = (Q[0], -Q[1])
                a = x.ca if anya else acoef(x, C)
                is_pt(x, C, kr, x.r, addspec(x, C, P, Q, a))
            def gen(rng, i, va=va, vb=vb):
                P = rng.choice(pts(C)) if va == 'n' else None
                Q = rng.choice(pts(C)) if vb == 'n' else None
                if P and Q and i % 3 == 0: Q = P
                if P and Q and i % 3 == 1: Q = C.neg(P)
                d = dict(a=rawpt(C, ka, P, rng), b=rawpt(C, kb, Q, rng))
                if anya: d['ca'] = C.a.v
                return d
            S.c('%s %s_%s %s%s' % (h, nm, fn, va, vb), h, '%s_%s' % (nm, fn), ('ca:%s ' % F if anya else '') + 'a:%s*%d b:%s*%d -> r:%s*%d' % (F, NC[ka], F, NC[kb], F, NC[kr]), post, param=param, gen=gen, n=9, handlers=hs)
def nz_affine(x, C, P):
    # (0, 0) is the representation of the point at infinity, not of a curve point
    if x.isz(P[0]) and x.isz(P[1]): raise FEM.Infeasible()
def acoef(x, C): return C.m.kpoly(C.a.v) if x.sym else C.a
def handlers(C):
    return (lambda: [FEM.ext_handler(C.m), FEM.fe_handler()]) if C.m.ext else None
def unary(h, nm, C, fn, ka, kr, f, anya=False, arity='a'):
    F = C.m.name
    for va in 'nz':
        def param(x, va=va):
            x.pts = {}; r = {}
            if anya: r['ca'] = C.m.sym('a')
            r['a'], x.pts['a'] = symrep(C, ka, '1', va, x)
            if va == 'n' and ka == 'a': nz_affine(x, C, x.pts['a'])
            return r
        def post(x):
            P = get(x, C, 'a', ka)
            is_pt(x, C, kr, x.r, f(x, P, x.ca if anya else acoef(x, C)))
        def gen(rng, i, va=va):
            d = dict(a=rawpt(C, ka, rng.choice(pts(C)) if va == 'n' else None, rng))
            if anya: d['ca'] = C.a.v
            return d
        S.c('%s %s_%s %s' % (h, nm, fn, va), h, '%s_%s' % (nm, fn), ('ca:%s ' % F if anya else '') + 'a:%s*%d -> r:%s*%d' % (F, NC[ka], F, NC[kr]), post, param=param, gen=gen, n=9, handlers=handlers(C))
def cmp_(h, nm, C, k):
    F = C.m.name
    for va in 'nz':
        for vb in 'nz':
            def param(x, va=va, vb=vb):
                x.pts = {}; r = {}
                r['a'], x.pts['a'] = symrep(C, k, '1', va, x)
                r['b'], x.pts['b'] = symrep(C, k, '2', vb, x)
                if k == 'a' and va == 'n': nz_affine(x, C, x.pts['a'])
                if k == 'a' and vb == 'n': nz_affine(x, C, x.pts['b'])
                return r
            def post(x):
                P, Q = get(x, C, 'a', k), get(x, C, 'b', k)
                e = (P is None and Q is None) if P is None or Q is None else bool(x.isz(P[0] - Q[0]) and x.isz(P[1] - Q[1]))
                x.eq(x.ret, int(e) | int(not e) << 1 | int(P is None) << 2)
            def gen(rng, i, va=va, vb=vb):
                P = rng.choice(pts(C)) if va == 'n' else None
                Q = rng.choice(pts(C)) if vb == 'n' else None
                if P and Q and i % 3 == 0: Q = P
                if P and Q and i % 3 == 1: Q = C.neg(P)
                return dict(a=rawpt(C, k, P, rng), b=rawpt(C, k, Q, rng))
            S.c('%s %s_%s_cmp %s%s' % (h, nm, k, va, vb), h, '%s_%s_cmp' % (nm, k), 'a:%s*%d b:%s*%d -> ' % (F, NC[k], F, NC[k]), post, param=param, gen=gen, n=9, handlers=handlers(C))
def on_(h, nm, C, k, anya=False):
    F = C.m.name
    def param(x):
        x.pts = {}; r = {}
        if anya: r['ca'] = C.m.sym('a'); r['cb'] = C.m.sym('b')
        r['a'], x.pts['a'] = symrep(C, k, '1', 'n', x)
        if k == 'a': nz_affine(x, C, x.pts['a'])
        return r
    def post(x):
        P = get(x, C, 'a', k)
        a, b = (x.ca, x.cb) if anya else (acoef(x, C), C.m.kpoly(C.b.v) if x.sym else C.b)
        x.eq(x.ret, int(bool(x.isz(P[1]*P[1] - P[0]*P[0]*P[0] - a*P[0] - b))))
    def gen(rng, i):
        P = rng.choice(pts(C))
        if i % 2: P = (P[0], P[1] + 1) if i % 4 == 1 else (P[0]*2, P[1])
        d = dict(a=rawpt(C, k, P, rng))
        if anya: d['ca'] = C.a.v; d['cb'] = C.b.v
        return d
    S.c('%s %s_%s_on' % (h, nm, k), h, '%s_%s_on' % (nm, k), ('ca:%s cb:%s ' % (F, F) if anya else '') + 'a:%s*%d -> ' % (F, NC[k]), post, param=param, gen=gen, n=12, handlers=handlers(C))
def norm_(h, nm, C, k, fn, n, post2):
    F = C.m.name
    for var in (('nnn', 'znn', 'nzn', 'nnz', 'zzz', 'zzn') if n == 3 else ('nn', 'zn', 'nz', 'zz')):
        def param(x, var=var):
            x.pl = []; v = []
            for i, c in enumerate(var):
                r, p = symrep(C, k, str(i), c, x)
                v += r; x.pl.append(p)
            return {'a': v}
        def post(x):
            K = NC[k]
            P = x.pl if x.sym else [affine(C, k, x.a[K*i:K*i+K]) for i in range(n)]
            for i in range(n): is_pt(x, C, 'a', x.r[2*i:2*i+2], frac(P[i]), 'point %d ' % i)
            x.eq(x.ret, post2)
        def gen(rng, i, var=var):
            return dict(a=[c for q in var for c in rawpt(C, k, rng.choice(pts(C)) if q == 'n' else None, rng)])
        S.c('%s %s_%s_%s %s' % (h, nm, k, fn, var), h, '%s_%s_%s' % (nm, k, fn), 'a:%s*%d -> r:%s*%d' % (F, n*NC[k], F, 2*n), post, param=param, gen=gen, n=5, handlers=handlers(C), bound='batches of %d points' % n)
def const_(h, nm, C, k):
    F = C.m.name
    def post(x):
        is_pt(x, C, k, x.z, None, 'Zero '); is_pt(x, C, k, x.g, frac(tuple(c if not x.sym else C.m.kpoly(c.v) for c in C.G)), 'Generator '); x.eq(x.ret, 3)
    S.c('%s %s_%s_const' % (h, nm, k), h, '%s_%s_const' % (nm, k), ' -> z:%s*%d g:%s*%d' % (F, NC[k], F, NC[k]), post, n=2, handlers=handlers(C))

def self_(h, nm, C, k):
    """x += x and x -= x with the operand aliased"""
    F = C.m.name; K = NC[k]
    for va in 'nz':
        def param(x, va=va):
            x.pts = {}; r = {}
            r['a'], x.pts['a'] = symrep(C, k, '1', va, x)
            return r
        def post(x):
            P = get(x, C, 'a', k)
            is_pt(x, C, k, x.r[:K], dblspec(x, C, P, acoef(x, C)), 'a += a ')
            is_pt(x, C, k, x.r[K:], None, 'a -= a ')
        def gen(rng, i, va=va): return dict(a=rawpt(C, k, rng.choice(pts(C)) if va == 'n' else None, rng))
        S.c('%s %s_%s_self %s' % (h, nm, k, va), h, '%s_%s_self' % (nm, k), 'a:%s*%d -> r:%s*%d' % (F, K, F, 2*K), post, param=param, gen=gen, n=9, handlers=handlers(C))

dbl = lambda C: (lambda x, P, a: dblspec(x, C, P, a))
ng = lambda x, P, a: None if P is None else frac((P[0], -P[1]))
idt = lambda x, P, a: frac(P)
for (h, nm), C in CURVES.items():
    for k in 'jpx':
        for fn, kb, neg in (('add', k, 0), ('addi', k, 0), ('madd', 'a', 0), ('maddr', 'a', 0), ('maddi', 'a', 0), ('sub', k, 1), ('subi', k, 1), ('msub', 'a', 1), ('msubi', 'a', 1)):
            binary(h, nm, C, '%s_%s' % (k, fn), k, kb, k, neg=bool(neg))
        for fn, f in (('adda', dbl(C)), ('dbl', dbl(C)), ('dbli', dbl(C)), ('neg', ng), ('negi', ng)): unary(h, nm, C, '%s_%s' % (k, fn), k, k, f)
        self_(h, nm, C, k)
        norm_(h, nm, C, k, 'bn', 3, 1); norm_(h, nm, C, k, 'bnx', 2, 1)
    binary(h, nm, C, 'a_add', 'a', 'a', 'j'); binary(h, nm, C, 'a_sub', 'a', 'a', 'j', neg=True)
    for fn, kr, f in (('a_dbl', 'j', dbl(C)), ('a_dblp', 'p', dbl(C)), ('a_dblx', 'x', dbl(C)), ('a_neg', 'a', ng), ('a_negi', 'a', ng)): unary(h, nm, C, fn, 'a', kr, f)
    for k in 'ajpx':
        cmp_(h, nm, C, k); on_(h, nm, C, k); const_(h, nm, C, k)
        for l in 'ajpx':
            if l != k:
                unary(h, nm, C, '%s_to_%s' % (k, l), k, l, idt); unary(h, nm, C, '%s_from_%s' % (k, l), l, k, idt)
# curves with a != 0 (symbolic coefficient)
p = BN254_FQ.p
CA = Curve(BN254_FQ, 5, (4 - 1 - 5) % p, (1, 2))
for k in 'jpx':
    binary('ec_bn254', 'ga', CA, k + '_add', k, k, k, anya=True); binary('ec_bn254', 'ga', CA, k + '_madd', k, 'a', k, anya=True)
    unary('ec_bn254', 'ga', CA, k + '_dbl', k, k, dbl(CA), anya=True); unary('ec_bn254', 'ga', CA, k + '_dbli', k, k, dbl(CA), anya=True)
unary('ec_bn254', 'ga', CA, 'a_dblp', 'a', 'p', dbl(CA), anya=True); unary('ec_bn254', 'ga', CA, 'a_dblx', 'a', 'x', dbl(CA), anya=True)
for k in 'ajpx': on_('ec_bn254', 'ga', CA, k, anya=True)
def fromx(x):
    C = CURVES[('ec_bn254', 'g1')]; p = C.m.p
    rhs = (x.x*x.x*x.x + 3).v
    q = rhs == 0 or pow(rhs, (p-1)//2, p) == 1
    x.eq(x.ret, int(q))
    if q:
        x.eq(x.r[0], x.x); x.eq(x.r[1]*x.r[1], x.x*x.x*x.x + 3); x.eq(x.r[1].v & 1, x.odd & 1 if rhs else 0)
S.c('ec_bn254 g1_fromx', 'ec_bn254', 'g1_fromx', 'x:bn254.Fq odd:u32*1 -> r:bn254.Fq*2'.replace('x:bn254.Fq ', 'x:bn254.Fq '), lambda x: (setattr(x, 'odd', x.odd[0]), fromx(x)), n=40, sym=False, whynot='square root by exponentiation (see C02)')
