"""C01: prime-field arithmetic on machine words is arithmetic modulo p, canonical results."""
from tvc.suite import Suite
from tvc.fe import *
from tvc.zrun import zprove, zcalls
S = Suite('C01', 'proof', assumptions=[], handlers=lambda: [])
S.h('pf_big')
S.h('pf_small', objs=['tachyon/math/finite_fields/test/_objs/gf7_config/gf7_config.o'])

def field(h, n, m, one_ok=True):
    F = m.name; W = 64; N = (m.size + 7)//8; p = m.p
    def c(fn, args, post, **k):
        k.setdefault('run', zprove); k.setdefault('n', 120)
        return S.c(n + ' ' + fn, h, n + '_' + fn, args.replace('F', F).replace('N', str(N)), post, **k)
    for s in ('', 'i'):
        c('add' + s, 'a:F b:F -> r:F', lambda x: x.eq(x.r, x.a + x.b))
        c('sub' + s, 'a:F b:F -> r:F', lambda x: x.eq(x.r, x.a - x.b))
        c('mul' + s, 'a:F b:F -> r:F', lambda x: x.eq(x.r, x.a * x.b))
        c('neg' + s, 'a:F -> r:F', lambda x: x.eq(x.r, -x.a))
        c('dbl' + s, 'a:F -> r:F', lambda x: x.eq(x.r, x.a + x.a))
        c('sq' + s, 'a:F -> r:F', lambda x: x.eq(x.r, x.a * x.a))
    c('adda', 'a:F -> r:F', lambda x: x.eq(x.r, x.a + x.a))
    c('suba', 'a:F -> r:F', lambda x: x.eq(x.r, x.a - x.a))
    c('mula', 'a:F -> r:F', lambda x: x.eq(x.r, x.a * x.a))
    if n not in ('m31', 'gf7'): c('rt', 'a:F -> r:F', lambda x: x.eq(x.r, x.a))
    c('tobig', 'a:F -> r:u64*N', lambda x: (x.below(x.r, p), x.eq(x.r, x.a)), znum={'r'})
    c('frombig', 'a:u64*N -> r:F', lambda x: x.eq(x.r, x.a), zpre={'a': p}, handlers=zcalls({'Mul', 'MulInPlace'}))
    def eqgen(rng, i):
        a = rng.choice([0, 1, p - 1, rng.randrange(p)])
        return dict(a=a, b=rng.choice([a, a, (a + 1) % p, p - a, rng.randrange(p)]))
    o = m.enc(1); mo = m.enc(p - 1)
    NOT = __import__('tvc.terms', fromlist=['x']).not_
    def rel(fn, args, sym, nat): c(fn, args, lambda x: x.bits(x.ret, [sym(x) if x.sym else nat(x)]), gen=eqgen)
    rel('eqs', 'a:F b:F -> ', lambda x: x.eqc(x.a_raw, x.b_raw), lambda x: x.a == x.b)
    rel('nes', 'a:F b:F -> ', lambda x: NOT(x.eqc(x.a_raw, x.b_raw)), lambda x: x.a != x.b)
    rel('isz', 'a:F -> ', lambda x: x.eqc(x.a_raw, 0), lambda x: x.a == 0)
    if one_ok:
        rel('iso', 'a:F -> ', lambda x: x.eqc(x.a_raw, o), lambda x: x.a == 1)
        rel('ism', 'a:F -> ', lambda x: x.eqc(x.a_raw, mo), lambda x: x.a == p - 1)
    for k, (fn, sw, ng) in enumerate((('lt', 0, 0), ('gt', 1, 0), ('le', 1, 1), ('ge', 0, 1))):
        def lt(x, k=k, sw=sw, ng=ng):
            if not x.sym: x.bits(x.ret, [[x.a.v < x.b.v, x.a.v > x.b.v, x.a.v <= x.b.v, x.a.v >= x.b.v][k]]); return
            a, b = x.canon(m, x.a), x.canon(m, x.b)
            if sw: a, b = b, a
            t = x.ltc(a, b)
            x.bits(x.ret, [NOT(t) if ng else t])
        c(fn, 'a:F b:F -> ', lt, gen=eqgen, handlers=zcalls({'ToBigInt'}))
    if one_ok: c('const', ' -> z:F o:F m:F h:F', lambda x: (x.eq(x.z, 0), x.eq(x.o, 1), x.eq(x.m, -1), x.eq(x.h * 2, 1), x.eq(x.ret, 7)), n=2)
    def inv(x, num=1, a=None):
        a = x.a if a is None else a
        if a == 0: x.eq(x.ret, 0, 'fails on zero')
        else: x.eq(x.ret, 1, 'succeeds'); x.eq(x.r * a, num, 'inverse')
    zg = lambda rng, i: dict(a=rng.choice([0, 1, 2, p-1, p-2, (p+1)//2, (p-1)//2, 1 << rng.randrange(p.bit_length()-1), pow(rng.randrange(1, p), -1, p), rng.randrange(1 << rng.randrange(1, p.bit_length())) % p]) if i % 2 else rng.randrange(p))
    c('inv', 'a:F -> r:F', inv, gen=zg, sym=False, n=300)
    c('invi', 'a:F -> r:F', inv, gen=zg, sym=False, n=150)
    zb = lambda rng, i: dict(b=zg(rng, i)['a'])
    c('div', 'a:F b:F -> r:F', lambda x: inv(x, x.a, x.b), gen=zb, sym=False, n=100)
    c('divi', 'a:F b:F -> r:F', lambda x: inv(x, x.a, x.b), gen=zb, sym=False, n=100)
    c('smul', 'a:F k:u64 -> r:F', lambda x: x.eq(x.r, x.a * x.k), sym=False, n=60)
for n, m in (('bnq', BN254_FQ), ('bnr', BN254_FR), ('blq', BLS_FQ), ('blr', BLS_FR), ('seq', SECP_FQ), ('ser', SECP_FR), ('paq', PALLAS_FQ), ('par', PALLAS_FR), ('b3q', BN384_FQ), ('b3r', BN384_FR)):
    field('pf_big', n, m)
field('pf_big', 'gold', GOLDI)
for n, m in (('bb', BABYBEAR), ('kb', KOALABEAR), ('m31', MERSENNE31), ('gf7', GF7)): field('pf_small', n, m)
