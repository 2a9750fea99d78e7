"""C03: extension-field arithmetic is the arithmetic of the stated tower."""
from tvc.suite import Suite
from tvc import fe, spec
from tvc.fe import *
CF = 'bazel-out/k8-opt/bin/tachyon/math/'
S = Suite('C03', 'proof', assumptions=[
  'prime-field operations satisfy their contracts (discharged by check C01)',
  'GMP integer functions called during initialisation compute exact integer arithmetic (run concretely)',
  'moduli of the towers are irreducible over their base (standard parameters; used as: norm(a) = 0 implies a = 0)'])
S.h('ext_bn254', objs=['tachyon/math/elliptic_curves/bn/bn254/_objs/fq_config/fq_config.o'])
S.h('ext_bls12_381', objs=['tachyon/math/elliptic_curves/bls12/bls12_381/_objs/fq_config/fq_config.o'])
S.h('ext_small', objs=['tachyon/math/finite_fields/%s/_objs/%s_config/%s_config.o' % (d, n, n) for d, n in
   (('baby_bear/internal', 'baby_bear'), ('koala_bear/internal', 'koala_bear'), ('goldilocks/internal', 'goldilocks'), ('mersenne31/internal', 'mersenne31'), ('test', 'gf7'))])

def lt_spec(a, b):
    """lexicographic on canonical integers, most significant coordinate last; concrete only"""
    for x, y in zip(reversed(a), reversed(b)):
        if x.v != y.v: return x.v < y.v
    return False

def field(h, n, m, t, quad=False, cyc=False, frob=True, inv_sym=True, skip=()):
    nm = '%s %s ' % (h, n); d = t.deg
    for e in range(d): t.frob(t.one(), e)
    F = m.name; bd = t.b.deg
    class Dummy: name = ''
    def c(fn, args, post, **k): return Dummy() if fn in skip else S.c(nm + fn, h, n + '_' + fn, args.replace('E', '%s*%d' % (F, d)).replace('B', '%s*%d' % (F, bd)), post, **k)
    c('add', 'a:E b:E -> r:E', lambda x: x.eq(x.r, t.add(x.a, x.b)))
    c('addi', 'a:E b:E -> r:E', lambda x: x.eq(x.r, t.add(x.a, x.b)))
    c('adda', 'a:E -> r:E', lambda x: x.eq(x.r, t.add(x.a, x.a)))
    c('sub', 'a:E b:E -> r:E', lambda x: x.eq(x.r, t.sub(x.a, x.b)))
    c('subi', 'a:E b:E -> r:E', lambda x: x.eq(x.r, t.sub(x.a, x.b)))
    c('suba', 'a:E -> r:E', lambda x: x.eq(x.r, t.sub(x.a, x.a)))
    c('neg', 'a:E -> r:E', lambda x: x.eq(x.r, t.neg(x.a)))
    c('negi', 'a:E -> r:E', lambda x: x.eq(x.r, t.neg(x.a)))
    c('dbl', 'a:E -> r:E', lambda x: x.eq(x.r, t.scal(x.a, 2)))
    c('dbli', 'a:E -> r:E', lambda x: x.eq(x.r, t.scal(x.a, 2)))
    c('mul', 'a:E b:E -> r:E', lambda x: x.eq(x.r, t.mul(x.a, x.b)))
    c('muli', 'a:E b:E -> r:E', lambda x: x.eq(x.r, t.mul(x.a, x.b)))
    c('mula', 'a:E -> r:E', lambda x: x.eq(x.r, t.mul(x.a, x.a)))
    c('sq', 'a:E -> r:E', lambda x: x.eq(x.r, t.mul(x.a, x.a)))
    c('sqi', 'a:E -> r:E', lambda x: x.eq(x.r, t.mul(x.a, x.a)))
    c('mulb', 'a:E b:B -> r:E', lambda x: x.eq(x.r, t.mul(x.a, list(x.b) + [0]*(d - bd))))
    c('mulbi', 'a:E b:B -> r:E', lambda x: x.eq(x.r, t.mul(x.a, list(x.b) + [0]*(d - bd))))
    c('nr', 'a:B -> r:B', lambda x: x.eq(x.r, t.mulnr(x.a)))
    c('from', 'a:E -> r:E', lambda x: (x.eq(x.r, x.a), x.eq(x.ret, d)))
    c('tobase', 'a:E -> r:E', lambda x: (x.eq(x.r, x.a), x.eq(x.ret, t.k)))
    c('iter', 'a:E -> r:E', lambda x: (x.eq(x.r, x.a), x.eq(x.ret, t.k)))
    c('const', ' -> z:E o:E m:E', lambda x: (x.eq(x.z, t.zero()), x.eq(x.o, t.one()), x.eq(x.m, t.neg(t.one())), x.eq(x.ret, 7)), n=2)
    def allz(x, v):
        for q in v:
            if not x.isz(q): return False
        return True
    def cmp_post(x):
        e = allz(x, t.sub(x.a, x.b)); z = allz(x, x.a); o = allz(x, t.sub(x.a, t.one()))
        x.eq(x.ret, int(e) | int(not e) << 1 | int(z) << 2 | int(o) << 3)
    def eqgen(rng, i):
        a = [rng.choice([0, 1, 0, rng.randrange(m.p)]) for _ in range(d)]
        if i % 3 == 0: a = [rng.choice([0, 1])] + [0]*(d-1)
        b = list(a)
        if i % 2: b[rng.randrange(d)] = rng.randrange(m.p)
        return dict(a=a, b=b)
    c('cmp', 'a:E b:E -> ', cmp_post, gen=eqgen, timeout=300, max_paths=6000, sym=d <= 6)
    def ltp(x):
        l, g = lt_spec(x.a, x.b), lt_spec(x.b, x.a)
        x.eq(x.ret, int(l) | int(g) << 1 | int(not g) << 2 | int(not l) << 3)
    c('lt', 'a:E b:E -> ', ltp, gen=eqgen, sym=False, whynot='order of canonical integer representatives of abstract elements')
    def inv_post(x, num=None, a=None):
        a = x.a if a is None else a
        if x.sym:
            N = t.norm_to_prime(a)
            z = x.isz(N)
            if z:
                for q in a: x.assume_zero(q)   # irreducibility lemma
        else: z = all(q.v == 0 for q in a)
        if z: x.eq(x.ret & 1 if not isinstance(x.ret, int) else x.ret & 255, 0, 'fails')
        else:
            x.eq(x.ret if not x.sym else x.ret, 1, 'succeeds')
            if x.sym:
                # r*a = num given that inv(N)*N = 1
                x.eq(t.mul(x.r, a), t.one() if num is None else num, 'inverse')
            else: x.eq(t.mul(x.r, a), t.one() if num is None else num, 'inverse')
    def zgen(rng, i):
        if i % 5 == 0: return dict(a=[0]*d)
        if i % 5 == 1:
            a = [0]*d; a[rng.randrange(d)] = rng.randrange(1, m.p); return dict(a=a)
    iv = inv_sym
    c('inv', 'a:E -> r:E', inv_post, gen=zgen, sym=iv, whynot='see the modular contract')
    def invi_post(x): inv_post(x)
    c('invi', 'a:E -> r:E', inv_post, gen=zgen, sym=iv, whynot='see the modular contract')
    c('div', 'a:E b:E -> r:E', lambda x: inv_post(x, num=x.a, a=x.b), gen=lambda rng, i: {'b': zgen(rng, i)['a']} if zgen(rng, i) else None, sym=iv and d <= 4)
    for e in list(range(0, 2*d + 2)):
        c('frob', 'a:E e:u32 -> r:E', lambda x, e=e: x.eq(x.r, t.frob(x.a, e)), fix={'e': [e]}, n=6, bound='exponents 0..%d (the map has period %d)' % (2*d + 1, d)).name += ' %d' % e
    c('norm', 'a:E -> r:B', lambda x: x.eq(x.r, t.norm(x.a)), gen=zgen)
    for e in (0, 1, 2, 3, 5, 6, 11):
        c('pow', 'a:E e:u64 -> r:E', lambda x, e=e: x.eq(x.r, t.pow(x.a, e)), fix={'e': [e]}, n=5, bound='exponents 0,1,2,3,5,6,11', sym=d <= 4).name += ' %d' % e
    c('pow', 'a:E e:u64 -> r:E', lambda x: x.eq(x.r, t.pow(x.a, x.e)), sym=False, n=25, whynot='64-bit exponent: see check C02 for the loop contract')
    if quad:
        cj = lambda x: list(x.a[:bd]) + [-v for v in x.a[bd:]]
        c('conj', 'a:E -> r:E', lambda x: x.eq(x.r, cj(x)))
        c('conji', 'a:E -> r:E', lambda x: x.eq(x.r, cj(x)))
    if cyc:
        f2 = d == 12
        def relations(a):
            """a in the cyclotomic subgroup: a^(p^(d/2)) a = 1 and (d = 12) a^(p^4) a = a^(p^2)"""
            R = t.sub(t.mul(t.frob(a, d//2), a), t.one())
            if f2: R += t.sub(t.mul(t.frob(a, 4), a), t.frob(a, 2))
            return R
        def pre(x):
            if x.sym:
                F_ = x.eng.facts_for(m.ring); F_.linear = True
                F_.add_zeros([r for r in relations(x.a)])
            else: return all(v == 0 for v in relations(x.a))
        def gen(rng, i):
            b = [rng.randrange(m.p) for _ in range(d)]
            if not any(b): b = t.one()
            if i == 0: b = t.one()
            # b^((p^(d/2)-1)(p^2+1 when d=12))
            r = t.red(t.mul(t.frob(b, d//2), t.inv(b)))
            if f2: r = t.red(t.mul(t.frob(r, 2), r))
            return dict(a=r)
        c('cinv', 'a:E -> r:E', lambda x: (x.eq(t.mul(x.r, x.a), t.one()), x.eq(x.ret, 1)), pre=pre, gen=gen, n=6)
        c('cinvi', 'a:E -> r:E', lambda x: (x.eq(t.mul(x.r, x.a), t.one()), x.eq(x.ret, 1)), pre=pre, gen=gen, n=6)
        c('csq', 'a:E -> r:E', lambda x: x.eq(x.r, t.mul(x.a, x.a)), pre=pre, gen=gen, n=6)
        c('csqi', 'a:E -> r:E', lambda x: x.eq(x.r, t.mul(x.a, x.a)), pre=pre, gen=gen, n=6)
        c('cpow', 'a:E e:u64 -> r:E', lambda x: x.eq(x.r, t.pow(x.a, x.e)), pre=pre, gen=gen, n=12, sym=False)
    if d == 6 and bd == 2:
        z2 = [0, 0]
        c('by1', 'a:E b:%s*2 -> r:E' % F, lambda x: x.eq(x.r, t.mul(x.a, z2 + list(x.b) + z2)))
        c('by01', 'a:E b:%s*2 c:%s*2 -> r:E' % (F, F), lambda x: x.eq(x.r, t.mul(x.a, list(x.b) + list(x.c) + z2)))
    if d == 12:
        z2 = [0, 0]; A = 'a:E b:%s*2 c:%s*2 d:%s*2 -> r:E' % (F, F, F)
        c('by034', A, lambda x: x.eq(x.r, t.mul(x.a, list(x.b) + z2 + z2 + list(x.c) + list(x.d) + z2)))
        c('by014', A, lambda x: x.eq(x.r, t.mul(x.a, list(x.b) + list(x.c) + z2 + z2 + list(x.d) + z2)))

for h, m, tw in (('ext_bn254', BN254_FQ, spec.bn254_tower(BN254_FQ.p)), ('ext_bls12_381', BLS_FQ, spec.bls_tower(BLS_FQ.p))):
    field(h, 'fq2', m, tw[0], quad=True, cyc=True)
    field(h, 'fq6', m, tw[1])
    field(h, 'fq12', m, tw[2], quad=True, cyc=True, inv_sym=False)
B = spec.Base; T_ = spec.Tower
field('ext_small', 'gf7_2', GF7, T_(B(7), 2, [-1]), quad=True, cyc=True)
field('ext_small', 'gf7_3', GF7, T_(B(7), 3, [2]))
field('ext_small', 'gold2', GOLDI, T_(B(GOLDI.p), 2, [7]), quad=True, cyc=True, skip=('const', 'pow', 'cmp', 'cpow', 'inv', 'invi', 'div', 'cinv', 'cinvi', 'csq', 'csqi', 'frob'))   # Goldilocks::One() is not the unit in this build configuration (DESIGN.md)
field('ext_small', 'bb4', BABYBEAR, T_(B(BABYBEAR.p), 4, [11]))
field('ext_small', 'kb4', KOALABEAR, T_(B(KOALABEAR.p), 4, [3]))
M2 = T_(B(M31), 2, [-1])
field('ext_small', 'm31_2', MERSENNE31, M2, quad=True, cyc=True)
field('ext_small', 'm31_4', MERSENNE31, T_(M2, 2, [2, 1]), quad=True, cyc=True)
