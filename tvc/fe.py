"""Contracts of the prime-field classes, as applied at their call sites when the
engine verifies a caller (the same contracts are discharged against the prime-field
bodies by check C01, see fieldimpl.py): the element stored in `value_` denotes
value_ * R^-1 mod p with 0 <= value_ < p (R=1 for the plain small fields)."""
import re
from . import terms as T
from .terms import Term
from .poly import Ring, Poly
from . import gmpx
from .engine import *

class Field:
    """model of one PrimeField<Config>"""
    def __init__(s, name, cfg, p, nbytes, R):
        s.name = name; s.cfg = cfg; s.p = p; s.size = nbytes; s.R = R % p
        s.Ri = pow(R, -1, p)
        s.rk = p
    ext = False
    @property
    def ring(s):
        r = Ring(s.p); r.model = s
        return r
    def fin(s, v): return v % s.p          # python value -> canonical
    def rawok(s, raw): return raw < s.p
    def kconst(s, f): return f.const()     # element value if constant else None
    def kpoly(s, v): return s.ring.const(v)
    def kinv(s, v): return pow(v, -1, s.p)
    def rnd(s, rng): return rng.randrange(s.p)
    def enc(s, v): return (v % s.p) * s.R % s.p
    def dec(s, raw): return raw * s.Ri % s.p
    def sym(s, name): return s.ring.var(name)

class ExtField:
    """abstract model of a degree-2 extension class seen as one opaque field element (used to verify callers
    of the extension field; the extension arithmetic itself is check C03).  A constant c0 + c1 u is a
    polynomial in the reserved ring variable u with u^2 = nr."""
    ext = True
    def __init__(s, name, base, tower, rx):
        s.name = name; s.base = base; s.p = base.p; s.t = tower; s.deg = tower.deg; s.size = base.size * s.deg; s.rk = 'ext:' + name; s.rx = rx
        assert s.deg == 2
        FIELDS[name] = s
    @property
    def ring(s):
        nr = s.t.nr[0]
        r = Ring(s.p, s.rk, lambda r: r.var('u')*r.var('u') - nr); r.model = s
        return r
    def enc(s, v):
        if isinstance(v, int): v = (v, 0)
        return sum(s.base.enc(c) << (8*s.base.size*i) for i, c in enumerate(v))
    def dec(s, raw):
        b = 8*s.base.size
        return tuple(s.base.dec((raw >> (b*i)) & ((1 << b) - 1)) for i in range(s.deg))
    def sym(s, n): return s.ring.var(n)
    def fin(s, v): return (v % s.p, 0) if isinstance(v, int) else tuple(c % s.p for c in v)
    def rawok(s, raw):
        b = 8*s.base.size
        return all(((raw >> (b*i)) & ((1 << b) - 1)) < s.p for i in range(s.deg))
    def kconst(s, f):
        f = reduce_u(f, s)
        if not f.d: return (0, 0)
        if max(f.d) > 1: return None
        return (f.d.get(0, 0), f.d.get(1, 0))
    def kpoly(s, v):
        if isinstance(v, int): return s.ring.const(v)
        return s.ring.var('u') * v[1] + v[0]
    def kinv(s, v): return tuple(s.t.inv(list(v)))
    def rnd(s, rng): return tuple(rng.randrange(s.p) for _ in range(s.deg))
def reduce_u(f, m):
    if all((k & 0xffff) < 2 for k in f.d): return f
    from .poly import reduce
    g = m.ring.mod(m.ring)
    return reduce(f, [(g.lead(), g)])

M31 = 2**31 - 1
FIELDS = {}
def F(name, cfg, p, nbytes, R):
    f = Field(name, cfg, p, nbytes, R); FIELDS[name] = f; return f
def big(name, cfg, p):
    n = (p.bit_length() + 63)//64
    return F(name, 'tachyon::math::' + cfg, p, 8*n, 1 << (64*n))
BN254_FQ = big('bn254.Fq', 'bn254::FqConfig', 21888242871839275222246405745257275088696311157297823662689037894645226208583)
BN254_FR = big('bn254.Fr', 'bn254::FrConfig', 21888242871839275222246405745257275088548364400416034343698204186575808495617)
BLS_FQ = big('bls12_381.Fq', 'bls12_381::FqConfig', 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab)
BLS_FR = big('bls12_381.Fr', 'bls12_381::FrConfig', 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001)
PALLAS_FQ = big('pallas.Fq', 'pallas::FqConfig', 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001)
PALLAS_FR = big('pallas.Fr', 'pallas::FrConfig', 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001)
VESTA_FQ = big('vesta.Fq', 'vesta::FqConfig', 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001)
VESTA_FR = big('vesta.Fr', 'vesta::FrConfig', 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001)
SECP_FQ = big('secp256k1.Fq', 'secp256k1::FqConfig', 2**256 - 2**32 - 977)
SECP_FR = big('secp256k1.Fr', 'secp256k1::FrConfig', 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141)
BN384_FQ = big('bn384.Fq', 'bn384_small_two_adicity::FqConfig', 5945877603251831796258517492029536515488649313567122628447476625319762940580461319088175968449723373773214087057409)
BN384_FR = big('bn384.Fr', 'bn384_small_two_adicity::FrConfig', 5945877603251831796258517492029536515488649313567122628445038208291596545947608789992834434053176523624102324539393)
GOLDI = big('goldilocks', 'GoldilocksConfig', 2**64 - 2**32 + 1)
BABYBEAR = F('baby_bear', 'tachyon::math::BabyBearConfig', 15 * 2**27 + 1, 4, 2**32)
KOALABEAR = F('koala_bear', 'tachyon::math::KoalaBearConfig', 127 * 2**24 + 1, 4, 2**32)
MERSENNE31 = F('mersenne31', 'tachyon::math::Mersenne31Config', M31, 4, 1)
GF7 = F('gf7', 'tachyon::math::GF7Config', 7, 4, 1)
BYCFG = {f.cfg: f for f in FIELDS.values() if not f.ext}

LIMBVARS = {}   # (p, poly key, i) -> Term ; Term.id -> (model, poly, i)
LIMBOF = {}

def read_fe(e, m, addr):
    """polynomial of the element at addr"""
    v = e.mem.load(addr, m.size)
    return to_poly(e, m, v)

def to_poly(e, m, v):
    if isinstance(v, FE):
        if v.m.rk != m.rk: raise Unsupported('field mix %s/%s' % (v.m.name, m.name))
        return v.f
    if isinstance(v, int):
        if not m.rawok(v): raise CheckFail('canonical', 'element of %s with non-canonical representation %#x' % (m.name, v))
        return m.kpoly(m.dec(v))
    if isinstance(v, Tup):
        raise Unsupported('torn field element of %s' % m.name)
    if isinstance(v, Term):
        return term_fe(e, m, v)
    raise Unsupported('not a field element: %r' % (v,))

def term_fe(e, m, t):
    raise Unsupported('symbolic integer used as raw field element')

def fe_val(m, f):
    c = m.kconst(f)
    if c is not None: return m.enc(c)
    return FE(m, f)

def write_fe(e, m, addr, f):
    e.mem.store(addr, m.size, fe_val(m, e_norm(e, m, f)))

def e_norm(e, m, f):
    F_ = e.facts.get(m.rk)
    if m.ext: f = reduce_u(f, m)
    if F_ is not None and len(F_.rules) > m.ext and len(f.d) < 400:
        try: return F_.norm(f)
        except OverflowError: return f
    return f

def inverse(e, m, f):
    """polynomial for 1/f, or None when f == 0 on this path"""
    c = m.kconst(f)
    if c is not None:
        return None if f.iszero() else m.kpoly(m.kinv(c))
    if e.decide(fez(m, f)): return None
    Fx = e.facts_for(m.ring)
    g = Fx.norm(f)
    c = m.kconst(g)
    if c is not None: return m.kpoly(m.kinv(c))
    lc = g.d[g.lead()]
    k = ('inv', m.rk, (g.monic()).key())
    v = e.invs.get(k)
    if v is None:
        v = m.ring.var('inv%d' % len(e.invs))
        e.invs[k] = v
        Fx.add_zero(v * g.monic() - 1)
        Fx.add_nonzero(v)
    return v * pow(lc, -1, m.p)

def limb(e, m, f, i):
    k = (m.rk, f.key(), i)
    t = LIMBVARS.get(k)
    if t is None:
        top = m.p >> (64*i)
        t = T.var('limb%d[%s:%s]' % (i, m.name, f), 64, 0, min(top, 2**64-1))
        LIMBVARS[k] = t; LIMBOF[t.id] = (m, f, i)
    return t

INTFE = {}
def int_to_poly(e, m, limbs):
    """field element denoted by an integer given as list of 64-bit limbs"""
    if all(isinstance(x, int) for x in limbs):
        v = sum(x << (64*i) for i, x in enumerate(limbs))
        return m.ring.const(v)
    l0 = limbs[0]
    if isinstance(l0, Term) and l0.id in LIMBOF:
        mm, f, i = LIMBOF[l0.id]
        if mm.rk == m.rk and all(isinstance(x, Term) and x.id in LIMBOF and LIMBOF[x.id][1] == f and LIMBOF[x.id][2] == k for k, x in enumerate(limbs)):
            return f
    key = (m.p, tuple(x if isinstance(x, int) else ('t', x.id) for x in limbs))
    # single 64-bit (or narrower) symbolic integers: linear decomposition
    if all(isinstance(x, int) and x == 0 for x in limbs[1:]):
        return lin_int(e, m, limbs[0])
    nm = 'int[' + ','.join(T.tostr(x, 1) for x in limbs) + ']'
    return m.ring.var(nm)

def lin_int(e, m, t):
    if isinstance(t, int): return m.ring.const(t)
    if t.op == 'zext': return lin_int(e, m, t.args[0])
    if t.op == 'add' and T.hi_(t.args[0]) + T.hi_(t.args[1]) < (1 << t.w): return lin_int(e, m, t.args[0]) + lin_int(e, m, t.args[1])
    if t.op == 'mul' and T.hi_(t.args[0]) * T.hi_(t.args[1]) < (1 << t.w): return lin_int(e, m, t.args[0]) * lin_int(e, m, t.args[1])
    if t.op == 'shl' and T.hi_(t.args[0]) << t.args[1] < (1 << t.w): return lin_int(e, m, t.args[0]) * (1 << t.args[1])
    v = m.ring.var('int#%d:%s' % (t.id, T.tostr(t, 1)))
    if t.hi == 1:
        e.facts_for(m.ring).add_zero(v * v - v)
    return v

NAME = re.compile(r'(?:auto |std::.* |)?tachyon::math::PrimeField<(.*?Config), void>::(.*)$')

def _ret(f):
    """('sret',) or ('reg',)"""
    return bool(f.params) and 'sret' in f.params[0][2]

def _split_args(s):
    """method name from demangled tail"""
    m = re.match(r'(operator\S*?|[~\w]+)(<.*?>)?\(', s)
    return m.group(1) if m else s

class H:
    """wraps: args normalised to (ret writer, this, rest)"""

def ext_handler(m):
    """calls to the methods of the extension class are replaced by their contracts (C03)"""
    cls = m.rx.replace('> ', r'>\s*')
    return (re.compile(r'(?:auto |std::.* |)?tachyon::math::(?:' + cls + r')::(.*)$'), lambda e, f, mt: fe_make(m, mt.group(1))(e, f))
def fe_handler(models=None):
    def make(e, f, mt):
        m = BYCFG.get(mt.group(1))
        if m is None: return None
        if models is not None and m not in models: return None
        return fe_make(m, mt.group(2))(e, f)
    return (NAME, make)
def fe_make(m, rest):
    def make(e, f):
        if '::' in rest.split('(')[0]: return None
        name = _split_args(rest)
        sret = _ret(f)
        ps = f.params[1:] if sret else f.params
        byval = [p[0].k == 'i' for p in ps]
        def arg(e, a, i):
            v = a[i]
            return to_poly(e, m, v) if byval[i] else read_fe(e, m, v)
        def ret(e, a0, poly):
            poly = e_norm(e, m, poly)
            if sret: e.mem.store(a0, m.size, fe_val(m, poly)); return None
            return fe_val(m, poly)
        if m.ext and name in ('Add', 'Sub', 'Mul', 'AddInPlace', 'SubInPlace', 'MulInPlace') and len(ps) == 2 and 'PrimeField' in rest[rest.index('(')+1:][:30]:
            # scaling by an element of the base field: contract for constants only
            if not name.startswith('Mul'): return None
            b = m.base
            def scale(e, a):
                r = a[0] if sret else None
                if sret: a = a[1:]
                k = (to_poly(e, b, a[1]) if byval[1] else read_fe(e, b, a[1])).const()
                if k is None: raise Unsupported('scaling of %s by a symbolic base field element' % m.name)
                v = arg(e, a, 0) * k
                if name == 'Mul': return ret(e, r, v)
                write_fe(e, m, a[0], v); return a[0]
            return scale
        def wrap(fn):
            def h(e, a):
                if sret: return fn(e, a[0], a[1:])
                return fn(e, None, a)
            return h
        bin_ = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mul': lambda x, y: x * y}
        if name in bin_ and len(ps) == 2:
            op = bin_[name]
            return wrap(lambda e, r, a: ret(e, r, op(arg(e, a, 0), arg(e, a, 1))))
        if name.endswith('InPlace') and name[:-7] in bin_ and len(ps) == 2:
            op = bin_[name[:-7]]
            def h(e, r, a):
                write_fe(e, m, a[0], op(read_fe(e, m, a[0]), arg(e, a, 1))); return a[0]
            return wrap(h)
        un = {'DoubleImpl': lambda x: x + x, 'SquareImpl': lambda x: x * x, 'Negate': lambda x: -x, 'Double': lambda x: x + x, 'Square': lambda x: x*x}
        if name in un and len(ps) == 1:
            op = un[name]
            return wrap(lambda e, r, a: ret(e, r, op(arg(e, a, 0))))
        if name.endswith('InPlace') and name[:-7] in un and len(ps) == 1:
            op = un[name[:-7]]
            def h(e, r, a):
                write_fe(e, m, a[0], op(read_fe(e, m, a[0]))); return a[0]
            return wrap(h)
        if name == 'Inverse' and len(ps) == 1:
            def h(e, a):
                if sret: r, th = a
                else: r, th = None, a[0]
                x = read_fe(e, m, th)
                v = inverse(e, m, x)
                if sret:
                    if v is None: e.mem.store(r + m.size, 1, 0)
                    else:
                        e.mem.store(r, m.size, fe_val(m, v)); e.mem.store(r + m.size, 1, 1)
                    return None
                if v is None: return 0
                pv = fe_val(m, v)
                pc = [(0, m.size, pv.to_bytes(m.size, 'little') if isinstance(pv, int) else pv), (m.size, m.size, b'\x01' + bytes(m.size - 1))]
                if f.ret.k == 'struct': return [pv, 1]
                if isinstance(pv, int): return pv | (1 << (8*m.size))
                return Tup(pc)
            return h
        if name == 'InverseInPlace' and len(ps) == 1:
            def h(e, a):
                if sret: r, th = a
                else: r, th = None, a[0]
                x = read_fe(e, m, th)
                v = inverse(e, m, x)
                if v is not None: write_fe(e, m, th, v)
                if sret:
                    if v is None: e.mem.store(r + 8, 1, 0)
                    else: e.mem.store(r, 8, th); e.mem.store(r + 8, 1, 1)
                    return None
                return [th, 1] if v is not None else [0, 0]
            return h
        if name in ('IsZero', 'IsOne', 'IsMinusOne') and len(ps) == 1:
            k = {'IsZero': 0, 'IsOne': 1, 'IsMinusOne': -1}[name]
            return wrap(lambda e, r, a: fez(m, e_norm(e, m, arg(e, a, 0) - k)))
        if name in ('operator==', 'operator!=') and len(ps) == 2:
            ne = name == 'operator!='
            def h(e, r, a):
                c = fez(m, e_norm(e, m, arg(e, a, 0) - arg(e, a, 1)))
                return T.not_(c) if ne else c
            return wrap(h)
        if name in ('operator<', 'operator>', 'operator<=', 'operator>=') and len(ps) == 2:
            def h(e, r, a):
                x, y = arg(e, a, 0), arg(e, a, 1)
                op = name
                if x.const() is not None and y.const() is not None:
                    xx, yy = x.const(), y.const()
                    return int({'operator<': xx < yy, 'operator>': xx > yy, 'operator<=': xx <= yy, 'operator>=': xx >= yy}[op])
                if op in ('operator>', 'operator<='): x, y = y, x
                neg = op in ('operator<=', 'operator>=')
                # x < y
                if e.decide(fez(m, x - y)): c = 0
                else: c = felt(m, x, y)
                return T.not_(c) if neg else c
            return wrap(h)
        if m.ext and name not in (): return None
        if name == 'ToBigInt' and len(ps) == 1:
            def h(e, r, a):
                x = arg(e, a, 0)
                n = max(1, m.size // 8)
                c = x.const()
                L = [(c >> (64*i)) & (2**64-1) for i in range(n)] if c is not None else [limb(e, m, x, i) for i in range(n)]
                if sret:
                    for i in range(n): e.mem.store(r + 8*i, 8, L[i])
                    return None
                if f.ret.k == 'i': return L[0]
                return L
            return wrap(h)
        if name == 'PrimeField' or name == 'FromBigInt':
            # constructors from integers / BigInt
            sig = rest[rest.index('('):]
            if name == 'PrimeField':
                if len(ps) < 2: return None
                if 'PrimeField' in sig: return None     # copies: execute
                th = 0; k = 1
            else: k = 0
            pt = ps[k]
            n = max(1, m.size // 8)
            def h(e, r, a):
                if len(ps) > k + 1 and pt[0].k == 'i':
                    limbs = list(a[k:])
                    if len(limbs) != n: raise Unsupported('ctor args')
                elif pt[0].k == 'ptr':
                    limbs = [e.mem.load(a[k] + 8*i, 8) for i in range(n)]
                else:
                    v = a[k]; w = pt[0].bits
                    signed = bool(re.match(r'\((int|long|short|signed char|char)\)', sig))
                    if signed:
                        if isinstance(v, Term): v = T.sext(v, w, 64)
                        else: v = T.sgn(v, w) & (2**64-1)
                    elif isinstance(v, Term): v = T.zext(v, w, 64)
                    limbs = [v] + [0]*(n-1)
                # precondition of the constructor: integer < p
                if all(isinstance(x, int) for x in limbs):
                    val = sum(x << (64*i) for i, x in enumerate(limbs))
                    if val >= m.p:
                        raise CheckFail('precondition', 'PrimeField constructor of %s called with %#x >= modulus' % (m.name, val))
                p_ = int_to_poly(e, m, limbs)
                if name == 'FromBigInt': return ret(e, r, p_)
                write_fe(e, m, a[0], p_)
                return None
            return wrap(h)
        if name == 'Random':
            def h(e, r, a):
                e.fresh += 1
                return ret(e, r, m.ring.var('rand%d_%s' % (e.fresh, m.name)))
            return wrap(h)
        return None
    return make

def felt(m, x, y):
    """uninterpreted order x<y on canonical integers"""
    a, b = x, y
    k = ('lt', m.rk, a.key(), b.key())
    # antisymmetry under x != y : normalise the pair
    if a.key() > b.key():
        return T.not_(felt(m, y, x))
    i = _lt.get(k)
    if i is None:
        i = _lt[k] = len(LTS); LTS.append((m, x, y))
    return T.mk('felt', (i,), 1)
_lt = {}; LTS = []
