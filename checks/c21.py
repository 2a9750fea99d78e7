"""C21: PLONK proving: honest proofs verify, everything else is refused; the arguments the prover builds are those the verifier checks."""
import collections, random
from tvc.suite import Suite
from tvc.fe import *
from tvc import terms as T, build
from checks.c18 import sysenc, value, norm, queries, rtree, sysdegree, DELTA, OMEGA28, F0
S = Suite('C21', 'bounded', assumptions=['prime-field operations satisfy their contracts (check C01)', 'evaluation domains satisfy their contracts (check C12)', 'commitment schemes satisfy their contracts (check C20)', 'constraint systems and verifier identities satisfy their contracts (check C18)'],
  trusted=['absl and std containers (third-party): their code is executed with the code under contract, not specified separately', 'SHA-256 of the installed OpenSSL and a stand-in BLAKE2b (RFC 7693) in place of BoringSSL, which is not available offline'])
OB = lambda *a: ['tachyon/math/elliptic_curves/%s/_objs/%s_config/%s_config.o' % (d, f, f) for d in a for f in ('fq', 'fr')]
ZK = ['tachyon/zk/expressions/_objs/expression_type/expression_type.o', 'tachyon/zk/plonk/base/_objs/column_type/column_type.o', 'tachyon/zk/plonk/halo2/_objs/config/config.o', 'tachyon/zk/plonk/permutation/_objs/cycle_store/cycle_store.o',
  'tachyon/zk/plonk/vanishing/_objs/calculation/calculation.o', 'tachyon/zk/plonk/vanishing/_objs/value_source/value_source.o', 'tachyon/math/elliptic_curves/bn/bn254/halo2/_objs/bn254/bn254.o']
for h in ('plonk_e2e', 'plonk_e2e_pse'): S.h(h, ir=False, objs=OB('bn/bn254') + ZK, flags='-I' + build.VERIF + '/harness/third_party', linkopts='-lcrypto')
S.h('plonk_args', irflags='-I/verif/harness/irstub', flags='-I' + build.VERIF + '/harness/third_party', objs=['tachyon/math/elliptic_curves/bn/bn254/_objs/fr_config/fr_config.o', 'tachyon/zk/expressions/_objs/expression_type/expression_type.o', 'tachyon/zk/plonk/base/_objs/column_type/column_type.o'])
def lst(v): return list(v) if isinstance(v, (list, tuple)) else [v]
M = FIELDS['bn254.Fr']; P = M.p; F = 'bn254.Fr'
def c(name, fn, args, post, h, **k):
    k.setdefault('n', 1)
    return S.c(('%s %s' % (fn, name)).strip(), h, fn, args.replace(':F', ':' + F), post, **k)
# ---- the arguments the prover builds
def blinding(x, rows, rnd, at, what):
    """every row holds a random value of its own (symbolically: the values in the order in which they are drawn)"""
    if x.sym:
        for i, v in enumerate(rows): x.eq(v, rnd[at + i], what)
        return
    left = x.__dict__.setdefault('_left', collections.Counter(int(v) for v in rnd))
    for v in rows: x.true(left[int(v)] > 0, what); left[int(v)] -= 1
def chain(x, z, n, U, num, den, rnd, at, start, what, one='starts at one'):
    """z starts at start, z[i+1] den[i] = z[i] num[i] in the usable rows, then blinding values"""
    x.eq(z[0], start, what + ': ' + one)
    for i in range(U): x.eq(z[i+1]*den[i], z[i]*num[i], what + ': running product')
    blinding(x, z[U+1:n], rnd, at, what + ': blinding rows')
    return at + n-U-1
def nonzero(x, vals):
    for v in vals:
        if x.sym: x.assume_nonzero(v)
        elif v == 0: return False
def blindc(n, b, last):
    def post(x):
        v, r, rnd = lst(x.v), lst(x.r), lst(x.rnd); k = b + last; x.true(x.ret == (1 if n >= k else 0), 'is refused iff there are fewer rows')
        m = n-k if n >= k else n
        for i in range(m): x.eq(r[i], v[i], 'other rows are kept')
        blinding(x, r[m:], rnd, 0, 'blinding rows')
        x.true(x.used == (k if n >= k else 0), 'one random value for each row')
    c('n=%d, %d factors, last %d' % (n, b, last), 'blind', 'n:u64 b:u64 last:u64 rnd:F*8 v:F*%d -> r:F*%d used:u64' % (n, n), post, 'plonk_args', fix={'n': [n], 'b': [b], 'last': [last]}, n=2, bound='this size')
for n, b, l in ((4, 0, 0), (4, 1, 0), (4, 1, 1), (4, 3, 1), (4, 4, 0), (4, 4, 1), (2, 3, 0), (8, 5, 0), (8, 5, 1), (1, 1, 0), (1, 0, 1)): blindc(n, b, l)
def grandc(mode, n, b, nc):
    U = n-b-1
    def den(x): d = lst(x.den); return [prod(d[c_*n+i] for c_ in range(nc)) for i in range(n)]
    def post(x):
        z, nm, rnd = lst(x.z), lst(x.num), lst(x.rnd); chain(x, z, n, U, [prod(nm[c_*n+i] for c_ in range(nc)) for i in range(n)], den(x), rnd, 0, x.start if mode == 2 else 1, 'grand product')
        if mode == 2: x.eq(x.last, z[U], 'the value to continue from')
    c('%s n=%d usable=%d columns=%d' % (('serial', 'parallel', 'several columns')[mode], n, U, nc), 'grand', 'mode:u64 n:u64 b:u64 nc:u64 rnd:F*8 num:F*%d den:F*%d start:F -> z:F*%d last:F' % (n*nc, n*nc, n), post, 'plonk_args',
      fix={'mode': [mode], 'n': [n], 'b': [b], 'nc': [nc]}, pre=lambda x: nonzero(x, lst(x.den)), n=3, bound='this size')
def prod(it):
    r = None
    for v in it: r = v if r is None else r*v
    return r
for m in (0, 1, 2):
    for n, b, nc in ((4, 1, 1), (4, 0, 1), (8, 2, 1), (8, 5, 1)) + (((4, 1, 2), (4, 0, 3), (8, 5, 2)) if m == 2 else ()): grandc(m, n, b, nc)
def tab(x, d, n, ci, row, co):
    fx, ad, ii, ch = lst(x.fx), lst(x.ad), lst(x.ii), lst(x.ch)
    def leaf(l):
        if l[0] == 'chal': return ch[l[1]]
        r = (row + l[2]) % n
        return fx[l[1]*n+r] if l[0] == 'fixed' else ad[(ci*d['na']+l[1])*n+r] if l[0] == 'advice' else ii[(ci*d['ni']+l[1])*n+r]
    return leaf
def horner(es, co, leaf, theta):
    r = None
    for e in es: v = value(norm(e), co, leaf); r = v if r is None else r*theta + v
    return r
def sysc(fn, d, nc, n, b, args, outs, post, tag, fix={}, N=2, **k):
    p = sysenc(d); t = lambda w, m: '%s:F*%d' % (w, max(1, m))
    c('%s n=%d usable=%d circuits=%d' % (tag, n, n-b-1, nc), fn, 'prog:u64*%d co:F*3 nc:u64 n:u64 b:u64 rnd:F*64 %s %s %s ch:F*4 ' % (len(p), t('fx', d.get('nf', 0)*n), t('ad', d['na']*n*nc), t('ii', d.get('ni', 0)*n*nc)) + args + ' -> ' + outs, post, 'plonk_args', fix=dict({'prog': p, 'nc': [nc], 'n': [n], 'b': [b]}, **fix), n=N, bound='this system and size, all values', **k)
def shufflec(d, nc, n, b, tag):
    U, m = n-b-1, len(d['shuffles'])
    def nd(x, s, ci, k): return [horner([p[k] for p in s], lst(x.co), tab(x, d, n, ci, r, x), x.theta) + x.gamma for r in range(n)]
    def post(x):
        z, rnd = lst(x.z), lst(x.rnd); at = j = 0
        for ci in range(nc):
            for s in d['shuffles']: at = chain(x, z[j*n:(j+1)*n], n, U, nd(x, s, ci, 0), nd(x, s, ci, 1), rnd, at, 1, 'shuffle') + 1; j += 1
        x.true(x.ret == j*n, 'number of grand products')
    def pre(x): return nonzero(x, [v for ci in range(nc) for s in d['shuffles'] for v in nd(x, s, ci, 1)])
    sysc('shuffles', d, nc, n, b, 'theta:F gamma:F', 'z:F*%d' % max(1, nc*m*n), post, tag, pre=pre)
SH1 = [(('advice', 0, 0), ('advice', 1, 0))]; SH2 = [(('advice', 0, 1), ('fixed', 0, 0)), (('sum', ('inst', 0, 0), ('const', 0)), ('prod', ('advice', 1, -1), ('chal', 0)))]
SH3 = [(('scaled', ('advice', 0, 0), 1), ('neg', ('advice', 1, 0))), (('fixed', 0, 0), ('inst', 0, 1)), (('const', 2), ('advice', 0, -1))]
BASE = {'nf': 1, 'na': 2, 'ni': 1, 'nch': 1}
for s, nc, n, b, tag in (([SH1], 1, 4, 1, 'one'), ([SH1], 2, 4, 1, 'one'), ([SH2], 1, 4, 1, 'two columns'), ([SH1, SH2], 1, 4, 1, 'two arguments'), ([SH3, SH1], 1, 4, 1, 'two arguments of three columns'), ([SH1], 1, 8, 4, 'one'), ([], 2, 4, 1, 'none')): shufflec(dict(BASE, shuffles=s), nc, n, b, tag)
def permc(d, nc, n, b, tag, fixed=False):
    U = n-b-1; eq = list(dict.fromkeys(d['eq'])); cl = sysdegree(d)[0]-2; m = -(-len(eq)//cl) if eq else 0; w = pow(OMEGA28, 1 << (28 - (n-1).bit_length()), P)
    def val(x, ci, j, i): k, col = eq[j]; return tab(x, d, n, ci, i, x)((('fixed', 'advice', 'inst')[k], col, 0))
    def nd(x, ci, ch):
        pm = lst(x.perm); C = range(ch*cl, min(len(eq), (ch+1)*cl))
        return [prod(val(x, ci, j, i) + x.beta*(pow(DELTA, j, P)*pow(w, i, P) % P) + x.gamma for j in C) for i in range(n)], [prod(val(x, ci, j, i) + x.beta*pm[j*n+i] + x.gamma for j in C) for i in range(n)]
    def post(x):
        z, rnd = lst(x.z), lst(x.rnd); at = j = 0
        for ci in range(nc):
            st = 1
            for ch in range(m): N, D = nd(x, ci, ch); zz = z[j*n:(j+1)*n]; at = chain(x, zz, n, U, N, D, rnd, at, st, 'permutation', 'continues the previous product' if ch else 'starts at one') + 1; st = zz[U]; j += 1
        x.true(x.ret == j*n, 'number of grand products')
    def pre(x):
        pm = lst(x.perm); return nonzero(x, [val(x, ci, j, i) + x.beta*pm[j*n+i] + x.gamma for ci in range(nc) for j in range(len(eq)) for i in range(n)])
    sysc('permutation', d, nc, n, b, 'np:u64 perm:F*%d beta:F gamma:F' % max(1, len(eq)*n), 'z:F*%d' % max(1, nc*m*n), post, tag, dict({'np': [len(eq)]}, **({'beta': [rp.randrange(P)], 'gamma': [rp.randrange(P)], 'perm': [rp.randrange(P) for _ in range(len(eq)*n)]} if fixed else {})), pre=pre)
rp = random.Random(5)
for eq, mn, nc, n, b, fx_ in (([(1, 0)], 0, 1, 4, 1, False), ([(1, 0), (1, 1)], 0, 1, 2, 0, False), ([(1, 0), (1, 1)], 4, 1, 2, 0, False), ([(1, 0), (1, 1)], 0, 1, 4, 1, True), ([(1, 1), (0, 0), (2, 0)], 4, 2, 4, 1, True), ([(1, 0), (0, 0), (1, 1), (2, 0)], 5, 1, 4, 2, True), ([], 0, 2, 4, 1, False), ([(2, 0), (1, 0)], 0, 2, 4, 2, True)):
    permc(dict(BASE, eq=eq, min=mn), nc, n, b, '%d columns, degree %d%s' % (len(eq), max(3, mn), ', fixed permutation and challenges' if fx_ else ''), fx_)
def ints(x, v): return [int(t) for t in v]
def pairc(tag, a, s, n, b, ok=True):
    """a, s: values as a function of the draw"""
    U = n-b-1
    def post(x):
        x.true(x.ret == (1 if ok else 0), 'inputs in the table' if ok else 'an input that is not in the table is refused')
        if not ok or x.ret != 1: return
        A, Sv, ra, rs = (lst(v) for v in (x.a, x.s, x.ra, x.rs)); key = lambda v: sorted(int(t) for t in v)
        x.true(key(ra[:U]) == key(A[:U]), 'a permutation of the inputs'); x.true(key(rs[:U]) == key(Sv[:U]), 'a permutation of the table')
        x.true(ra[0] == rs[0], 'first rows agree')
        for i in range(1, U): x.true(ra[i] == rs[i] or ra[i] == ra[i-1], 'in the table or repeated')
    def gen(rng, i):
        A, Sv = a(rng, U, n), s(rng, U, n); rest = lambda v: v + [rng.randrange(P) for _ in range(n-U)]; t = Sv
        A = [t[k] if k is not None else rng.randrange(P) for k in A]; return {'a': rest(A), 's': rest(Sv), 'n': [n], 'b': [b]}
    c('%s n=%d usable=%d' % (tag, n, U), 'permute_pair', 'n:u64 b:u64 rnd:F*16 a:F*%d s:F*%d -> ra:F*%d rs:F*%d' % (n, n, n, n), post, 'plonk_args', fix={'n': [n], 'b': [b]}, gen=gen, sym=False, n=12, bound='the inputs of this run')
for n, b in ((4, 1), (8, 2), (16, 5), (32, 5)):
    anyin = lambda rng, U, n: [rng.randrange(U) for _ in range(U)]; full = lambda rng, U, n: [rng.randrange(P) for _ in range(U)]
    few = lambda rng, U, n: [rng.choice([0, 1, P-1, 5]) for _ in range(U)]
    pairc('any', anyin, full, n, b); pairc('repeated table', anyin, few, n, b); pairc('one value', lambda rng, U, n: [0]*U, few, n, b); pairc('permuted', lambda rng, U, n: rng.sample(range(U), U), full, n, b)
    pairc('missing', lambda rng, U, n: (lambda j: [None if i == j else rng.randrange(U) for i in range(U)])(rng.randrange(U)), full, n, b, False)
def lookgen(d, nc, n, b):
    """columns in which every lookup holds in the usable rows (expressions: single columns without rotation)"""
    U = n-b-1
    def gen(rng, i):
        few = rng.random() < .5; r = lambda: rng.choice([0, 1, 2, P-1]) if few else rng.randrange(P)
        fx = [[r() for _ in range(n)] for _ in range(d['nf'])]; ad = []
        for ci in range(nc):
            a = [[rng.randrange(P) for _ in range(n)] for _ in range(d['na'])]
            for l in d['lookups']:
                for row in range(U):
                    t = rng.randrange(U)
                    for (e, tb) in l: a[e[1]][row] = fx[tb[1]][t]
            ad += [v for col in a for v in col]
        return {'fx': [v for col in fx for v in col], 'ad': ad}
    return gen
def look2(d, nc, n, b, tag):
    U, m = n-b-1, len(d['lookups'])
    def nd(x, l, ci, k): return [horner([p[k] for p in l], lst(x.co), tab(x, d, n, ci, r, x), x.theta) for r in range(n)]
    def post(x):
        z, rnd, pa, pt = (lst(v) for v in (x.z, x.rnd, x.pa, x.pt)); j = 0; at = (2*b+4)*m*nc
        for ci in range(nc):
            for l in d['lookups']:
                A, T_ = nd(x, l, ci, 0), nd(x, l, ci, 1); a_, t_ = pa[j*n:(j+1)*n], pt[j*n:(j+1)*n]; zz = z[j*n:(j+1)*n]
                key = lambda v: sorted(int(q) for q in v[:U]); x.true(key(A) == key(a_) and key(T_) == key(t_), 'lookup: permuted columns'); blinding(x, a_[U:] + t_[U:], rnd, 0, 'lookup: blinding rows of permuted columns')
                at = chain(x, zz, n, U, [(p_ + x.beta)*(q_ + x.gamma) for p_, q_ in zip(A, T_)], [(p_ + x.beta)*(q_ + x.gamma) for p_, q_ in zip(a_, t_)], rnd, at, 1, 'lookup'); x.eq(zz[U], 1, 'lookup: ends at one'); j += 1
                at += 1
        x.true(x.ret == j*n, 'number of grand products')
    def pre(x): return nonzero(x, [v for ci in range(nc) for l in d['lookups'] for k, g in ((0, x.beta), (1, x.gamma)) for v in [w + g for w in nd(x, l, ci, k)[:U]]])
    sysc('lookups2', d, nc, n, b, 'theta:F beta:F gamma:F', ' '.join('%s:F*%d' % (w, nc*m*n) for w in ('z', 'pa', 'pt')), post, tag, pre=pre, gen=lookgen(d, nc, n, b), sym=False, N=6)
def look1(d, nc, n, b, tag, groups):
    """groups: the lookups of each argument (those that share a table)"""
    U, m = n-b-1, len(groups)
    def post(x):
        z, rnd, pm = (lst(v) for v in (x.z, x.rnd, x.pm)); j = 0
        for ci in range(nc):
            for g in groups:
                ins = [[horner([p[0] for p in l], lst(x.co), tab(x, d, n, ci, r, x), x.theta) for r in range(n)] for l in g]; T_ = [horner([p[1] for p in g[0]], lst(x.co), tab(x, d, n, ci, r, x), x.theta) for r in range(n)]
                zz, mm = z[j*n:(j+1)*n], pm[j*n:(j+1)*n]; j += 1
                tot = {}
                for r in range(U): tot[int(T_[r])] = (tot.get(int(T_[r]), 0) + int(mm[r])) % P
                cnt = {}
                for col in ins:
                    for r in range(U): cnt[int(col[r])] = cnt.get(int(col[r]), 0) + 1
                x.true({k: v for k, v in tot.items() if v} == cnt, 'lookup: multiplicities')
                inv = lambda v: pow(int(v + x.beta), P-2, P)
                x.eq(zz[0], 0, 'lookup: starts at zero'); s = 0
                for r in range(U):
                    s = (s + sum(inv(col[r]) for col in ins) - int(mm[r])*inv(T_[r])) % P; x.eq(zz[r+1], s, 'lookup: running sum')
                x.eq(zz[U], 0, 'lookup: ends at zero')
        x.true(x.ret == j*n, 'number of grand sums')
    sysc('lookups1', d, nc, n, b, 'theta:F beta:F', 'z:F*%d pm:F*%d' % (nc*m*n, nc*m*n), post, tag, gen=lookgen(d, nc, n, b), sym=False, N=6)
A_ = lambda i: ('advice', i, 0)
X_ = lambda i: ('fixed', i, 0)
LK = [[[(A_(0), X_(0))]], [[(A_(0), X_(0)), (A_(1), X_(1))]], [[(A_(0), X_(0))], [(A_(1), X_(1))]], [[(A_(0), X_(0)), (A_(1), X_(1))], [(A_(2), X_(2))]]]
for j, l in enumerate(LK):
    for n, b, nc in ((4, 1, 1), (8, 2, 2), (16, 5, 1)): look2({'nf': 3, 'na': 4, 'ni': 1, 'lookups': l}, nc, n, b, 'lookups %d' % j)
for j, (l, g) in enumerate([(LK[0], [LK[0]]), (LK[1], [LK[1]]), (LK[2], [[LK[2][0]], [LK[2][1]]]), ([[(A_(0), X_(0))], [(A_(1), X_(0))]], [[[(A_(0), X_(0))], [(A_(1), X_(0))]]])]):
    for n, b, nc in ((4, 1, 1), (8, 2, 2), (16, 5, 1)): look1({'type': 1, 'nf': 3, 'na': 4, 'ni': 1, 'min': 9, 'lookups': l}, nc, n, b, 'log-derivative lookups %d' % j, g)
# ---- satisfied circuits
# advice 0, 1: inputs; 2, 3: outputs of the gates; 4, 5: looked up; 6, 8 and 7, 9: shuffled
def system(rg, typ, k, parts):
    nch = rg.choice([0, 1])
    d = {'type': typ, 'nf': 4, 'na': 10, 'ni': 2, 'nss': 3, 'nsc': 1, 'nch': nch, 'min': rg.choice([0, 0, 4, 6])}
    L = [('const', rg.randrange(3)), ('fixed', 0, rg.choice([0, 1, -1])), ('advice', 0, rg.choice([0, 1, -1])), ('advice', 1, 0), ('advice', rg.randrange(2), rg.choice([0, 1, 2])), ('inst', 0, rg.choice([0, 0, 1, -1])), ('inst', 1, 0), ('csel', 0)]
    d['gates'] = []
    for j in range(2 if 'g' in parts else 0):
        e = rtree(rg, 2, L, un=('neg',), sc=('scaled',), bi=('sum', 'prod')); g = ('sum', e, ('neg', ('advice', 2 + j, 0)))
        if nch and rg.random() < .5: g = ('prod', ('chal', 0), g)
        d['gates'].append([('prod', ('ssel', j), g)] + ([('prod', ('ssel', j), ('sum', ('advice', 2 + j, 0), ('neg', e)))] if rg.random() < .3 else []))
        d.setdefault('e', []).append(e)
    if 'e' not in d: d['e'] = []
    d['eq'] = [(1, 0), (2, 0), (1, 1), (0, 0), (2, 1), (1, 2)][:rg.choice([3, 4, 6])] if 'p' in parts else []
    T1, T2 = ('fixed', 1, 0), ('fixed', 2, 0)
    d['lookups'] = [[(('advice', 4, 0), T1), (('advice', 5, 0), T2)], [(('prod', ('csel', 0), ('advice', 4, 0)), T1)], [(('advice', 5, 0), T2)], [(('sum', ('advice', 4, 0), ('const', 0)), ('sum', ('const', 0), T1))]][:rg.choice([1, 2, 3, 4])] if 'l' in parts else []
    d['shuffles'] = [[(('advice', 6, 0), ('advice', 7, 0)), (('advice', 8, 0), ('advice', 9, 0))], [(('prod', ('const', 1), ('advice', 6, 0)), ('prod', ('advice', 7, 0), ('const', 1)))]][:rg.choice([1, 2])] if 's' in parts else []
    return d
def usable(d, k):
    q = queries(d)[1]; m = max([3] + [sum(1 for a, _ in q if a == c) for c in range(d['na'])]); return (1 << k) - (m + 2) - 1
def witness(rg, d, k, nc, bad):
    """tables for nc circuits, selectors, copies; bad: what one circuit violates"""
    U = usable(d, k); co = [rg.randrange(1, P) for _ in range(3)]; r = lambda: rg.choice([0, 1, P-1, rg.randrange(P), rg.randrange(P)])
    fx = [[r() for _ in range(U)] for _ in range(4)]; nt = rg.randrange(2, U+1); fx[1] = [rg.randrange(P) if i < nt else 0 for i in range(U)]; fx[2] = [rg.randrange(P) if i < nt else 0 for i in range(U)]
    fx[1][0] = fx[2][0] = 0
    ir = [rg.choice([1, U//2, U]), U]
    sel = {('ssel', 0): [i for i in range(1, U-2) if rg.random() < .6] + [1], ('ssel', 1): [i for i in range(1, U-2) if rg.random() < .4], ('csel', 0): [i for i in range(U) if rg.random() < .5], ('ssel', 2): []}
    cells = [(k_, i, j) for k_, i in d['eq'] if (k_, i) != (1, 2) for j in range(U if k_ < 2 else ir[i])]
    cp = []; used = set()
    if cells:
        for _ in range(rg.randrange(3, 9)):
            g = rg.sample(cells, rg.randrange(2, 5)); f = [x for x in g if x[0] == 0]; g = f[:1] + [x for x in g if x[0] == 1 and x not in used] + [x for x in g if x[0] == 2 and x not in used]
            if len(g) < 2 or not any(x[0] == 1 for x in g): continue
            if f and f[0] in used: continue
            used |= set(g); cp.append(g)
    adv, inst = [], []
    for ci in range(nc):
        a = [[r() for _ in range(U)] for _ in range(10)]; n = [[rg.randrange(P) if j < ir[i] else 0 for j in range(U)] for i in range(2)]
        for g in cp:
            v = fx[g[0][1]][g[0][2]] if g[0][0] == 0 else r()
            for (kk, i, j) in g:
                if kk == 1: a[i][j] = v
                elif kk == 2: n[i][j] = v
        for j in range(U): t = rg.randrange(U); a[4][j], a[5][j] = fx[1][t], fx[2][t]
        pm = list(range(U)); rg.shuffle(pm)
        for j in range(U): a[7][j], a[9][j] = a[6][pm[j]], a[8][pm[j]]
        for jg, e in enumerate(d['e']):
            for row in sel[('ssel', jg)]:
                def leaf(l):
                    if l[0] in ('ssel', 'csel'): return int(row in sel[l])
                    if l[0] == 'chal': raise KeyError
                    return (fx, a, n)[{'fixed': 0, 'advice': 1, 'inst': 2}[l[0]]][l[1]][(row + l[2]) % (1 << k)] if (row + l[2]) % (1 << k) < U else 0
                a[2+jg][row] = int(value(norm(e), co, leaf)) % P
        if ci == nc - 1:
            if bad == 'gate': row = rg.choice(sel[('ssel', 0)]); a[2][row] = (a[2][row] + rg.randrange(1, P)) % P
            if bad == 'lookup': row = rg.choice([0, U-1, rg.randrange(U)]); a[4][row] = (a[4][row] + 1 + rg.randrange(P-1)) % P
            if bad == 'lookup pair': a[4][1], a[5][1] = fx[1][0], fx[2][1]
            if bad == 'shuffle': row = rg.choice([0, U-1, rg.randrange(U)]); a[9][row] = (a[9][row] + 1) % P
            if bad == 'copy': kk, i, j = [x for g in cp for x in g if x[0] == 1][-1]; a[i][j] = (a[i][j] + 1) % P
        adv += [v for col in a for v in col]; inst += [v for col in n for v in col]
    # chains, in both directions; an instance cell is always copied from an advice or fixed cell
    pairs = []; w = lambda x: x[0] << 16 | x[1] << 8 | x[2]
    for g in cp:
        m = [x for x in g if x[0] != 2]
        for a_, b_ in zip(m, m[1:]): pairs += [w(a_), w(b_)] if rg.random() < .5 else [w(b_), w(a_)]
        for x in g:
            if x[0] == 2: pairs += [w(rg.choice(m)), w(x)]
    sl = [(0 if s[0] == 'ssel' else 1) << 16 | s[1] << 8 | row for s, rows in sel.items() for row in rows]
    return U, co, [v for col in fx for v in col], ir, sl, pairs, adv, inst
HOW = ['honest', 'byte changed', 'instance changed', 'truncated', 'instances exchanged']
def e2e(tag, seed, h, ps, tr, fp, k, nc, parts, how=0, bad=None, n=1):
    rg = random.Random(seed); typ = 1 if h == 'plonk_e2e' and ps == 1 else 0
    while 1:
        d = system(rg, typ, k, parts)
        try: U, co, fx, ir, sl, cp, adv, inst = witness(rg, d, k, nc, bad)
        except IndexError: continue
        break
    p = sysenc(d); what = how & 255
    post = lambda x: x.true((x.ret == 1) == (what == 0 and bad is None), 'an honest proof is accepted' if what == 0 and bad is None else 'refused: ' + (bad or HOW[what]))
    gen = lambda rng, i: {'tau': [rng.randrange(1000, P)], 'at': [rng.randrange(1 << 30)], 'delta': [rng.randrange(1, P)]}
    c(tag, 'e2e', 'ps:u64 tr:u64 fp:u64 k:u64 nc:u64 tau:F prog:u64*%d co:F*3 rows:u64 fixed:F*%d nsel:u64 sel:u64*%d ncopy:u64 copy:u64*%d ir:u64*2 adv:F*%d inst:F*%d na:u64 ni:u64 how:u64 at:u64 delta:F' % (len(p), len(fx), max(1, len(sl)), max(1, len(cp)), len(adv), len(inst)),
      post, h, fix={'ps': [ps], 'tr': [tr], 'fp': [fp], 'k': [k], 'nc': [nc], 'prog': p, 'co': co, 'rows': [U], 'fixed': fx, 'nsel': [len(sl)], 'sel': sl or [0], 'ncopy': [len(cp)//2], 'copy': cp or [0], 'ir': ir, 'adv': adv, 'inst': inst, 'na': [10], 'ni': [2], 'how': [how]},
      gen=gen, sym=False, n=n, bound='this circuit')
SCH = {('plonk_e2e', 0): 'scroll halo2 gwc', ('plonk_e2e', 1): 'scroll log-derivative shplonk', ('plonk_e2e_pse', 0): 'pse halo2 shplonk', ('plonk_e2e_pse', 1): 'pse halo2 gwc'}
for (h, ps), nm in SCH.items():
    z = 0
    for j, (parts, k, nc) in enumerate([('g', 4, 1), ('gp', 4, 1), ('gpl', 4, 2), ('gpls', 5, 1), ('gpls', 4, 1), ('l', 4, 1), ('s', 4, 2), ('p', 4, 1), ('gls', 4, 2), ('gpls', 4, 2)]):
        e2e('%s %s n=%d circuits=%d' % (nm, parts, 1 << k, nc), 7*j, h, ps, j % 4, j % 3 == 1, k, nc, parts, 256 if j % 2 else 0)
    for j, b in enumerate(['gate', 'lookup', 'lookup pair', 'shuffle', 'copy']):
        for nc in (1, 2): e2e('%s violated %s circuits=%d' % (nm, b, nc), 100 + 2*j + nc, h, ps, (j + nc) % 4, 0, 4, nc, 'gpls', 0, b)
    for j, w in enumerate(HOW[1:], 1):
        for tr in range(4):
            if w == 'instances exchanged' and tr > 1: continue
            e2e('%s %s transcript=%d' % (nm, w, tr), 200 + 10*j + tr, h, ps, tr, 0, 4, 2, 'gpls', j, n=3 if j == 1 else 1)
