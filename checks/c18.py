"""C18: PLONK constraint systems: expressions, selectors, lookups, permutations and the verifier's identities."""
import random
from tvc.suite import Suite
from tvc.fe import *
from tvc import terms as T
S = Suite('C18', 'bounded', assumptions=['prime-field operations satisfy their contracts (check C01)', 'evaluation domains satisfy their contracts (check C05)'],
  trusted=['absl and std containers (third-party): their code is executed with the code under contract, not specified separately', 'std::string growth (libstdc++, by its contract) and, for the identifiers of lookup tables, a string stream that appends to a string', 'stand-ins for libraries the sandbox lacks: powersort (std::stable_sort), perfetto (tracing macros expand to nothing)'])
OBJ = ['tachyon/math/elliptic_curves/bn/bn254/_objs/fr_config/fr_config.o']
S.h('plonk_expr', irflags='-I/verif/harness/irstub', objs=OBJ)
S.h('plonk_cs', irflags='-I/verif/harness/irstub', objs=OBJ + ['tachyon/zk/plonk/permutation/_objs/cycle_store/cycle_store.o'])
def lst(v): return list(v) if isinstance(v, (list, tuple)) else [v]
M = FIELDS['bn254.Fr']; P = M.p
F = 'bn254.Fr'
from tvc.contract import Fp
F0 = Fp(P, 0)
OFF = 1 << 15
# ---- expression trees: tuples; encoded in postfix
OPS = {'const': 0, 'ssel': 1, 'csel': 2, 'fixed': 3, 'advice': 4, 'inst': 5, 'chal': 6, 'neg': 7, 'sum': 8, 'prod': 9, 'scaled': 10, '+': 11, '-': 12, '*': 13, 'scale': 14, 'u-': 15, 'l+': 16, 'l-': 17, 'l*': 18, 'lscale': 19, 'lu-': 20, 'clone': 21, 'deref-': 22}
def word(op, a=0, rot=0, q=0): return OPS[op] | a << 8 | rot + OFF << 24 | q << 40
def enc(e):
    op = e[0]
    if op in ('const', 'ssel', 'csel', 'chal'): return [word(op, e[1])]
    if op in ('fixed', 'advice', 'inst'): return [word(op, *e[1:])]
    if op in ('scaled', 'scale', 'lscale'): return enc(e[1]) + [word(op, e[2])]
    if op in ('neg', 'u-', 'lu-', 'deref-', 'clone'): return enc(e[1]) + [word(op)]
    return enc(e[1]) + enc(e[2]) + [word(op)]
def norm(e):
    """the tree the operators must build"""
    op = e[0]
    if op in ('sum', '+', 'l+'): return ('sum', norm(e[1]), norm(e[2]))
    if op in ('-', 'l-'): return ('sum', norm(e[1]), ('neg', norm(e[2])))
    if op in ('prod', '*', 'l*'): return ('prod', norm(e[1]), norm(e[2]))
    if op in ('scaled', 'scale', 'lscale'): return ('scaled', norm(e[1]), e[2])
    if op in ('neg', 'u-', 'lu-', 'deref-'): return ('neg', norm(e[1]))
    if op == 'clone': return norm(e[1])
    return e
def degree(e):
    op = e[0]
    if op in ('const', 'chal'): return 0
    if op in ('ssel', 'csel', 'fixed', 'advice', 'inst'): return 1
    if op == 'neg' or op == 'scaled': return degree(e[1])
    return max(degree(e[1]), degree(e[2])) if op == 'sum' else degree(e[1]) + degree(e[2])
def value(e, co, leaf):
    op = e[0]
    if op == 'const': return co[e[1]]
    if op == 'neg': return 0 - value(e[1], co, leaf)
    if op == 'scaled': return value(e[1], co, leaf)*co[e[2]]
    if op == 'sum': return value(e[1], co, leaf) + value(e[2], co, leaf)
    if op == 'prod': return value(e[1], co, leaf)*value(e[2], co, leaf)
    return leaf(e)
def leaves(e): return [e] if e[0] in ('const', 'ssel', 'csel', 'fixed', 'advice', 'inst', 'chal') else [l for c in e[1:] if isinstance(c, tuple) for l in leaves(c)]
def rnd(rng): return rng.choice([0, 1, 2, P-1, rng.randrange(P), rng.randrange(P)])
def rtree(rg, d, L, un=('neg', 'u-', 'lu-', 'deref-', 'clone'), sc=('scaled', 'scale', 'lscale'), bi=('sum', 'prod', '+', '-', '*', 'l+', 'l-', 'l*'), nc=3):
    if d == 0 or rg.random() < .15: return rg.choice(L)
    k = rg.random(); sub = lambda: rtree(rg, d-1, L, un, sc, bi, nc)
    if k < .15: return (rg.choice(un), sub())
    if k < .3: return (rg.choice(sc), sub(), rg.randrange(nc))
    return (rg.choice(bi), sub(), sub())
def c(fn, args, post, tag='', h='plonk_expr', **k):
    k.setdefault('n', 8)
    return S.c('%s %s' % (fn, tag), h, fn, args.replace(':F', ':' + F), post, **k)
ALL = [('const', 0), ('const', 1), ('const', 2), ('ssel', 0), ('ssel', 3), ('csel', 1), ('csel', 0), ('fixed', 0, 0, 0), ('fixed', 1, -1, 1), ('fixed', 1, 2, 2), ('advice', 0, 0, 0), ('advice', 1, 1, 1), ('advice', 2, -2, 2), ('inst', 0, 0, 0), ('inst', 1, 1, 1), ('chal', 0), ('chal', 1)]
NOSEL = [l for l in ALL if l[0] not in ('ssel', 'csel')]
NOSS = [l for l in ALL if l[0] != 'ssel']
rg = random.Random(18)
OP1 = [('const', 0), ('ssel', 3), ('csel', 1), ('chal', 1), ('fixed', 1, -1, 1), ('advice', 2, -2, 2), ('inst', 1, 1, 1)]
A_, B_ = ('advice', 0, 0, 0), ('fixed', 1, 2, 2)
SHAPES = OP1 + [(o, A_) for o in ('neg', 'u-', 'lu-', 'deref-', 'clone')] + [(o, A_, 1) for o in ('scaled', 'scale', 'lscale')] + [(o, A_, B_) for o in ('sum', 'prod', '+', '-', '*', 'l+', 'l-', 'l*')]
# ---- construction, degree
def simple(e):
    if e[0] == 'ssel': return True
    return any(simple(x) for x in e[1:] if isinstance(x, tuple))
def meta(e):
    t = norm(e)
    def post(x):
        r = lst(x.r); ss = sorted({l[1] for l in leaves(t) if l[0] == 'ssel'})
        x.true(r[2] == 1 and r[3] == 0, 'a clone equals its original')
        x.true(r[0] == degree(t) and r[4] == r[0], 'degree'); x.true(r[5] == r[1], 'complexity of a clone')
        x.true(r[6] == int(bool(ss)), 'contains a simple selector')
        if len(ss) < 2: x.true(r[7] == len(ss) and (not ss or r[8] == ss[0]), 'the simple selector')
    p = enc(e)
    c('expr_meta', 'n:u64 p:u64*%d co:F*3 -> r:u64*9' % len(p), post, str(e)[:150], fix={'n': [len(p)], 'p': p}, gen=lambda rng, i: {'co': [rnd(rng) for _ in range(3)]}, n=2, sym=None, bound='this expression')
def ssok(e): return sum(l[0] == 'ssel' for l in leaves(e)) < 2
for e in SHAPES: meta(e)
for _ in range(40):
    e = rtree(rg, 4, ALL)
    if ssok(e): meta(e)
def exeq(a, b):
    def same(x, y):
        if x[0] != y[0]: return False, []
        if x[0] == 'const': return True, [(x[1], y[1])]
        if x[0] in ('neg', 'sum', 'prod', 'scaled'):
            if x[0] == 'scaled': k, l = same(x[1], y[1]); return k, l + [(x[2], y[2])]
            ok, l = True, []
            for u, v in zip(x[1:], y[1:]):
                k, m = same(u, v); ok = ok and k; l += m
            return ok, l
        return x == y, []
    k, l = same(norm(a), norm(b))
    def post(x):
        e = k
        if e:
            for u, v in l:
                if not x.isz(lst(x.a)[u] - lst(x.b)[v]): e = False; break
        w = 5 if e else 2
        x.true(T.eq(x.ret, w) if x.sym else x.ret == w, 'equality of expressions')
    def g(rng, i):
        a = [rnd(rng) for _ in range(3)]; b = list(a)
        if i % 2: b[rng.randrange(3)] = rnd(rng)
        return {'a': a, 'b': b}
    pa, pb = enc(a), enc(b)
    c('expr_eq', 'n:u64 m:u64 p:u64*%d q:u64*%d a:F*3 b:F*3 ->' % (len(pa), len(pb)), post, '%s | %s' % (str(a)[:100], str(b)[:100]), fix={'n': [len(pa)], 'm': [len(pb)], 'p': pa, 'q': pb}, gen=g, n=6, bound='these expressions, all constants')
def tweak(e):
    """change one leaf or operator"""
    op = e[0]
    if op in ('fixed', 'advice', 'inst'): return rg.choice([(op, e[1]+1, e[2], e[3]), (op, e[1], e[2]+1, e[3]), (rg.choice([o for o in ('fixed', 'advice', 'inst') if o != op]),) + e[1:]])
    if op in ('ssel', 'csel'): return rg.choice([(op, e[1]+1), ('ssel' if op == 'csel' else 'csel', e[1])])
    if op == 'chal': return (op, e[1]+1)
    if op == 'const': return ('chal', 0)
    if op in ('neg',): return rg.choice([(op, tweak(e[1])), e[1]])
    if op == 'scaled': return (op, tweak(e[1]), e[2])
    return rg.choice([(op, tweak(e[1]), e[2]), (op, e[1], tweak(e[2])), ('sum' if op == 'prod' else 'prod', e[1], e[2])])
for a in OP1:
    for b in OP1: exeq(a, b)
for e in SHAPES[7:]: exeq(e, norm(e)); exeq(norm(e), tweak(norm(e)))
for _ in range(14): e = rtree(rg, 3, ALL); exeq(e, norm(e)); exeq(norm(e), tweak(norm(e)))
for a, b in ((('scaled', A_, 0), ('scaled', A_, 1)), (('scaled', A_, 0), ('scaled', B_, 0)), (('prod', A_, B_), ('prod', B_, A_)), (('scaled', ('const', 0), 1), ('scaled', ('const', 1), 2))): exeq(a, b)
# ---- identifiers of table expressions: equal only for equal trees (as polynomials); constants on either side of an operator are delimited by it
def ident(a, b):
    def post(x): 
        va, vb = lst(x.a), lst(x.b)
        def sub(t, co): return ('const', int(co[t[1]])) if t[0] == 'const' else tuple(sub(y, co) if isinstance(y, tuple) else y for y in t[:2]) + (int(co[t[2]]),) if t[0] == 'scaled' else tuple(sub(y, co) if isinstance(y, tuple) else y for y in (t[:3] if t[0] in ('fixed', 'advice', 'inst') else ('sel', t[1]) if t[0] in ('ssel', 'csel') else t))
        x.true(x.ret == int(sub(norm(a), va) == sub(norm(b), vb)), 'identifiers agree exactly on equal expressions')
    def g(rng, i):
        a = [rnd(rng) for _ in range(3)]; b = list(a)
        if i % 3 == 2: b[rng.randrange(3)] = rnd(rng)
        return {'a': a, 'b': b}
    pa, pb = enc(a), enc(b)
    c('same_identifier', 'n:u64 m:u64 p:u64*%d q:u64*%d a:F*3 b:F*3 ->' % (len(pa), len(pb)), post, '%s | %s' % (str(a)[:100], str(b)[:100]), fix={'n': [len(pa)], 'm': [len(pb)], 'p': pa, 'q': pb}, gen=g, n=6, sym=False, bound='these expressions, sampled constants')
for a in OP1:
    for b in OP1: ident(a, b)
for e in SHAPES[7:]: ident(e, norm(e)); ident(norm(e), tweak(norm(e)))
for e, f in ((('scaled', A_, 0), ('scaled', B_, 0)), (('scaled', A_, 0), A_), (('scaled', ('sum', A_, B_), 0), ('scaled', ('prod', A_, B_), 0)), (('sum', A_, ('sum', A_, B_)), ('sum', ('sum', A_, A_), B_))): ident(e, f)
for _ in range(14): e = rtree(rg, 3, ALL); ident(e, norm(e)); ident(norm(e), tweak(norm(e)))
# ---- rotations
from tvc.bv import *
def rotsym(k, sc):
    n = 1 << k; rngv = 1 << 20
    def post(x):
        if not x.sym: x.true(x.ret == (x.idx + (x.v if x.v < 2**63 else x.v - 2**64)*sc) % n, 'rotated row'); return
        x.eq(x.ret, (BV(x.idx, 64) + BV(x.v, 64)*sc & n-1).v, 'rotated row')
    def pre(x):
        if x.sym: x.assume((BV(x.idx, 64)).ult(n)); x.assume((BV(x.v, 64) + rngv).ult(2*rngv))
    return c('rot_index', 'v:u64 idx:u64 sc:u64 size:u64 ->', post, 'of %d rows, scale %d' % (n, sc), pre=pre, fix={'sc': [sc], 'size': [n]}, gen=lambda rng, i: {'v': [rng.choice([0, 1, -1, n-1, -n, rng.randrange(-rngv, rngv)]) % 2**64], 'idx': [rng.randrange(n)]}, n=40, handlers=lambda: [], bound='rotations within 2^20')
for k, sc in ((0, 1), (3, 1), (5, 2), (10, 1), (16, 4)): rotsym(k, sc)

# ---- evaluation on the prover's tables and on the verifier's openings
NF = NA = 3; NI = 2; NC = 2
def tleaf(x, idx, rows, sc):
    fx, ad, ii, ch = lst(x.fx), lst(x.ad), lst(x.ii), lst(x.ch)
    def leaf(e):
        if e[0] == 'chal': return ch[e[1]]
        return {'fixed': fx, 'advice': ad, 'inst': ii}[e[0]][e[1]*rows + (idx + e[2]*sc) % rows]
    return leaf
def vleaf(x):
    fx, ad, ii, ch = lst(x.fx), lst(x.ad), lst(x.ii), lst(x.ch)
    def leaf(e):
        if e[0] == 'chal': return ch[e[1]]
        return {'fixed': fx, 'advice': ad, 'inst': ii}[e[0]][e[3]]
    return leaf
def tabs(rows): return 'fx:F*%d ad:F*%d ii:F*%d ch:F*%d' % (NF*rows, NA*rows, NI*rows, NC)
def prove(e, rows, sc, idx):
    t, p = norm(e), enc(e)
    c('prove_eval', 'n:u64 p:u64*%d co:F*3 dim:u64*6 idx:u64 %s -> r:F' % (len(p), tabs(rows)), lambda x: x.eq(x.r, value(t, lst(x.co), tleaf(x, idx, rows, sc))), '%d/%d/%d %s' % (rows, sc, idx, str(e)[:140]),
      fix={'n': [len(p)], 'p': p, 'dim': [rows, NF, NA, NI, NC, sc], 'idx': [idx]}, bound='this expression and row, all values', n=3)
def verify(e):
    t, p = norm(e), enc(e)
    c('verify_eval', 'n:u64 p:u64*%d co:F*3 dim:u64*4 fx:F*4 ad:F*4 ii:F*4 ch:F*2 -> r:F' % len(p), lambda x: x.eq(x.r, value(t, lst(x.co), vleaf(x))), str(e)[:140], fix={'n': [len(p)], 'p': p, 'dim': [4, 4, 4, 2]}, bound='this expression, all values', n=3)
for e in SHAPES + [l for l in NOSEL]:
    if e[0] not in ('ssel', 'csel'): prove(e, 4, 1, 1); prove(e, 4, 1, 0); verify(e)
for k in range(24):
    e = rtree(rg, 4, NOSEL); rows = (4, 8, 8, 1, 2, 16)[k % 6]; sc = (1, 2, 4)[k % 3]
    if k % 2: verify(e)
    prove(e, rows, sc, rg.randrange(rows))
def many(k, d, L=NOSEL): return [rtree(rg, d, L) for _ in range(k)]
def compr(es, rows, sc=1):
    ts, ps = [norm(e) for e in es], [enc(e) for e in es]; p = sum(ps, [])
    def post(x):
        r = lst(x.r); x.true(x.ret == rows, 'size')
        for i in range(rows):
            acc = 0
            for t in ts: acc = acc*x.theta + value(t, lst(x.co), tleaf(x, i, rows, sc))
            x.eq(r[i], acc, 'theta combination')
    c('compress', 'm:u64 len:u64*%d p:u64*%d co:F*3 dim:u64*6 %s theta:F -> r:F*%d' % (max(1, len(es)), max(1, len(p)), tabs(rows), rows), post, '%d %d %s' % (rows, sc, str(es)[:140]), fix={'m': [len(es)], 'len': [len(q) for q in ps] or [0], 'p': p or [0], 'dim': [rows, NF, NA, NI, NC, sc]}, bound='these expressions, all values', n=3)
compr([], 4)
for k in (1, 2, 3, 4): compr(many(k, 2), 4); compr(many(k, 2), 8)
# ---- the graph evaluator computes the same values; constants cover its special cases 0, 1, 2
def graph(es, rows, sc, idx, folder, pin=None):
    ts, ps = [norm(e) for e in es], [enc(e) for e in es]; p = sum(ps, [])
    def post(x):
        s = lst(x.s); acc = s[4]
        for t in ts: acc = acc*s[folder] + value(t, lst(x.co), tleaf(x, idx, rows, sc))
        x.eq(x.r, acc, 'value of the expressions, folded')
    fix = {'m': [len(es)], 'len': [len(q) for q in ps], 'p': p, 'dim': [rows, NF, NA, NI, NC, sc, folder], 'idx': [idx]}
    if pin: fix['co'] = pin
    c('graph', 'm:u64 len:u64*%d p:u64*%d co:F*3 dim:u64*7 idx:u64 %s s:F*5 -> r:F' % (len(es), len(p), tabs(rows)), post, '%d/%d/%d %s %s %s' % (rows, sc, idx, folder, pin, str(es)[:140]), fix=fix, gen=None if pin else lambda rng, i: {'co': [rnd(rng) for _ in range(3)]}, bound='these expressions, all values' + ('' if pin else ' and constants'), n=5)
BIN = [(o, a, b) for o in ('sum', 'prod') for a in (A_, B_, ('const', 0), ('neg', A_), ('neg', ('const', 0))) for b in (A_, B_, ('const', 1), ('neg', B_), ('neg', ('const', 1)))]
for j, e in enumerate(SHAPES + BIN + [('neg', ('neg', A_)), ('neg', ('const', 0)), ('scaled', ('const', 1), 0), ('prod', ('sum', A_, B_), ('sum', B_, A_)), ('sum', ('prod', A_, B_), ('neg', ('prod', B_, A_)))]):
    if not any(l[0] in ('ssel', 'csel') for l in leaves(e)): graph([e], 4, 1, j % 4, j % 4)
PINS = ([0, 1, 2], [1, 0, P-1], [2, 2, 5], [7, 0, 1], [0, 0, 0], [P-2, 2, 1])
for k in range(30): graph(many(1 + k % 3, 3), (4, 8, 1, 2)[k % 4], (1, 2)[k % 2], 0 if k % 4 == 2 else rg.randrange(2), k % 4, PINS[k % len(PINS)])
# ---- substituting selectors: the tree is kept, each selector's value becomes that of its replacement
def repl(e, reps, lookup):
    t = norm(e); ps = [enc(q) for q in reps]; p = enc(e) + sum(ps, [])
    def sub(t): return norm(reps[t[1]]) if t[0] in ('ssel', 'csel') else tuple(sub(y) if isinstance(y, tuple) else y for y in t)
    u = sub(t)
    def post(x): x.eq(x.r, value(u, lst(x.co), vleaf(x))); x.true(x.ret == degree(u), 'degree after substitution')
    c('replace', 'n:u64 m:u64 len:u64*%d p:u64*%d co:F*3 lookup:u64 fx:F*4 ad:F*4 ii:F*4 ch:F*4 -> r:F' % (len(reps), len(p)), post, '%d %s' % (lookup, str(e)[:140]), fix={'n': [len(enc(e))], 'm': [len(reps)], 'len': [len(q) for q in ps], 'p': p, 'lookup': [lookup]}, bound='these expressions, all values', n=3)
REPS = [('fixed', 0, 0, 0), ('prod', ('fixed', 1, 0, 1), ('sum', ('const', 1), ('neg', ('fixed', 1, 0, 1)))), ('const', 2), ('prod', ('fixed', 2, 0, 2), ('const', 0))]
for e in SHAPES: repl(e, REPS, 0)
for k in range(16): e = rtree(rg, 4, ALL if k % 2 else NOSS + [('csel', 2), ('csel', 3), ('csel', 1)]); repl(e, REPS, 1 - k % 2)
# ---- selector compression
def selpost(rows, conflictless=None):
    def post(x):
        m = len(lst(x.bits)); bits, deg, mx = [v % 2**rows for v in lst(x.bits)], lst(x.deg), lst(x.maxdeg)[0]
        r, va = lst(x.r), lst(x.va)
        x.true(x.ret == 1, 'well-formed'); x.true(r[0] == r[1], 'one fixed column per combination')
        for j in range(m):
            x.true(r[2+3*j] == 1, 'each selector assigned once')
            x.true(r[4+3*j] <= max(mx - deg[j] + 1 if deg[j] else 1, 1), 'degree after substitution within the limit')
            for k in range(rows): x.true((int(va[j*rows+k]) != 0) == bool(bits[j] >> k & 1), 'substituted selector is non-zero exactly where the selector is enabled')
        for a in range(m):
            for b in range(a):
                if r[3+3*a] == r[3+3*b]: x.true(not (bits[a] & bits[b]) and deg[a] and deg[b], 'only disjoint selectors share a column')
        x.true(r[0] <= m, 'no more columns than selectors')
    return post
def selc(m, rows):
    def g(rng, i):
        mx = rng.choice([1, 2, 3, 4, 6, 10]); k = i % 4
        if k == 0: bits = [rng.randrange(1 << rows) for _ in range(m)]
        elif k == 1: bits = [1 << rng.randrange(rows) for _ in range(m)]
        elif k == 2:
            own = [rng.randrange(m+1) for _ in range(rows)]; bits = [sum(1 << q for q in range(rows) if own[q] == j) for j in range(m)]
        else: bits = [rng.choice([0, (1 << rows)-1, 1 << rng.randrange(rows), 3 << rng.randrange(max(1, rows-1))]) % (1 << rows) for _ in range(m)]
        deg = [rng.choice([0, 1, min(2, mx), min(3, mx), mx, rng.randrange(mx+1)]) for _ in range(m)]
        return {'bits': bits, 'deg': deg, 'maxdeg': [mx]}
    c('selcompress', 'm:u64 rows:u64 bits:u64*%d deg:u64*%d maxdeg:u64 -> r:u64*%d va:F*%d cmb:F*%d' % (m, m, 3+3*m, m*rows, m*rows), selpost(rows), '%d selectors, %d rows' % (m, rows), fix={'m': [m], 'rows': [rows]}, gen=g, n=60, sym=False, bound='sampled enable patterns, degrees and limits')
for m, rows in ((1, 1), (1, 4), (2, 1), (2, 4), (3, 4), (4, 8), (6, 8), (10, 16), (16, 32)): selc(m, rows)

# ---- whole constraint systems
def sysenc(d):
    r = [d.get('type', 0), d.get('nf', 0), d.get('na', 0), d.get('ni', 0), d.get('nss', 0), d.get('nsc', 0), d.get('nch', 0), d.get('min', 0)]
    def ex(e): p = enc(e); return [len(p)] + p
    eq = d.get('eq', []); r += [len(eq)] + [k << 8 | i for k, i in eq]
    g = d.get('gates', []); r += [len(g)]
    for ps in g:
        r += [len(ps)]
        for e in ps: r += ex(e)
    for key in ('lookups', 'shuffles'):
        l = d.get(key, []); r += [len(l)]
        for pairs in l:
            r += [len(pairs)]
            for a, b in pairs: r += ex(a) + ex(b)
    return r
KIND = {'fixed': 0, 'advice': 1, 'inst': 2}
def queries(d):
    """the distinct (column, rotation) pairs of each kind, in order of first use"""
    q = ([], [], [])
    def add(k, c, rot):
        if (c, rot) not in q[k]: q[k].append((c, rot))
    for k, i in d.get('eq', []): add(k, i, 0)
    for e in [e for g in d.get('gates', []) for e in g] + [e for key in ('lookups', 'shuffles') for l in d.get(key, []) for pr in l for e in pr]:
        for l in leaves(e):
            if l[0] in KIND: add(KIND[l[0]], l[1], l[2])
    return q
def cdeg(es): return max([1] + [degree(norm(e)) for e in es])
def sysdegree(d):
    g = max([0] + [degree(norm(e)) for ps in d.get('gates', []) for e in ps]); mn = d.get('min', 0)
    if d.get('type', 0):
        lk = 1
        if d.get('lookups'):
            one = max(max(3, cdeg([t for _, t in l]) + 2) + cdeg([i for i, _ in l]) for l in d['lookups']); need = max(g, one)
            mn = (1 << (need-1).bit_length()) + 1
        return None if d.get('lookups') else max(3, g, mn, shdeg(d)), mn
    lk = max([1] + [max(4, 2 + cdeg([i for i, _ in l]) + cdeg([t for _, t in l])) for l in d.get('lookups', [])])
    return max(3, lk, shdeg(d), g, mn), mn
def shdeg(d): return max([1] + [2 + max(cdeg([i for i, _ in l]), cdeg([t for _, t in l])) for l in d.get('shuffles', [])])
def numbers(d, k, tag):
    p = sysenc(d)
    def post(x):
        r = lst(x.r)[:x.ret]; dg, mn = sysdegree(d); q = queries(d)
        if dg is not None: x.true(r[0] == dg, 'degree of the system')
        else: x.true(r[0] >= mn, 'degree of the system')
        nq = [sum(1 for c_, _ in q[1] if c_ == j) for j in range(d.get('na', 0))]
        bf = max([3] + nq) + 2
        x.true(r[1] == bf, 'blinding factors'); x.true(r[2] == bf + 3, 'minimum rows'); x.true(r[3] == 2**64 - bf - 1, 'last row')
        ek = max(k, ((r[0]-1)*2**k - 1).bit_length()); x.true(r[4] == ek, 'extended domain')
        ncol = len(dict.fromkeys(d.get('eq', [])))
        x.true(r[5] == r[0] - 2, 'permutation chunk length'); x.true(r[6] == -(-ncol // (r[0]-2)), 'permutation products'); x.true(r[7] == ncol and r[8] == d.get('nss', 0) + d.get('nsc', 0), 'columns and selectors')
        e = []
        for t in q: e += [len(t)] + [v for c_, rot in t for v in (c_, rot + OFF)]
        x.true(r[9:] == e + nq, 'queries: one per distinct cell')
    c('cs_numbers', 'prog:u64*%d co:F*3 k:u64 -> r:u64*120' % len(p), post, tag, h='plonk_cs', fix={'prog': p, 'k': [k]}, n=1, sym=None, bound='this system')
def rsys(rg, typ=0, dmax=3, many=False):
    d = {'type': typ, 'nf': 3, 'na': 3, 'ni': 2, 'nss': 3, 'nsc': 2, 'nch': 2, 'min': rg.choice([0, 0, 3, 5, 9])}
    base = [('const', 0), ('fixed', rg.randrange(3), rg.choice([0, 0, 1, -1])), ('fixed', rg.randrange(3), 0), ('advice', rg.randrange(3), 0), ('advice', rg.randrange(3), rg.choice([1, -1, 2, 0])), ('inst', rg.randrange(2), 0), ('chal', rg.randrange(2))]
    L = base + [('csel', rg.randrange(2))]
    def tr(L, dd): return rtree(rg, dd, L, un=('neg',), sc=('scaled',), bi=('sum', 'prod'))
    d['eq'] = [(k, rg.randrange(3 if k < 2 else 2)) for k in (rg.randrange(3) for _ in range(rg.randrange(7)))]
    d['gates'] = []
    for _ in range(rg.randrange(1, 4)):
        g = []
        for _ in range(rg.randrange(1, 3)):
            e = tr(L, dmax)
            if rg.random() < .7: e = ('prod', ('ssel', rg.randrange(3)), e) if rg.random() < .7 else ('prod', e, ('ssel', rg.randrange(3)))
            g.append(e)
        d['gates'].append(g)
    def pairs(tabs): 
        t = rg.choice(tabs); return [(tr(L, rg.randrange(3)), e) for e in t]
    tabs = [[tr([('fixed', 0, 0), ('fixed', 1, 0), ('fixed', 2, 0), ('csel', 1)], 1) for _ in range(rg.randrange(1, 3))] for _ in range(3)]
    d['lookups'] = [pairs(tabs) for _ in range(rg.randrange(2, 7) if many else rg.randrange(3))]
    d['shuffles'] = [[(tr(L, 2), tr(L, 2)) for _ in range(rg.randrange(1, 3))] for _ in range(rg.randrange(2))]
    return d
numbers({}, 3, 'empty'); numbers({'na': 2}, 4, 'columns only'); numbers({'na': 1, 'gates': [[('sum', ('advice', 0, 0), ('sum', ('advice', 0, 1), ('sum', ('advice', 0, -1), ('advice', 0, 2))))]]}, 4, 'four rotations')
for j in range(40): numbers(rsys(rg, 0), rg.randrange(1, 12), 'system %d' % j)
for j in range(20): numbers(rsys(rg, 1, many=True), rg.randrange(1, 12), 'log-derivative system %d' % j)
# ---- lookups: every input is looked up in its own table, whatever the arguments it is chunked into
def openings(x, d):
    q = queries(d); fx, ad, ii, ch = lst(x.fx), lst(x.ad), lst(x.ii), lst(x.ch)
    def leaf(e): return ch[e[1]] if e[0] == 'chal' else (fx, ad, ii)[KIND[e[0]]][q[KIND[e[0]]].index((e[1], e[2]))]
    return leaf
OA = 'fx:F*64 ad:F*32 ii:F*32 ch:F*4'
def lookups(d, tag):
    p = sysenc(d); tot = sum(len(l)*2 for l in d['lookups']) + 40
    def post(x):
        r = lst(x.r)[:x.ret]; v = lst(x.v); leaf = openings(x, d); co = lst(x.co)
        if d['type'] == 0:
            k, j = 0, 1; x.true(r[0] == len(d['lookups']), 'one argument per lookup')
            for l in d['lookups']:
                ni, npair, rd = r[j:j+3]; j += 3; x.true(ni == 1 and npair == len(l), 'its pairs'); x.true(rd <= r[-1], 'every argument fits the degree of the system')
                for e in [t for _, t in l] + [i for i, _ in l]: x.eq(v[k], value(norm(e), co, leaf), 'lookup expressions in order'); k += 1
            return
        v = [int(a) for a in v]; val = lambda e: int(F0 + value(norm(e), co, leaf))
        want = [(tuple(val(i) for i, _ in l), tuple(val(t) for _, t in l)) for l in d['lookups']]; got = []; j, k = 1, 0
        for a in range(r[0]):
            ni, npair, rd = r[j:j+3]; j += 3
            t = tuple(v[k:k+npair]); k += npair
            x.true(rd <= r[-1], 'every argument fits the degree of the system'); x.true(ni >= 1)
            for _ in range(ni): got.append((tuple(v[k:k+npair]), t)); k += npair
        x.true(sorted(got) == sorted(want), 'each input appears once, against its own table')
    c('cs_lookups', 'prog:u64*%d co:F*3 %s -> r:u64*60 v:F*%d' % (len(p), OA, tot), post, tag, h='plonk_cs', fix={'prog': p}, n=2, sym=d['type'] == 0, bound='this system')
def nosel(d):
    f = lambda e: ('fixed', 0, 0) if e[0] in ('ssel', 'csel') else tuple(f(y) if isinstance(y, tuple) else y for y in e)
    d['lookups'] = [[(f(a), f(b)) for a, b in l] for l in d['lookups']]; return d
for j in range(12): lookups(nosel(rsys(rg, 0, many=True)), 'system %d' % j)
for j in range(40): lookups(nosel(rsys(rg, 1, many=True)), 'log-derivative system %d' % j)
TA, TB = ('fixed', 0, 0), ('fixed', 1, 0)
lookups({'type': 1, 'nf': 3, 'na': 3, 'ni': 2, 'nch': 2, 'lookups': [[(('advice', 0, 0), ('scaled', TA, 0))], [(('advice', 1, 0), ('scaled', TB, 0))], [(('advice', 2, 0), ('scaled', TA, 0))]]}, 'tables that differ below a scale')
# ---- compressing the selectors of a system
def compress(d, rows, tag):
    p = sysenc(d); ns = d['nss'] + d['nsc']
    order = []; s_ = c_ = 0
    while s_ < d['nss'] or c_ < d['nsc']:
        if s_ < d['nss']: order.append(('ssel', s_)); s_ += 1
        if c_ < d['nsc']: order.append(('csel', c_)); c_ += 1
    idx = {k: j for j, k in enumerate(order)}
    exprs = [e for g in d['gates'] for e in g]
    for l in d['lookups']: exprs += [i for i, _ in l] + [t for _, t in l]
    for l in d['shuffles']: exprs += [i for i, _ in l] + [t for _, t in l]
    def post(x):
        x.true(x.ret == 1, 'selector columns'); r = lst(x.r); v = [int(a) for a in lst(x.v)]; raw = list(v); co = lst(x.co); bits = lst(x.bits); lf = openings(x, d); k = 0
        x.true(r[1] == r[2] and r[3] == ns, 'one new fixed column per combination, one entry per selector'); x.true(r[4] <= r[0], 'the degree of the system does not grow'); x.true(d['type'] or r[5] == len(exprs)*rows)
        ng, nl = sum(len(g) for g in d['gates']), sum(2*len(l) for l in d['lookups'])
        for q in range(rows):
            if d['type']:
                per = r[5]//rows; row = raw[q*per:(q+1)*per]; lk = lambda e: int(F0 + value(norm(e), co, lambda l: (bits[idx[l]] >> q & 1) if l[0] in ('ssel', 'csel') else lf(l)))
                mid = row[ng:per-(len(exprs)-ng-nl)]; x.true(set(mid) == {lk(e) for e in exprs[ng:ng+nl]}, 'lookup expressions keep their values')
                v[k:] = row[:ng] + [lk(e) for e in exprs[ng:ng+nl]] + row[per-(len(exprs)-ng-nl):]
            for e in exprs:
                leaf = lambda l: (bits[idx[l]] >> q & 1) if l[0] in ('ssel', 'csel') else lf(l)
                w = int(F0 + value(norm(e), co, leaf))
                if any(l[0] == 'ssel' for l in leaves(e)): x.true((v[k] == 0) == (w == 0), 'a gate vanishes exactly where its selector is off or its constraint holds')
                else: x.true(v[k] == w, 'expressions without a simple selector keep their values')
                k += 1
    def g(rng, i):
        b = [rng.randrange(1 << rows) for _ in range(ns)] if i % 2 else [sum(1 << q for q in range(rows) if rng.randrange(ns) == j) for j in range(ns)]
        if i % 3 == 0:
            own = [rng.randrange(ns+1) for _ in range(rows)]; b = [sum(1 << q for q in range(rows) if own[q] == j) for j in range(ns)]
        return {'bits': b}
    c('cs_compress', 'prog:u64*%d co:F*3 rows:u64 nsel:u64 bits:u64*%d %s -> r:u64*%d v:F*%d' % (len(p), ns, OA, 6+ns, max(1, len(exprs)*rows)), post, tag, h='plonk_cs', fix={'prog': p, 'rows': [rows], 'nsel': [ns]}, gen=g, n=9, sym=False, bound='this system, sampled selector patterns')
for j in range(40):
    d = rsys(rg, j % 2, dmax=2, many=j % 4 == 1); d['min'] = rg.choice([0, 0, 4, 7, 12]); compress(d, rg.choice([4, 8]), 'system %d' % j)
# ---- permutations
def cyc(x, cols, rows, cp):
    N = cols*rows; par = list(range(N))
    def find(a):
        while par[a] != a: a = par[a]
        return a
    for a, b in cp: par[find(a)] = find(b)
    return [find(a) for a in range(N)]
def copies(rng, cols, rows, n):
    r = []
    for _ in range(n): r += [rng.randrange(cols), rng.randrange(rows), rng.randrange(cols), rng.randrange(rows)]
    return r
def cycles(cols, rows, n):
    N = cols*rows
    def post(x):
        v = lst(x.cp); cl = cyc(x, cols, rows, [(v[4*j]*rows + v[4*j+1], v[4*j+2]*rows + v[4*j+3]) for j in range(n)])
        nx, sz, sm, mb = lst(x.next), lst(x.size), lst(x.same), lst(x.members)
        for a in range(N):
            mine = [b for b in range(N) if cl[b] == cl[a]]
            x.true(sz[a] == len(mine), 'cycle size'); x.true([b for b in range(N) if sm[a*N+b]] == mine, 'same cycle exactly when copied together')
            orb = [a]
            while nx[orb[-1]] != a and len(orb) <= N: orb.append(nx[orb[-1]])
            x.true(sorted(orb) == mine, 'the mapping runs through the whole class')
            x.true(mb[a] == sum(1 << 2*b for b in mine), 'labels of a cycle, each once')
    c('cycles', 'cols:u64 rows:u64 n:u64 cp:u64*%d -> next:u64*%d size:u64*%d same:u64*%d members:u64*%d' % (max(1, 4*n), N, N, N*N, N), post, '%dx%d, %d copies' % (cols, rows, n), h='plonk_cs', fix={'cols': [cols], 'rows': [rows], 'n': [n]}, gen=lambda rng, i: {'cp': copies(rng, cols, rows, n) or [0]}, n=25, sym=False, bound='sampled copies')
for a in ((1, 1, 1), (1, 4, 3), (2, 3, 2), (3, 4, 0), (3, 4, 4), (3, 4, 9), (4, 7, 12), (5, 6, 30)): cycles(*a)
OMEGA28 = pow(5, (P-1) >> 28, P); DELTA = pow(7, 1 << 28, P)
def om(x, rows): return None
def unperm(cols, rows):
    def post(x):
        r = [int(v) for v in lst(x.r)]; x.true(x.ret == 1, 'columns')
        w = r[1] if rows > 1 else 1
        x.true(r[0] == 1 and pow(w, rows, P) == 1 and (rows == 1 or pow(w, rows//2, P) == P-1), 'primitive root of unity')
        for a in range(cols):
            for b in range(rows): x.true(r[a*rows+b] == pow(DELTA, a, P)*pow(w, b, P) % P, 'identity permutation label')
        x.true(len(set(r)) == cols*rows, 'labels are distinct')
    c('unpermuted', 'cols:u64 rows:u64 -> r:F*%d' % (cols*rows), post, '%dx%d' % (cols, rows), h='plonk_cs', fix={'cols': [cols], 'rows': [rows]}, n=1, sym=False, bound='this size')
for a in ((1, 1), (1, 8), (3, 4), (7, 16)): unperm(*a)
c('delta', '-> r:F', lambda x: x.eq(x.r, DELTA, 'delta'), '', h='plonk_cs', n=1, sym=False, bound='constant')
def counts(x):
    d, a, b, k = (lst(v)[0] for v in (x.d, x.a, x.b, x.c)); r = lst(x.r)
    x.true(r[0] == d-2, 'chunk length'); x.true(r[1] == (a*(2*b+1) if a and b else 0), 'constraints')
    x.true(r[2] == (a*(3*b-1) + k if a and b else 0), 'openings')
c('perm_counts', 'd:u64 a:u64 b:u64 c:u64 -> r:u64*3', counts, '', h='plonk_cs', gen=lambda rng, i: {'d': [rng.randrange(3, 20)], 'a': [rng.randrange(4)], 'b': [rng.randrange(5)], 'c': [rng.randrange(9)]}, n=60, sym=False, bound='sampled')
def chunks(nc, ch):
    keys = [(rg.randrange(3), rg.randrange(4)) for _ in range(nc)]
    def post(x):
        n = -(-nc // ch); x.true(x.ret == n, 'number of chunks'); r, v = lst(x.r), lst(x.v); t = [lst(x.fx), lst(x.ad), lst(x.ii)]; pm = lst(x.pm); k = 0; dl = 1
        for a in range(n):
            m = min(ch, nc - a*ch); x.true(r[a] == m, 'chunk size')
            for j in range(m):
                kk = keys[a*ch+j]; x.eq(v[3*k], t[kk[0]][kk[1]], 'values of the column'); x.eq(v[3*k+1], pm[k], 'its permutation'); x.eq(v[3*k+2], dl, 'its identity labels'); dl = dl*DELTA % P; k += 1
    c('chunks', 'ncols:u64 keys:u64*%d chunk:u64 fx:F*4 ad:F*4 ii:F*4 pm:F*%d -> r:u64*%d v:F*%d' % (nc, nc, nc, 3*nc), post, '%d columns by %d' % (nc, ch), h='plonk_cs', fix={'ncols': [nc], 'keys': [a << 8 | b for a, b in keys], 'chunk': [ch]}, n=3, sym=False, bound='this number of columns')
for nc, ch in ((1, 1), (1, 3), (2, 1), (3, 2), (4, 2), (5, 2), (6, 3), (7, 3), (9, 4)): chunks(nc, ch)
def assembly(cols, rows, n):
    N = cols*rows
    def post(x):
        v = lst(x.cp); cl = cyc(x, cols, rows, [(v[4*j]*rows + v[4*j+1], v[4*j+2]*rows + v[4*j+3]) for j in range(n)]); r = [int(y) for y in lst(x.r)]
        x.true(x.ret == cols, 'a column is added once')
        w = pow(OMEGA28, 1 << (28 - (rows-1).bit_length()), P); cand = [w]
        lab = {pow(DELTA, a, P)*pow(w, b, P) % P: a*rows+b for a in range(cols) for b in range(rows)}
        x.true(all(y in lab for y in r), 'entries are labels'); nx = [lab[y] for y in r]
        for a in range(N):
            orb = [a]
            while nx[orb[-1]] != a and len(orb) <= N: orb.append(nx[orb[-1]])
            x.true(sorted(orb) == [b for b in range(N) if cl[b] == cl[a]], 'the permutation cycles through exactly the copied cells')
    c('assembly', 'cols:u64 rows:u64 n:u64 cp:u64*%d -> r:F*%d' % (max(1, 4*n), N), post, '%dx%d, %d copies' % (cols, rows, n), h='plonk_cs', fix={'cols': [cols], 'rows': [rows], 'n': [n]}, gen=lambda rng, i: {'cp': copies(rng, cols, rows, n) or [0]}, n=15, sym=False, bound='sampled copies')
for a in ((1, 1, 0), (1, 4, 3), (2, 4, 2), (3, 4, 4), (3, 8, 12), (5, 8, 30)): assembly(*a)
# ---- the verifier: the identities it evaluates at x, and the openings it asks for
S.h('plonk_ver', irflags='-I/verif/harness/irstub', objs=OBJ)
def nosel_all(d):
    f = lambda e: ('fixed', 0, 0) if e[0] in ('ssel', 'csel') else tuple(f(y) if isinstance(y, tuple) else y for y in e)
    d['gates'] = [[f(e) for e in g] for g in d.get('gates', [])]
    for k in ('lookups', 'shuffles'): d[k] = [[(f(a), f(b)) for a, b in l] for l in d.get(k, [])]
    return d
def vopen(x, d):
    q = queries(d); ev = lst(x.ev)
    def leaf(e): return ev[96+e[1]] if e[0] == 'chal' else ev[32*KIND[e[0]] + q[KIND[e[0]]].index((e[1], e[2]))]
    return leaf
def horner(x, es, leaf):
    acc = 0
    for e in es: acc = acc*lst(x.s)[0] + value(norm(e), lst(x.co), leaf)
    return acc
def check_evals(x, want, r, what):
    x.true(x.ret == len(want), 'number of identities')
    for j, (a, t) in enumerate(want): x.eq(r[j], a, '%s %s' % (what, t))
def check_open(x, want, o, n, what='opening'):
    x.true(n == len(want), 'number of openings')
    for j, w in enumerate(want):
        for i, t in enumerate(('commitment', 'point', 'value')): x.eq(o[3*j+i], w[i], '%s: %s' % (what, t))
VA = 'prog:u64*%d co:F*3 ev:F*100 '
LS = 'l:F*3 s:F*7 '
def vc(fn, d, args, outs, post, tag, fix={}, **k):
    p = sysenc(d); c(fn, VA % len(p) + args + ' -> ' + outs, post, tag, h='plonk_ver', fix=dict({'prog': p}, **fix), n=4, bound='this system, all values', **k)
def vperm(d, tag):
    eq = list(dict.fromkeys(d.get('eq', []))); deg = sysdegree(d)[0]; cl = deg - 2; m = -(-len(eq)//cl) if eq else 0; M1 = max(m, 1)
    q = queries(d)
    def post(x):
        s = lst(x.s); beta, gamma, X, xn, xl = s[1], s[2], s[3], s[4], s[6]; f, b, la = lst(x.l); z, zn, zl, zc, sub, sc, ev = (lst(v) for v in (x.z, x.zn, x.zl, x.zc, x.sub, x.sc, x.ev))
        want, op = [], []
        if m:
            want += [(f*(1 - z[0]), 'starts at one'), (la*(z[m-1]*z[m-1] - z[m-1]), 'ends at zero or one')]
            for i in range(1, m): want.append((f*(z[i] - zl[i-1]), 'continues where the previous product ended'))
            for i in range(m):
                L, R = zn[i], z[i]
                for j in range(i*cl, min(len(eq), (i+1)*cl)):
                    k, col = eq[j]; v = ev[32*k + q[k].index((col, 0))]; L = L*(v + beta*sub[j] + gamma); R = R*(v + beta*X*pow(DELTA, j, P) + gamma)
                want.append(((1 - (la + b))*(L - R), 'product over the columns of the chunk'))
            for i in range(m): op += [(zc[i], X, z[i]), (zc[i], xn, zn[i])]
            for i in range(m-2, -1, -1): op.append((zc[i], xl, zl[i]))
        check_evals(x, want, lst(x.r), 'permutation:'); cn = lst(x.cnt); check_open(x, op, lst(x.o), cn[0]); check_open(x, [(sc[j], X, sub[j]) for j in range(len(eq))], lst(x.pk), cn[1], 'opening of the permutation')
    ns = max(1, len(eq))
    vc('ver_perm', d, LS + 'np:u64 ns:u64 z:F*%d zn:F*%d zl:F*%d zc:F*%d sub:F*%d sc:F*%d' % (M1, M1, M1, M1, ns, ns), 'r:F*%d o:F*%d pk:F*%d cnt:u64*2' % (2+2*M1+2, 9*M1+3, 3*ns), post, tag, {'np': [m], 'ns': [len(eq)]})
def vlookup(d, tag):
    n = len(d['lookups']); N = max(1, n)
    def post(x):
        s = lst(x.s); beta, gamma, X, xn, xp = s[1], s[2], s[3], s[4], s[5]; f, b, la = lst(x.l); z, zn, a, ap, t, zc, ac, tc = (lst(v) for v in (x.z, x.zn, x.a, x.ap, x.t, x.zc, x.ac, x.tc)); act = 1 - (la + b); leaf = vopen(x, d); want, op = [], []
        for i, l in enumerate(d['lookups']):
            A, Tb = horner(x, [p[0] for p in l], leaf), horner(x, [p[1] for p in l], leaf)
            want += [(f*(1 - z[i]), 'starts at one'), (la*(z[i]*z[i] - z[i]), 'ends at zero or one'), (act*(zn[i]*(a[i]+beta)*(t[i]+gamma) - z[i]*(A+beta)*(Tb+gamma)), 'product'), (f*(a[i]-t[i]), 'first input is in the table'), (act*(a[i]-t[i])*(a[i]-ap[i]), 'inputs repeat or are in the table')]
            op += [(zc[i], X, z[i]), (ac[i], X, a[i]), (tc[i], X, t[i]), (ac[i], xp, ap[i]), (zc[i], xn, zn[i])]
        check_evals(x, want, lst(x.r), 'lookup:'); check_open(x, op, lst(x.o), lst(x.cnt)[0])
    vc('ver_lookup', d, LS + 'n:u64 ' + ' '.join('%s:F*%d' % (k, N) for k in ('z', 'zn', 'a', 'ap', 't', 'zc', 'ac', 'tc')), 'r:F*%d o:F*%d cnt:u64*1' % (5*N, 15*N), post, tag, {'n': [n]})
def vlogd(d, tag):
    n = min(1, len(d['lookups'])); N = 1
    def fs(x, l, leaf):
        return [horner(x, ins, leaf) + lst(x.s)[1] for ins in l[0]], horner(x, l[1], leaf) + lst(x.s)[1]
    def args():
        """all lookups share a table and fit into one argument (the chunking itself is specified above)"""
        return [([[p[0] for p in l] for l in d['lookups']], [p[1] for p in d['lookups'][0]])] if d['lookups'] else []
    G = args()
    def post(x):
        s = lst(x.s); X, xn = s[3], s[4]; f, b, la = lst(x.l); z, zn, m, zc, mc = (lst(v) for v in (x.z, x.zn, x.m, x.zc, x.mc)); act = 1 - (la + b); leaf = vopen(x, d); want, op = [], []
        for i, l in enumerate(G):
            F_, t = fs(x, l, leaf); num = (zn[i] - z[i])
            # tau prod f (next - cur) - tau prod f (sum 1/f - m/tau), multiplied out
            pf = 1
            for v in F_: pf = pf*v
            rest = 0
            for j in range(len(F_)):
                w = 1
                for k in range(len(F_)):
                    if k != j: w = w*F_[k]
                rest = rest + w
            want += [(f*z[i], 'starts at zero'), (la*z[i], 'ends at zero'), (act*(t*pf*num - (t*rest - m[i]*pf)), 'sum of the inverses')]
            op += [(zc[i], X, z[i]), (zc[i], xn, zn[i]), (mc[i], X, m[i])]
        check_evals(x, want, lst(x.r), 'log-derivative lookup:'); check_open(x, op, lst(x.o), lst(x.cnt)[0])
    def pre(x):
        for l in G:
            F_, t = fs(x, l, vopen(x, d))
            for v in F_ + [t]:
                if x.sym: x.assume_nonzero(v)
                elif v == 0: return False
    vc('ver_logd', d, LS + 'n:u64 ' + ' '.join('%s:F*%d' % (k, N) for k in ('z', 'zn', 'm', 'zc', 'mc')), 'r:F*%d o:F*%d cnt:u64*1' % (3*N, 9*N), post, tag, {'n': [n]}, pre=pre)
def vshuffle(d, tag):
    n = len(d['shuffles']); N = max(1, n)
    def post(x):
        s = lst(x.s); gamma, X, xn = s[2], s[3], s[4]; f, b, la = lst(x.l); z, zn, zc = (lst(v) for v in (x.z, x.zn, x.zc)); act = 1 - (la + b); leaf = vopen(x, d); want, op = [], []
        for i, l in enumerate(d['shuffles']):
            A, Sh = horner(x, [p[0] for p in l], leaf), horner(x, [p[1] for p in l], leaf)
            want += [(f*(1 - z[i]), 'starts at one'), (la*(z[i]*z[i] - z[i]), 'ends at zero or one'), (act*(zn[i]*(Sh+gamma) - z[i]*(A+gamma)), 'product')]
            op += [(zc[i], X, z[i]), (zc[i], xn, zn[i])]
        check_evals(x, want, lst(x.r), 'shuffle:'); check_open(x, op, lst(x.o), lst(x.cnt)[0])
    vc('ver_shuffle', d, LS + 'n:u64 z:F*%d zn:F*%d zc:F*%d' % (N, N, N), 'r:F*%d o:F*%d cnt:u64*1' % (3*N, 6*N), post, tag, {'n': [n]})
def vgates(d, rows, tag):
    q = queries(d); polys = [e for g in d['gates'] for e in g]; w = pow(OMEGA28, 1 << (28 - (rows-1).bit_length()), P)
    def post(x):
        s, ev = lst(x.s), lst(x.ev); leaf = vopen(x, d); cm = [lst(x.fc), lst(x.ac), lst(x.ic)]
        check_evals(x, [(value(norm(e), lst(x.co), leaf), 'polynomial') for e in polys], lst(x.r), 'gate')
        pt = lambda rot: s[3]*pow(w, rot % rows, P)
        ops = lambda k: [(cm[k][col], pt(rot), ev[32*k+j]) for j, (col, rot) in enumerate(q[k])]
        cn = lst(x.cnt); check_open(x, ops(2) + ops(1), lst(x.o), cn[0]); check_open(x, ops(0), lst(x.of), cn[1], 'opening of a fixed column')
    vc('ver_gates', d, 's:F*7 rows:u64 fc:F*8 ac:F*8 ic:F*8', 'r:F*%d o:F*%d of:F*%d cnt:u64*2' % (max(1, len(polys)), 3*max(1, len(q[1])+len(q[2])), 3*max(1, len(q[0]))), post, tag, {'rows': [rows]})
rv = random.Random(181)
vperm({'na': 2}, 'no permutation'); vperm({'na': 1, 'eq': [(1, 0)]}, 'one column'); vlookup({'na': 2, 'lookups': []}, 'none'); vshuffle({'na': 2, 'shuffles': []}, 'none'); vgates({'na': 1, 'nf': 1, 'ni': 1, 'gates': []}, 4, 'none')
for j, k in enumerate((2, 3, 4, 5, 6, 7, 9)): vperm({'nf': 3, 'na': 4, 'ni': 2, 'min': (0, 0, 4, 3, 5, 4, 3)[j], 'eq': rv.sample([(a, b) for a, n in ((0, 3), (1, 4), (2, 2)) for b in range(n)], k), 'gates': [[('prod', ('advice', 0, 0), ('advice', 1, 1))]]}, '%d columns' % k)
for j in range(10): d = nosel_all(rsys(rv, 0, 2)); vperm(d, 'system %d' % j); vgates(d, (4, 8, 16)[j % 3], 'system %d' % j)
for j in range(10):
    d = nosel_all(rsys(rv, 0, 2, many=j % 2 == 1)); d['lookups'] = d['lookups'][:4]
    if d['lookups']: vlookup(d, 'system %d' % j)
    d['shuffles'] += [[(('advice', 0, 0), ('fixed', 1, 0)), (('advice', 1, 1), ('fixed', 0, 0))]]; vshuffle(d, 'system %d' % j)
DEG9 = ('prod', ('prod', ('prod', ('advice', 0, 0), ('advice', 1, 0)), ('prod', ('advice', 0, 0), ('advice', 1, 0))), ('prod', ('prod', ('advice', 0, 0), ('advice', 1, 0)), ('prod', ('advice', 0, 0), ('advice', 1, 0))))
vlogd({'type': 1, 'na': 2, 'lookups': []}, 'none')
for k, w in ((1, 1), (1, 2), (2, 1), (2, 3), (3, 1), (4, 1), (5, 2)):
    tb = [('fixed', j, 0) for j in range(w)]; ins = [('advice', 0, 0), ('advice', 1, 1), ('inst', 0, 0), ('scaled', ('advice', 2, 0), 1), ('sum', ('advice', 2, -1), ('const', 0))]
    for g in ([], [[DEG9]]):
        if g or k == 1: vlogd({'type': 1, 'nf': 3, 'na': 3, 'ni': 1, 'nch': 1, 'gates': g, 'lookups': [[(ins[(i+j) % 5], tb[j]) for j in range(w)] for i in range(k)]}, '%d inputs of %d columns%s' % (k, w, ', high degree' if g else ''))
