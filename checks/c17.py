"""C17: rank-one constraint systems: linear combinations, finalisation, satisfaction, matrices, QAP reduction."""
import random
from tvc.suite import Suite
from tvc.fe import *
from tvc import terms as T
S = Suite('C17', 'bounded', assumptions=['prime-field operations satisfy their contracts (check C01)'],
  trusted=['absl::btree_map and std::vector (third-party containers): their code is executed with the code under contract, not specified separately', 'stand-ins for libraries the sandbox lacks: powersort (std::stable_sort), perfetto (tracing macros expand to nothing)'])
S.h('r1cs', irflags='-I/verif/harness/irstub', objs=['tachyon/math/elliptic_curves/bn/bn254/_objs/fr_config/fr_config.o', 'tachyon/math/finite_fields/test/_objs/gf7_config/gf7_config.o'])
def lst(v): return list(v) if isinstance(v, (list, tuple)) else [v]
ZERO, ONE = (0, 0), (1, 0)
def I(i): return (2, i)
def W(i): return (3, i)
def L(i): return (4, i)
def pk(v): return v[0] << 32 | v[1]
# ---- variables: total order by kind then index
from tvc.bv import *
def gv(rng, i):
    t = [rng.randrange(5) for _ in range(2)]
    if i % 2: t[1] = t[0]
    ix = [rng.choice([0, 1, 2, 5, 2**63, 2**64-1]) for _ in range(2)]
    return {'t': t, 'i': [a if k > 1 else 0 for a, k in zip(ix, t)], 'off': [rng.choice([0, 1, 7, 2**32])]}
def variable(x, t=None):
    B = lambda v: BV(v, 64)
    t = t if x.sym else lst(x.t); i = [B(v) for v in lst(x.i)]
    z = [B(0) if k < 2 else v for k, v in zip(t, i)]
    if t[0] == t[1]: eq = b2v(z[0].eq(z[1]), 64); lt = b2v(z[0].ult(z[1]), 64)
    else: eq = B(0); lt = B(int(t[0] < t[1]))
    r = lst(x.r); one = B(1)
    for k, (w, l) in enumerate([(eq, '=='), (one - eq, '!='), (lt, '<'), (lt | eq, '<='), (one - (lt | eq), '>'), (one - lt, '>=')]): x.eq(r[k], w.v, 'variable ' + l)
    k = t[0]; off = x.off if not isinstance(x.off, (list, tuple)) else x.off[0]
    x.eq(r[6], int(k in (1, 2, 3)), 'has an index'); x.eq(r[7], [B(0), B(0), i[0], i[0] + B(off), B(0)][k].v, 'index')
    x.eq(r[8], int(k == 4)); x.eq(r[9], i[0].v if k == 4 else 0); x.eq(r[10], 1 << k, 'kind')
S.c('variable', 'r1cs', 'variable', 't:u64*2 i:u64*2 off:u64 -> r:u64*11', variable, gen=gv, n=300, sym=False, bound='native', handlers=lambda: [])
def vsym(a, b):
    fx = {'t': [a, b]}
    S.c('variable kinds %d %d' % (a, b), 'r1cs', 'variable', 't:u64*2 i:u64*2 off:u64 -> r:u64*11', lambda x: variable(x, [a, b]), gen=lambda rng, i: dict(gv(rng, i), t=[a, b], i=[v if k > 1 else 0 for v, k in zip(gv(rng, 2*i+1)['i'] if rng.random() < .5 else [rng.choice([0, 1, 2**64-1])]*2, (a, b))]), fix=fx, n=20, sym=min(a, b) >= 2, **({} if min(a, b) > 1 else {'bound': 'native'}), handlers=lambda: [])
for a in range(5):
    for b in range(5): vsym(a, b)
# ---- linear combinations
def tadd(m, v, c): m[v] = m[v] + c if v in m else c
def fam(N, fname):
    m = FIELDS[fname]; p = m.p; F = fname; small = p < 1000
    def rnd(rng): return rng.choice([0, 1, p-1, rng.randrange(p), rng.randrange(p)])
    def c(fn, args, post, tag, **k):
        k.setdefault('n', 8)
        return S.c('%s %s %s' % (N, fn, tag), 'r1cs', N + '_' + fn, args.replace(':F', ':' + F), post, **k)
    def lcop(op, A, B):
        n, mm = len(A), len(B)
        def post(x):
            a, b, s = lst(x.a)[:n], lst(x.b)[:mm], x.s; d = {}; NEG = op in (1, 3, 9, 11, 13, 21)
            ded = op in (14, 15, 16, 19)
            for v, k in zip(A, a):
                if op in (4, 5): k = 0 - k
                if op in (6, 7): k = k*s
                tadd(d, v, k)
            if op in (0, 1, 2, 3):
                for v, k in zip(B, b): tadd(d, v, 0 - k if NEG else k)
            if op in (8, 9, 10, 11): tadd(d, B[0], 0 - b[0] if NEG else b[0])
            if op in (12, 13, 20, 21): tadd(d, B[0], -1 if NEG else 1)
            if op == 16:
                for _ in range(2):
                    for v, k in zip(B, b): tadd(d, v, k)
                tadd(d, ONE, s)
            if op == 17: d = {v: k+k for v, k in d.items()}
            if op == 18: d = {v: k-k for v, k in d.items()}
            vs = sorted(d)
            x.true(x.ret == 2*len(vs)+1, 'sorted, one term per variable'); rv, rc = lst(x.rv), lst(x.rc)
            for j, v in enumerate(vs): x.true(rv[j] == pk(v), 'variable'); x.eq(rc[j], d[v])
        c('lcop', 'op:u64 n:u64 m:u64 v:u64*%d w:u64*%d a:F*%d b:F*%d s:F -> rv:u64*%d rc:F*%d' % (max(n, 1), max(mm, 1), max(n, 1), max(mm, 1), n+2*mm+1, n+2*mm+1), post, '%d %s | %s' % (op, A, B),
          fix={'op': [op], 'n': [n], 'm': [mm], 'v': [pk(v) for v in A] or [0], 'w': [pk(v) for v in B] or [0]}, bound='these variables, all coefficients', n=4)
    allv = [ZERO, ONE] + [I(i) for i in range(5)] + [W(i) for i in range(7)] + [L(i) for i in range(5)]
    rg = random.Random(17)
    def pick(k): return sorted(rg.sample(allv, k))
    pats = [([], []), ([ONE], []), ([], [W(0)]), ([ONE], [ONE]), ([W(0)], [I(1)]), ([I(1), W(0)], [I(1), W(0)])] + [(pick(a), pick(b)) for a, b in ((1, 3), (3, 3), (4, 2), (5, 4), (6, 6), (2, 7))]
    for A, B in pats:
        for op in (0, 1, 2, 3): lcop(op, A, B)
    for A, _ in pats:
        for op in (4, 5, 6, 7, 17, 18): lcop(op, A, [])
    # one term into every position, below and above the binary-search threshold
    for n in ((0, 1, 3, 5, 6, 7, 9, 12) if small else (0, 5, 6, 8)):
        A = pick(n)
        for B in (allv if small else rg.sample(allv, 6) + A[:3] + A[-1:]):
            for op in (8, 9, 10, 11, 12, 13, 20, 21): 
                if small or op in (8, 11, 20): lcop(op, A, [B])
    def unsorted(k, dup): 
        v = rg.sample(allv, k) + [rg.choice(allv) for _ in range(dup)]
        rg.shuffle(v); return v
    for k, dup in ((0, 0), (1, 0), (1, 1), (3, 2), (5, 0), (4, 4), (2, 6)):
        A, B = unsorted(k, dup), unsorted(2, 0)
        for op in (14, 15, 19): lcop(op, A, [])
        lcop(16, A, B)
    same = [W(1)]*5
    for op in (14, 15): lcop(op, same, [])
    if small:
        A = unsorted(14, 25)
        lcop(14, A, []); lcop(15, A, []) # long enough for the sort to partition
    def lceq(A, B):
        def post(x):
            e = A == B
            if e:
                for u, w in zip(lst(x.a), lst(x.b)):
                    if not x.isz(u-w): e = False; break
            w = (1 if e else 2) | (4 if A == sorted(A) else 0)
            x.true(T.eq(x.ret, w) if x.sym else x.ret == w, 'equality and sortedness')
        def g(rng, i):
            a = [rnd(rng) for _ in A]; b = list(a) if len(a) == len(B) else [rnd(rng) for _ in B]
            if i % 2 and b: b[rng.randrange(len(b))] = rnd(rng)
            return {'a': a, 'b': b}
        c('lceq', 'n:u64 m:u64 v:u64*%d w:u64*%d a:F*%d b:F*%d ->' % (len(A), len(B), len(A), len(B)), post, '%s | %s' % (A, B), fix={'n': [len(A)], 'm': [len(B)], 'v': [pk(v) for v in A], 'w': [pk(v) for v in B]}, gen=g, bound='these variables, all coefficients')
    for A, B in (([ONE], [ONE]), ([ONE], [ZERO]), ([W(0), W(1)], [W(0), W(1)]), ([W(1), W(0)], [W(1), W(0)]), ([W(0), W(1)], [W(0)]), ([I(0), W(0)], [W(0), W(0)]), ([W(0), W(0)], [W(0), W(0)]), ([I(1), W(1), L(1)], [I(1), W(1), L(2)])): lceq(A, B)
    # ---- systems
    def enc(nI, nW, lcs, cons):
        r = [nI, nW, len(lcs), len(cons)]
        for l in lcs: r += [len(l)] + [pk(v) for v in l]
        for t in cons:
            for l in t: r += [len(l)] + [pk(v) for v in l]
        return r
    def take(lcs, cons, co):
        """symbolic rows: user linear combinations and constraints inlined to {variable: coefficient}"""
        k = 0; user = []; rows = []
        def row(l):
            nonlocal k
            d = {}
            for v in l:
                a = co[k]; k += 1
                if v == ZERO: continue
                if v[0] == 4:
                    for w, q in user[v[1]].items(): tadd(d, w, a*q)
                else: tadd(d, I(0) if v == ONE else v, a)
            return d
        for l in lcs: user.append(row(l))
        for t in cons: rows.append([row(l) for l in t])
        return user, rows
    def val(d, inst, wit):
        s = 0
        for v, q in d.items(): s = s + q*(([1] + inst)[v[1]] if v[0] == 2 else wit[v[1]])
        return s
    def sat(x, rows, inst, wit):
        for a, b, cc in rows:
            if not x.isz(val(a, inst, wit)*val(b, inst, wit) - val(cc, inst, wit)): return False
        return True
    def ncoef(lcs, cons): return sum(map(len, lcs)) + sum(len(l) for t in cons for l in t)
    def satisfy(rng, lcs, cons, co, inst, wit):
        """last coefficient of every third linear combination (on ONE) chosen to satisfy the constraint"""
        k = sum(map(len, lcs))
        for ti, t in enumerate(cons):
            for j, l in enumerate(t):
                k += len(l)
                if j == 2 and l and l[-1] == ONE:
                    co[k-1] = 0; _, rows = take(lcs, cons, co); a, b, cc = rows[ti]
                    co[k-1] = (val(a, inst, wit)*val(b, inst, wit) - val(cc, inst, wit)) % p
    def system(tag, nI, nW, lcs, cons, sym=True, satisfiable=True):
        nc = ncoef(lcs, cons); pr = enc(nI, nW, lcs, cons); cap = 3*(len(cons)+len(lcs))*(1+nI+nW+len(lcs))
        def gen(rng, i):
            co = [rnd(rng) if i % 3 else rng.randrange(1, p) for _ in range(nc)]; inst = [rnd(rng) for _ in range(nI)]; wit = [rnd(rng) for _ in range(nW)]
            if i % 4 != 3: satisfy(rng, lcs, cons, co, inst, wit)
            return {'co': co or [0], 'inst': inst or [0], 'wit': wit or [0]}
        args = 'prog:u64*%d goal:u64 setup:u64 times:u64 cap:u64 co:F*%d inst:F*%d wit:F*%d -> meta:u64*13 mats:F*%d ev:F*%d w2:F*%d' % (len(pr), max(nc, 1), max(nI, 1), max(nW, 1), cap, 2*len(lcs)+1, nW+len(lcs)+1)
        def one(goal, setup, times):
            def post(x):
                co, inst, wit = lst(x.co)[:nc], lst(x.inst)[:nI], lst(x.wit)[:nW]; user, rows = take(lcs, cons, co)
                M, mats, ev, w2 = lst(x.meta), lst(x.mats), lst(x.ev), lst(x.w2)
                x.true(x.ret == 0, 'matrices produced')
                if setup: x.true(M[0] == 0 and M[1] == 0, 'nothing is satisfied during setup')
                else:
                    s = 1 if sat(x, rows, inst, wit) else 0
                    for k, l in ((0, 'before'), (1, 'after')): x.true(M[k] == s, 'IsSatisfied %s finalisation' % l)
                    for i in range(len(lcs)): x.eq(ev[i], val(user[i], inst, wit), 'value of a linear combination'); x.eq(ev[len(lcs)+i], val(user[i], inst, wit), 'assigned value of a linear combination')
                x.true(M[3] == nI+1, 'instance variables'); x.true(M[6] == len(lcs) + 3*len(cons), 'linear combinations'); x.true(M[10] == 1, 'matrices carry the counts'); x.true(M[12] == 1, 'instance assignments')
                x.true(M[11] == (nI+1 if not setup else 1), 'instance assignments kept')
                R, ex = M[2], M[2]-len(cons); cols = nI+1+nW+ex
                x.true(0 <= ex <= len(lcs) and (goal == 1 or ex == 0), 'added constraints'); x.true(M[4] == nW+ex, 'one witness variable per added constraint'); x.true(M[5] == (0 if setup else nW+ex), 'witness assignments')
                if not 0 <= ex <= len(lcs): return
                A, B, C = ([mats[k*R*cols + i*cols:k*R*cols + (i+1)*cols] for i in range(R)] for k in range(3))
                # added constraints define the added witnesses: row * 1 = witness
                sub = []
                for e in range(ex):
                    for j in range(cols):
                        x.eq(B[len(cons)+e][j], 1 if j == 0 else 0, 'added constraint: second row is one'); x.eq(C[len(cons)+e][j], 1 if j == nI+1+nW+e else 0, 'added constraint: third row is the new witness')
                    a = A[len(cons)+e]; d = a[:nI+1+nW]
                    for f in range(e): d = [u + a[nI+1+nW+f]*q for u, q in zip(d, sub[f])]
                    for f in range(e, ex): x.eq(a[nI+1+nW+f], 0, 'new witnesses depend on earlier ones only')
                    sub.append(d)
                def dense(d): r = [0]*(nI+1+nW); [r.__setitem__(v[1] if v[0] == 2 else nI+1+v[1], q) for v, q in d.items()]; return r
                for i, t in enumerate(rows):
                    for Mx, want, l in zip((A, B, C), t, 'ABC'):
                        g = Mx[i][:nI+1+nW]
                        for f in range(ex): g = [u + Mx[i][nI+1+nW+f]*q for u, q in zip(g, sub[f])]
                        for u, w in zip(g, dense(want)): x.eq(u, w, 'row of %s' % l)
                if not setup:
                    for i in range(nW): x.eq(w2[i], wit[i], 'given witness kept')
                    for e in range(ex):
                        s = 0
                        for u, w in zip(sub[e], [1] + inst + wit): s = s + u*w
                        x.eq(w2[nW+e], s, 'added witness has the value of its definition')
                if goal == 0:
                    for k, l in enumerate('ABC'):
                        n = 0
                        for t in rows: n += sum(0 if x.isz(q) else 1 for q in [t[k][v] for v in sorted(t[k])])
                        if all(ONE not in q or I(0) not in q for t in cons for q in t) and not any(v == I(0) for q in lcs for v in q): x.true(M[7+k] == n, 'non-zeros of %s' % l)
            pre = None
            if sym:
                def pre(x):
                    if x.sym:
                        for v in lst(x.co)[:nc]: x.assume_nonzero(v)
                    return True
            c('system', args, post, '%s goal %d%s times %d' % (tag, goal, ' setup' if setup else '', times), fix={'prog': pr, 'goal': [goal], 'setup': [setup], 'times': [times], 'cap': [cap]}, gen=gen, n=16 if not setup else 4, sym=None if sym else False, pre=pre, bound='this circuit, all coefficients%s and assignments' % (' other than zero' if sym else ''))
            if not sym and times == 1:
                rc = random.Random(len(pr)*7 + goal*2 + setup)
                c('system', args, post, '%s goal %d%s fixed coefficients' % (tag, goal, ' setup' if setup else ''), fix={'prog': pr, 'goal': [goal], 'setup': [setup], 'times': [times], 'cap': [cap], 'co': [rc.randrange(1, p) for _ in range(nc)] or [0]}, nat=False, bound='this circuit, these coefficients, all assignments')
        for goal in (0, 1):
            for setup in (0, 1): one(goal, setup, 1)
        one(0, 0, 2); one(1, 0, 2)
        def values(x):
            co, inst, wit = lst(x.co)[:nc], lst(x.inst)[:nI], lst(x.wit)[:nW]; user, _ = take(lcs, cons, co)
            x.true(x.ret == 2*len(lcs), 'no matrices unless requested')
            for i in range(len(lcs)): x.eq(lst(x.ev)[i], val(user[i], inst, wit), 'assigned value')
        for g in (0, 1): c('values', 'prog:u64*%d goal:u64 co:F*%d inst:F*%d wit:F*%d -> ev:F*%d' % (len(pr), max(nc, 1), max(nI, 1), max(nW, 1), len(lcs)+1), values, '%s goal %d' % (tag, g), fix={'prog': pr, 'goal': [g]}, gen=gen, n=6, sym=False, bound='this circuit')
    w = [W(i) for i in range(8)]
    system('mul', 1, 2, [], [([w[0]], [w[1]], [I(1)])])
    system('empty', 0, 0, [], [], sym=not small)
    system('one', 0, 1, [], [([w[0]], [ONE], [w[0], ONE])])
    system('zero var', 1, 1, [], [([ZERO, w[0]], [ONE], [I(1), ZERO, ONE])])
    system('lc', 1, 2, [[w[0], w[1]]], [([L(0)], [w[0]], [I(1), ONE])])
    system('lc chain', 1, 3, [[w[0], w[1]], [L(0), w[2]], [L(1), L(0)]], [([L(2)], [L(1)], [I(1), ONE]), ([L(0), ONE], [L(2), I(1)], [w[2], ONE])], sym=False)
    five = [w[i] for i in range(5)]
    system('outline', 1, 5, [five], [([L(0)], [w[0]], [I(1), ONE]), ([L(0), w[1]], [L(0)], [w[2], ONE])], sym=False)
    system('outline chain', 2, 6, [five, [L(0), w[5], I(1), I(2), ONE], [L(1), L(0), w[0], w[2]]], [([L(1)], [L(0)], [I(1), ONE]), ([L(2)], [L(1)], [w[2], ONE]), ([L(2), I(2)], [L(2), L(0)], [ONE])], sym=False)
    system('boundary', 1, 6, [five[:4], five[:3], five + [w[5]], [L(1), I(1)]], [([L(0)], [L(0)], [ONE]), ([L(1)], [L(1), L(3)], [L(3), ONE]), ([L(2)], [ONE], [w[0], ONE]), ([L(0)], [L(2)], [L(1), ONE])], sym=False)
    system('unused', 0, 2, [[w[0], w[1]], [w[0]], []], [([w[0]], [w[1]], [ONE])], sym=False)
    system('repeated', 1, 2, [[w[0], w[0], w[1]], [L(0), L(0)]], [([L(1), L(0), L(1)], [w[0], w[0]], [I(1), ONE])], sym=False)
    system('instances', 3, 2, [[I(1), I(2)]], [([I(1)], [I(2)], [I(3), ONE]), ([L(0)], [I(3), ONE], [w[0], ONE]), ([], [w[1]], [])], sym=False)
    rg2 = random.Random(5)
    for k in range(6):
        nI, nW, nl, ncn = rg2.randrange(3), rg2.randrange(1, 6), rg2.randrange(5), rg2.randrange(1, 5)
        vs = [ONE] + [I(i+1) for i in range(nI)] + [W(i) for i in range(nW)]
        lcs = [rg2.sample(vs + [L(j) for j in range(i)]*2, rg2.randrange(0, len(vs))) for i in range(nl)]
        cons = [([rg2.choice(vs + [L(j) for j in range(nl)]*3) for _ in range(rg2.randrange(1, 4))], [rg2.choice(vs + [L(j) for j in range(nl)]*3) for _ in range(rg2.randrange(1, 4))], [rg2.choice(vs) for _ in range(rg2.randrange(0, 3))] + [ONE]) for _ in range(ncn)]
        system('random %d' % k, nI, nW, lcs, cons, sym=False)
    return enc, take, val, satisfy, ncoef, rnd, W, c, p
fam('g7', 'gf7')
enc, take, val, satisfy, ncoef, rnd, W, c, p = fam('fr', 'bn254.Fr')
# ---- QAP over BN254 Fr
def toint(v): return v if isinstance(v, int) else v.v if hasattr(v, 'v') else v.const()
def pmul(a, b):
    r = [0]*(len(a)+len(b)-1)
    for i, u in enumerate(a):
        for j, w in enumerate(b): r[i+j] = r[i+j] + u*w
    return r
def qap(tag, nI, nW, lcs, cons, size):
    nc = ncoef(lcs, cons); pr = enc(nI, nW, lcs, cons); V = 1+nI+nW; n = len(cons)
    N = 1
    while N < size: N *= 2
    def gen(rng, i):
        co = [rnd(rng) if i % 3 else rng.randrange(1, p) for _ in range(nc)]; inst = [rnd(rng) for _ in range(nI)]; wit = [rnd(rng) for _ in range(nW)]
        satisfy(rng, lcs, cons, co, inst, wit)
        return {'co': co, 'inst': inst or [0], 'wit': wit or [0], 'x': [rnd(rng) if i % 2 else pow(5, (p-1)//N*rng.randrange(N), p)]}
    def post(x):
        co, inst, wit = lst(x.co)[:nc], lst(x.inst)[:nI], lst(x.wit)[:nW]; _, rows = take(lcs, cons, co); M = lst(x.meta); h = lst(x.h); abc = lst(x.abc)
        x.true(x.ret == 0, 'vectors of one size')
        for k, (w, l) in enumerate([(V, 'length'), (n, 'constraints'), (nI+1, 'instance variables'), (nW, 'witness variables'), (V-1, 'QAP variables'), (N, 'domain size')]): x.true(M[k] == w, l)
        g = toint(h[N+1]); xx = x.x if not isinstance(x.x, (list, tuple)) else x.x[0]
        pts = [pow(g, j, p) for j in range(N)]; ni = pow(N, -1, p)
        # Lagrange basis as coefficient vectors: l_j = (1/N) sum_k w^{-jk} X^k
        lag = []
        xp = [1]
        for _ in range(N-1): xp.append(xp[-1]*xx)
        for j in range(N):
            s = 0
            for k in range(N): s = s + xp[k]*(ni*pow(pts[j], -k, p) % p)
            lag.append(s)
        want = [[0]*V for _ in range(3)]
        ci = lambda v: v[1] if v[0] == 2 else nI+1+v[1]
        for j, t in enumerate(rows):
            for k in range(3):
                for v, q in t[k].items(): want[k][ci(v)] = want[k][ci(v)] + q*lag[j]
        for i in range(nI+1): want[0][i] = want[0][i] + lag[n+i]
        for k in range(3):
            for i in range(V): x.eq(abc[k*V+i], want[k][i], 'instance polynomial %s at x' % 'ABC'[k])
        x.eq(h[N], xp[N-1]*xx - 1, 'vanishing polynomial at x')
        z = [1] + inst + wit; full = lst(x.full)
        x.true(M[8] == V, 'full assignment'); [x.eq(u, w, 'full assignment') for u, w in zip(full, z)]
        # witness polynomials from their values, then A B - C = h t
        ev = [[val(t[k], inst, wit) for t in rows] + [0]*(N-n) for k in range(3)]
        for i in range(nI+1): ev[0][n+i] = z[i]
        po = []
        for k in range(3):
            q = []
            for d in range(N):
                s = 0
                for j in range(N): s = s + ev[k][j]*(ni*pow(pts[j], -d, p) % p)
                q.append(s)
            po.append(q)
        x.true(M[7] <= N, 'degree of h'); hh = h[:min(M[7], N)]
        l = pmul(po[0], po[1]); l = [u - w for u, w in zip(l, po[2] + [0]*len(l))] + [0]*2
        r = [0]*(2*N+2)
        for i, u in enumerate(hh): r[i+N] = r[i+N] + u; r[i] = r[i] - u
        for i in range(2*N-1): x.eq(l[i], r[i], 'A B - C = h t')
        x.true(M[6] == 1, 'satisfied')
    for goal in (0,):
        c('qap', 'prog:u64*%d size:u64 goal:u64 co:F*%d inst:F*%d wit:F*%d x:F -> abc:F*%d h:F*%d full:F*%d meta:u64*9' % (len(pr), max(nc, 1), max(nI, 1), max(nW, 1), 3*V, N+2, V), post, '%s in %d' % (tag, size), fix={'prog': pr, 'size': [size], 'goal': [goal]}, gen=gen, n=6, sym=False, bound='this circuit, domain of %d' % N)
        rc = random.Random(len(pr)); co = [rc.randrange(1, p) for _ in range(nc)]
        def rel(x, co=co):
            inst, wit = lst(x.inst)[:nI], lst(x.wit)[:nW]; _, rows = take(lcs, cons, co)
            if x.sym:
                for a, b, cc in rows: x.assume_zero(val(a, inst, wit)*val(b, inst, wit) - val(cc, inst, wit))
        def off(x):
            if x.sym and N > 4:
                w = x.x if not isinstance(x.x, (list, tuple)) else x.x[0]; q = w
                for _ in range(N-1): q = q*w
                x.assume_nonzero(q - 1)
            return True
        if tag != 'mul':
            if N > 16: continue
            v = gen(rc, 1); c('qap', 'prog:u64*%d size:u64 goal:u64 co:F*%d inst:F*%d wit:F*%d x:F -> abc:F*%d h:F*%d full:F*%d meta:u64*9' % (len(pr), max(nc, 1), max(nI, 1), max(nW, 1), 3*V, N+2, V), post, '%s in %d every point' % (tag, size), fix={'prog': pr, 'size': [size], 'goal': [goal], 'co': v['co'], 'inst': v['inst'], 'wit': v['wit']}, pre=off, nat=False, bound='this circuit and satisfying assignment, every evaluation point%s, domain of %d' % (' outside the domain' if N > 4 else '', N))
        elif N == 4: c('qap', 'prog:u64*%d size:u64 goal:u64 co:F*%d inst:F*%d wit:F*%d x:F -> abc:F*%d h:F*%d full:F*%d meta:u64*9' % (len(pr), max(nc, 1), max(nI, 1), max(nW, 1), 3*V, N+2, V), post, '%s in %d fixed coefficients' % (tag, size), fix={'prog': pr, 'size': [size], 'goal': [goal], 'co': co}, pre=rel, nat=False, bound='this circuit, these coefficients, every satisfying assignment and evaluation point, domain of %d' % N)
w = [W(i) for i in range(8)]
for sz in (3, 4, 8): qap('mul', 1, 2, [], [([w[0]], [w[1]], [I(1), ONE])], sz)
qap('two', 2, 3, [[w[0], w[1]]], [([L(0), ONE], [w[1]], [I(1), ONE]), ([L(0)], [w[2], I(2)], [w[0], ONE])], 5)
qap('no instance', 0, 2, [], [([w[0], w[1]], [w[1]], [ONE]), ([w[0]], [ONE], [w[1], ONE]), ([w[0]], [w[0]], [ONE])], 4)
qap('full', 3, 3, [[w[0], w[2]]], [([L(0), I(i % 3 + 1)], [w[i % 3], ONE], [L(0), w[1], ONE]) for i in range(4)], 8)
qap('larger', 4, 6, [[w[0], w[2], w[5]], [L(0), I(4)]], [([L(i % 2), I(i % 4 + 1)], [w[i % 6], L(1)], [L(0), w[(i+1) % 6], ONE]) for i in range(11)], 16)
qap('larger', 4, 6, [[w[0], w[2], w[5]], [L(0), I(4)]], [([L(i % 2), I(i % 4 + 1)], [w[i % 6], L(1)], [L(0), w[(i+1) % 6], ONE]) for i in range(11)], 32)
for n in (1, 2, 3, 4, 8, 16, 64, 256):
    N = 1
    while N < n: N *= 2
    def hq(x, N=N):
        x.true(x.ret == N-1, 'length'); r = lst(x.r); v = x.t*x.d
        for i in range(N-1): x.eq(r[i], v, 'x^i t / delta'); v = v*x.x
    S.c('fr hq %d' % n, 'r1cs', 'fr_hq', 'size:u64 t:bn254.Fr x:bn254.Fr d:bn254.Fr -> r:bn254.Fr*%d' % N, hq, fix={'size': [n]}, n=6, sym=None if n <= 16 else False, bound='domain of %d' % N)
