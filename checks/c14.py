"""C14: multilinear extensions, sumcheck, multivariate polynomials."""
from itertools import product
from tvc.suite import Suite
from tvc.fe import *
from tvc.engine import Infeasible
S = Suite('C14', 'bounded', assumptions=['prime-field operations satisfy their contracts (check C01)'])
S.h('mle', objs=['tachyon/math/finite_fields/test/_objs/gf7_config/gf7_config.o'], irflags='-I/verif/harness/irstub')
def rnd(rng, p): return rng.choice([0, 1, p-1, rng.randrange(p), rng.randrange(p), rng.randrange(p)])
def lst(v): return list(v) if isinstance(v, (list, tuple)) else [v]
def mev(tab, pt):
    """multilinear extension of the table at the point, from the defining sum"""
    s = 0
    for i, v in enumerate(tab):
        t = v
        for j, x in enumerate(pt): t = t * (x if (i >> j) & 1 else 1 - x)
        s = s + t
    return s
def unis(tab, pt, j):
    """table of the first variables fixed to pt, variable j = 0.. as integers, rest boolean"""
    return None
def fix(tab, pt):
    n = len(tab) >> len(pt)
    r = []
    for h in range(n): r.append(mev([tab[(h << len(pt)) | l] for l in range(1 << len(pt))], pt))
    return r
def field(N, m, sym):
    F = m.name; p = m.p
    def c(fn, args, post, tag='', **k):
        k.setdefault('n', 40); k.setdefault('bound', 'enumerated number of variables and shapes, all values')
        if not sym: k['sym'] = False; k.setdefault('whynot', 'same template as the bn254.Fr instance; run natively')
        elif k.get('sym') is False: k.setdefault('whynot', 'bounded')
        return S.c(('%s %s %s' % (N, fn, tag)).strip(), 'mle', N + '_' + fn, args.replace('F', F), post, **k)
    def put(x, ret, out, want, L):
        x.eq(ret, L, 'number of evaluations')
        for i, o in enumerate(lst(out)): x.eq(o, want[i] if i < L else 0, 'evaluation %d' % i)
    SZ = (0, 1, 2, 4, 8)
    def bin_(n, k):
        cap = max(n, k, 1); sz = 'n:u64 a:F*%d m:u64 b:F*%d cap:u64 -> r:F*%d' % (max(n, 1), max(k, 1), cap)
        fx = dict(n=[n], m=[k], cap=[cap]); L = max(n, k)
        def gen(rng, i):
            z = rng.random()
            return dict(a=[0 if z < .1 else rnd(rng, p) for _ in range(max(n, 1))], b=[0 if z > .95 else rnd(rng, p) for _ in range(max(k, 1))])
        def A(x): return lst(x.a)[:n] or [0]*k
        def B(x): return lst(x.b)[:k] or [0]*n
        for s in ('', 'i'):
            c('add' + s, sz, lambda x: put(x, x.ret, x.r, [u + v for u, v in zip(A(x), B(x))], L), '%d+%d' % (n, k), fix=fx, gen=gen)
            c('sub' + s, sz, lambda x: put(x, x.ret, x.r, [u - v for u, v in zip(A(x), B(x))], L), '%d-%d' % (n, k), fix=fx, gen=gen)
            def mulp(x):
                if not n or not k:
                    for i, o in enumerate(lst(x.r)): x.eq(o, 0, 'zero')
                    return
                put(x, x.ret, x.r, [u * v for u, v in zip(A(x), B(x))], L)
            c('mul' + s, sz, mulp, '%d*%d' % (n, k), fix=fx, gen=gen)
            def divp(x):
                b = lst(x.b)[:k]
                bad = not k or (n and any([x.isz(v) for v in b]))
                if bad: x.eq(x.ret, (1 << 64) - 2, 'refused'); return
                if not n: x.eq(x.ret, 0, 'zero dividend'); return
                x.eq(x.ret, n, 'succeeds')
                for i, (u, v, o) in enumerate(zip(A(x), b, lst(x.r))): x.eq(o * v, u, 'quotient %d' % i)
            if max(n, k) <= 4 or not sym: c('div' + s, sz, divp, '%d/%d' % (n, k), fix=fx, gen=gen)
        def eqp(x):
            a = lst(x.a)[:n]; b = lst(x.b)[:k]
            if n and k: same = all(x.isz(u - v) for u, v in zip(a, b))
            else: same = all(x.isz(u) for u in a + b)
            x.eq(x.ret, 1 if same else 2)
        c('eq', 'n:u64 a:F*%d m:u64 b:F*%d ->' % (max(n, 1), max(k, 1)), eqp, '%d,%d' % (n, k), fix=dict(n=[n], m=[k]), gen=lambda rng, i: (lambda g: dict(g, b=g['a']) if n == k and rng.random() < .5 else dict(g, a=[0]*max(n, 1), b=[0]*max(k, 1)) if rng.random() < .3 else g)(gen(rng, i)))
    for n in SZ:
        if n: bin_(n, n)
        bin_(n, 0); bin_(0, n) if n else None
    def un(n):
        cap = max(n, 1); A = lambda x: lst(x.a)[:n]
        a = 'n:u64 a:F*%d' % cap; fx = dict(n=[n], cap=[cap])
        g = lambda rng, i: dict(a=[v for z in [rng.random()] for v in ([0]*cap if z < .2 else [1]*cap if z < .4 else [rnd(rng, p) for _ in range(cap)])])
        for fn, f in (('neg', lambda v: -v), ('negi', lambda v: -v), ('muls', lambda v: v*v), ('adds', lambda v: v+v), ('subs', lambda v: v - v)):
            c(fn, a + ' cap:u64 -> r:F*%d' % cap, lambda x, f=f: put(x, x.ret, x.r, [f(v) for v in A(x)], n), '%d' % n, fix=fx, gen=g)
        def pred(x):
            z = all(x.isz(v) for v in A(x)); o = n > 0 and all(x.isz(v - 1) for v in A(x))
            x.eq(x.ret, int(z) | int(o) << 1 | (max(n, 1).bit_length() - 1) << 8)
        c('pred', a + ' ->', pred, '%d' % n, fix=dict(n=[n]), gen=g)
        for i in range(min(n + 2, 6)):
            c('at', a + ' i:u64 -> r:F*2', lambda x, i=i: [x.eq(o, A(x)[i] if i < n else 0) for o in x.r], '%d[%d]' % (n, i), fix=dict(n=[n], i=[i]), n=4)
        K = n.bit_length() - 1
        if n:
            c('eval', a + ' k:u64 p:F*%d -> r:F' % max(K, 1), lambda x: x.eq(x.r, mev(A(x), lst(x.p)[:K])), '%d' % n, fix=dict(n=[n], k=[K]))
            for k in range(K + 1):
                def fx_(x, k=k):
                    w = fix(A(x), lst(x.p)[:k])
                    x.eq(x.ret, n >> k, 'size')
                    for j in range(cap): x.eq(lst(x.r)[j], w[j] if j < len(w) else 0, 'value %d' % j); x.eq(lst(x.s)[j], w[j] if j < len(w) else 0, 'in place value %d' % j)
                c('fix', a + ' k:u64 p:F*%d cap:u64 -> r:F*%d s:F*%d' % (max(k, 1), cap, cap), fx_, '%d variables %d' % (n, k), fix=dict(n=[n], k=[k], cap=[cap]))
        else: c('eval', a + ' k:u64 p:F*1 -> r:F', lambda x: x.eq(x.r, 0), '0', fix=dict(n=[0], k=[0]))
    for n in SZ + ((16,) if sym else ()): un(n)
    for d in range(4): c('one', 'd:u64 cap:u64 -> r:F*%d' % (1 << d), lambda x, d=d: put(x, x.ret, x.r, [1]*(1 << d), 1 << d), '%d' % d, fix=dict(d=[d], cap=[1 << d]), n=1)
    # linear combinations and sumcheck; shapes: (variables, tables, terms as index lists)
    def shape(v, k, terms, native=False):
        n = 1 << v; t = len(terms); ix = [i for q in terms for i in q]; D = max((len(q) for q in terms), default=0)
        used = []
        for i in ix:
            if i not in used: used.append(i)
        args = 'v:u64 k:u64 tab:F*%d t:u64 co:F*%d len:u64*%d ix:u64*%d' % (k*n, max(t, 1), max(t, 1), max(len(ix), 1))
        fx = dict(v=[v], k=[k], t=[t], len=[len(q) for q in terms] or [0], ix=ix or [0])
        tag = 'v=%d %s' % (v, terms)
        g = lambda rng, i: {}
        def T(x): q = lst(x.tab); return [q[i*n:(i+1)*n] for i in range(k)]
        kk = dict(fix=fx, n=25)
        if native: kk['sym'] = False
        nz = [q for q in terms if q]
        def comb(x):
            tb = T(x); s = 0
            for co, q in zip(lst(x.co), terms):
                if not q: continue
                for i in range(n):
                    u = co
                    for j in q: u = u * tb[j][i]
                    s = s + u
            x.eq(x.r, s); x.eq(x.ret, D | len(used) << 8 | len(nz) << 16, 'terms and tables')
        c('comb', args + ' -> r:F', comb, tag, **kk)
        def at(x, pt):
            tb = T(x); s = 0
            for co, q in zip(lst(x.co), terms):
                if not q: continue
                u = co
                for j in q: u = u * mev(tb[j], pt)
                s = s + u
            return s
        c('lceval', args + ' p:F*%d -> r:F' % v, lambda x: x.eq(x.r, at(x, lst(x.p))), tag, **kk)
        def prove(x):
            x.eq(x.ret, v * (D + 1), 'messages'); r = lst(x.r)
            tb = T(x); pt = lst(x.p)
            for i in range(v):
                fx = [fix(q, pt[:i]) for q in tb]
                for e in range(D + 1):
                    s = 0
                    fe = [fix(q, [e]) for q in fx]
                    for co, q in zip(lst(x.co), terms):
                        if not q: continue
                        for h in range(1 << (v - i - 1)):
                            u = co
                            for j in q: u = u * fe[j][h]
                            s = s + u
                    x.eq(r[i*(D+1) + e], s, 'round %d at %d' % (i, e))
        if nz: c('prove', args + ' p:F*%d -> r:F*%d' % (v, v*(D+1)), prove, tag, **kk)
        if nz and p > 100: c('full', args + ' ->', lambda x: x.eq(x.ret, 1, 'accepts the honest prover'), tag, fix=fx, n=25, sym=False, whynot='random challenges inside, bounded')
    SH = [(1, 1, [[0]]), (1, 2, [[0, 1], [1]]), (2, 2, [[0], [0, 1]]), (2, 1, [[0, 0]]), (3, 2, [[0, 1]]), (2, 3, [[2, 0, 1], [1], []]), (2, 1, [])]
    for v, k, t in SH: shape(v, k, t, not sym)
    shape(3, 3, [[0, 1, 2], [2, 2]], True); shape(4, 3, [[0, 1, 2, 0], [1]], True); shape(5, 2, [[0, 1], [1]], True); shape(6, 2, [[1, 0, 1], [0, 1]], True)
    def lag(g, r):
        s = 0; d = len(g)
        for i in range(d):
            nu = g[i]; de = 1
            for j in range(d):
                if j != i: nu = nu * (r - j) % p; de = de * (i - j) % p
            s += nu * pow(de, -1, p)
        return s % p
    def ver(v, d):
        # honest transcripts cannot be prepared (the challenges are drawn inside): accept exactly when every round is consistent
        def gen(rng, i):
            g = [rnd(rng, p) for _ in range(v*(d+1))]
            ok = (g[0] + g[1]) % p
            if v > 1 and rng.random() < .8:
                # constant later rounds chained from a constant first round: consistent for every challenge
                a = rng.randrange(p)
                for q in range(v):
                    half = a * pow(2, -1, p) % p
                    g[q*(d+1):(q+1)*(d+1)] = [half]*(d+1); a = half
                ok = (g[0] * 2) % p
                if rng.random() < .4: j = rng.randrange(len(g)); g[j] = (g[j] + 1) % p; ok = (g[0] + g[1]) % p
            return dict(g=g, sum=ok if rng.random() < .85 else (ok + 1) % p)
        def post(x):
            g = lst(x.g); g = [u.v if hasattr(u, 'v') else u for u in g]; pt = [u.v for u in lst(x.pt)]
            e = x.sum.v; good = True
            for q in range(v):
                h = g[q*(d+1):(q+1)*(d+1)]
                if (h[0] + h[1]) % p != e: good = False; break
                e = lag(h, pt[q])
            x.eq(x.ret, int(good), 'accepts exactly consistent transcripts')
            if good: x.eq(x.ex, e, 'expected evaluation')
        if d < p: c('verify', 'v:u64 d:u64 g:F*%d sum:F -> pt:F*%d ex:F' % (v*(d+1), v), post, 'v=%d d=%d' % (v, d), fix=dict(v=[v], d=[d]), gen=gen, sym=False, whynot='random challenges inside, bounded', n=60)
    for v, d in ((1, 1), (1, 2), (1, 5), (2, 1), (2, 3), (3, 2), (4, 4)): ver(v, d)
    def interp(d):
        def post(x):
            if x.sym: raise Infeasible()
            x.eq(x.r, lag([u.v for u in lst(x.a)], x.x.v))
        if d > p: return
        c('interp', 'n:u64 a:F*%d x:F -> r:F' % d, post, '%d points' % d, fix=dict(n=[d]), sym=False, n=60,
          gen=lambda rng, i: dict(a=[rnd(rng, p) for _ in range(d)], x=rng.choice([0, 1, d-1, d, d+1, p-1, rng.randrange(p)]) % p))
        if sym:
            for k in (0, d-1, d, d+1, p-1, 0x123456789abcdef0123456789):
                def posts(x, k=k):
                    a = lst(x.a); s = 0
                    for i in range(d):
                        de = 1
                        nu = 1
                        for j in range(d):
                            if j != i: nu = nu * (k - j) % p; de = de * (i - j) % p
                        s = s + a[i] * (nu * pow(de, -1, p) % p)
                    x.eq(x.r, s)
                c('interp', 'n:u64 a:F*%d x:F -> r:F' % d, posts, '%d points at %#x' % (d, k % p), fix=dict(n=[d], x=[k % p]), n=5)
    for d in (1, 2, 3, 4, 7) + ((20,) if p > 100 else ()): interp(d)
    # ---- multivariate sparse polynomials
    MON = [(0,0,0), (1,0,0), (0,1,0), (0,0,1), (1,1,0), (1,0,1), (0,1,1), (1,1,1), (2,0,1), (1,2,0), (0,0,2), (3,0,0), (0,2,1), (2,1,1), (1,0,2), (0,1,2)]
    def idx(e): return e[0] + 4*e[1] + 16*e[2]
    def dense(ms, cs):
        r = {}
        for e, v in zip(ms, cs): r[idx(e)] = v
        return r
    def nzpre(x):
        for nm in ('a', 'b'):
            if hasattr(x, nm):
                for v in lst(getattr(x, nm)):
                    if x.sym: x.assume_nonzero(v)
                    elif v == 0: return False
    def flat(ms): return [q for e in ms for q in e] or [0, 0, 0]
    def gnz(na, nb=None):
        def g(rng, i):
            r = {'a': [rng.randrange(1, p) for _ in range(max(na, 1))]}
            if nb is not None:
                r['b'] = [rng.randrange(1, p) for _ in range(max(nb, 1))]
                if na == nb and rng.random() < .5: r['b'] = list(r['a']) if rng.random() < .5 else [p - v for v in r['a']]
            return r
        return g
    def mv2(ma, mb):
        na, nb = len(ma), len(mb)
        args = 'n:u64 d:u64*%d a:F*%d m:u64 e:u64*%d b:F*%d' % (3*max(na, 1), max(na, 1), 3*max(nb, 1), max(nb, 1))
        fx = dict(n=[na], d=flat(ma), m=[nb], e=flat(mb)); tag = '%s , %s' % (''.join('%d%d%d ' % e for e in ma), ''.join('%d%d%d ' % e for e in mb))
        kk = dict(fix=fx, pre=nzpre, gen=gnz(na, nb), n=20)
        def pd(x): return dense(ma, lst(x.a)), dense(mb, lst(x.b))
        for s in ('', 'i'):
            for op, f in (('vadd', lambda u, v: u + v), ('vsub', lambda u, v: u - v)):
                def post(x, f=f):
                    A, B = pd(x)
                    for i in range(64): x.eq(x.r[i], f(A.get(i, 0), B.get(i, 0)), 'coefficient of %d%d%d' % (i % 4, i // 4 % 4, i // 16))
                    x.eq(x.ret, 1, 'canonical result: sorted, distinct, non-zero')
                c(op + s, args + ' -> r:F*64', post, tag, **kk)
        def ev(ms, cs, pt):
            s = 0
            for e, v in zip(ms, cs):
                for x_, k in zip(pt, e):
                    for _ in range(k): v = v * x_
                s = s + v
            return s
        def pe(x):
            pt = lst(x.p); A = ev(ma, lst(x.a), pt); B = ev(mb, lst(x.b), pt)
            x.eq(x.r, A + B, 'sum'); x.eq(x.s, A - B, 'difference')
        c('vaddeval', args + ' p:F*3 -> r:F s:F', pe, tag, **kk)
        def eqp(x):
            A, B = pd(x); same = set(A) == set(B) and all(x.isz(A[i] - B[i]) for i in A)
            x.eq(x.ret, 1 if same else 2)
        c('veq', args + ' ->', eqp, tag, **kk)
    def mv1(ma):
        na = len(ma); args = 'n:u64 d:u64*%d a:F*%d' % (3*max(na, 1), max(na, 1)); tag = ''.join('%d%d%d ' % e for e in ma)
        kk = dict(fix=dict(n=[na], d=flat(ma)), pre=nzpre, gen=gnz(na), n=20)
        for s in ('vneg', 'vnegi'):
            def post(x):
                A = dense(ma, lst(x.a))
                for i in range(64): x.eq(x.r[i], -A[i] if i in A else 0)
                x.eq(x.ret, 1, 'canonical')
            c(s, args + ' -> r:F*64', post, tag, **kk)
        def ev(x):
            s = 0
            for e, v in zip(ma, lst(x.a)):
                for x_, k in zip(lst(x.p), e):
                    for _ in range(k): v = v * x_
                s = s + v
            x.eq(x.r, s)
        c('veval', args + ' p:F*3 -> r:F', ev, tag, **kk)
        def pred(x):
            one = na == 1 and sum(ma[0]) == 0 and x.isz(lst(x.a)[0] - 1)
            x.eq(x.ret, int(na == 0) | int(one) << 1 | max([sum(e) for e in ma], default=0) << 8)
        c('vpred', args + ' ->', pred, tag, **kk)
        for q in ((0,0,0), (1,0,1), (0,1,1)) + tuple(ma[:3]):
            def get(x, q=q):
                v = dense(ma, lst(x.a)).get(idx(q), 0)
                x.eq(x.r[0], v); x.eq(x.r[1], v)
            c('vget', args + ' q:u64*3 -> r:F*2', get, tag + 'at %d%d%d' % q, **dict(kk, fix=dict(n=[na], d=flat(ma), q=list(q)), n=5))
    SETS = [[], [(0,0,0)], [(1,0,0)], [(1,0,1), (0,1,1)], [(0,1,1)], [(1,0,1)], [(0,0,0), (1,0,0), (0,1,0)], [(3,0,0), (0,1,0)], [(1,1,1), (1,1,0), (0,0,2)], [(2,0,1), (1,0,1), (0,2,1), (0,0,1)]]
    for s in SETS: mv1(s)
    for a in SETS:
        for b in SETS: mv2(a, b) if sym or (len(a) + len(b)) % 2 else None
import sys
field('fr', FIELDS['bn254.Fr'], True)
field('g7', FIELDS['gf7'], False)
