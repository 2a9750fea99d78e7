"""C13: univariate polynomials: ring operations, division, evaluation, interpolation, evaluations."""
from tvc.suite import Suite
from tvc.fe import *
from tvc.engine import Infeasible
S = Suite('C13', 'bounded', assumptions=['prime-field operations satisfy their contracts (check C01)'],
  trusted=['stand-in for the powersort library (std::stable_sort), which is not present in the sandbox'])
S.h('upoly')
NONE = (1 << 64) - 2
def rnd(rng, p): return rng.choice([0, 0, 1, p-1, rng.randrange(p), rng.randrange(p), rng.randrange(p)])
def trim(x, c):
    c = list(c)
    while c and x.isz(c[-1]): c.pop()
    return c
def padd(a, b, s=1):
    n = max(len(a), len(b)); r = []
    for i in range(n):
        u = a[i] if i < len(a) else 0; v = b[i] if i < len(b) else 0
        r.append(u + v if s == 1 else (u - v if not (isinstance(u, int) and u == 0) else (0 if isinstance(v, int) else -v)))
    return r
def pmul(a, b):
    if not a or not b: return []
    r = [0]*(len(a)+len(b)-1)
    for i, u in enumerate(a):
        for j, v in enumerate(b):
            if (isinstance(u, int) and u == 0) or (isinstance(v, int) and v == 0): continue
            t = u*v
            r[i+j] = t if isinstance(r[i+j], int) else r[i+j] + t
    return r
def pev(a, k):
    s = 0
    for u in reversed(a): s = s*k + u if not (isinstance(s, int) and s == 0) else u
    return s
def chk(x, ret, out, want, what='', shift=0):
    """out: padded coefficients; canonical representation: length = degree + 1"""
    ret = (ret >> shift) & 0xffffffff if shift or True else ret
    for i, o in enumerate(out): x.eq(o, want[i] if i < len(want) else 0, '%scoefficient %d' % (what, i))
    for i in range(len(out), len(want)): x.eq(want[i], 0, '%sdegree too large' % what)
    L = (ret & 0x7fffffff) >> 1
    x.eq(ret & 1, 1, '%sno zero leading / stored coefficient' % what)
    x.true(L <= len(out), '%slength' % what)
    if 0 < L <= len(out): x.true(not x.isz(out[L-1]), '%sleading coefficient non-zero' % what)
    for i in range(L, len(out)): x.eq(out[i], 0, '%slength covers every coefficient' % what)
def lst(v): return list(v) if isinstance(v, (list, tuple)) else [v]
def sparse(degs, c):
    r = [0]*(max(degs)+1 if degs else 0)
    for d, v in zip(degs, c): r[d] = v
    return r
def zd(c, fn, args, post, a, fix, kd):
    """remainders: the zero dividend has a contract of its own (known finding: 0 mod b gives b)"""
    n = fix['n'][0]
    if not n:
        c(fn, args, post, fix=fix, **dict(kd, tag='zero dividend ' + kd['tag'])); return
    def nzero(x):
        v = lst(x.a)[:n]
        if x.sym:
            if all([x.isz(u) for u in v]): raise Infeasible()
        else: return any(u != 0 for u in v)
    c(fn, args, post, pre=nzero, fix=fix, **kd)
    g = kd['gen']
    c(fn, args, post, fix=dict(fix, a=[0]*n), **dict(kd, gen=lambda rng, i: {k: v for k, v in g(rng, i).items() if k != 'a'}, tag='zero dividend ' + kd['tag']))
def field(N, m, sym):
    F = m.name; p = m.p
    def c(fn, args, post, tag='', **k):
        k.setdefault('n', 40); k.setdefault('sym', sym)
        if not sym: k['sym'] = False
        return S.c(('%s %s %s' % (N, fn, tag)).strip(), 'upoly', N + '_' + fn, args.replace('F', F), post, **k)
    DEG = {0: [], 1: [2], 2: [0, 3], 3: [1, 2, 5]}
    def dense(name, n):
        return dict(args='%s:u64 %s:F*%d' % ({'a': 'n', 'b': 'm'}[name], name, max(n, 1)), fix={{'a': 'n', 'b': 'm'}[name]: [n]}, co=lambda x: lst(getattr(x, name))[:n], size=n)
    def spars(name, degs):
        n = len(degs); q, d = {'a': ('n', 'd'), 'b': ('m', 'e')}[name]
        return dict(args='%s:u64 %s:u64*%d %s:F*%d' % (q, d, max(n, 1), name, max(n, 1)), fix={q: [n], d: list(degs) or [0]}, co=lambda x: sparse(degs, lst(getattr(x, name))[:n]), size=(max(degs)+1 if degs else 0))
    def g(rng, i):
        """dense/sparse coefficient vectors with zero runs; leading coefficients of b mostly non-zero"""
        return {}
    def gen(ns):
        def h(rng, i):
            r = {}
            for q, n in ns.items():
                v = [rnd(rng, p) for _ in range(max(n, 1))]
                t = rng.randrange(6)
                if t == 0: v = [0]*max(n, 1)
                if t == 1: v = [1] + [0]*(max(n, 1)-1)
                if t == 2 and n: v[-1] = rng.randrange(1, p)
                if t == 3: v = [rng.choice([1, p-1]) for _ in v]
                r[q] = v
            if len(ns) == 2 and rng.randrange(4) == 0 and len(r['a']) == len(r['b']):    # cancellation
                s = rng.choice([1, p-1]); k = rng.randrange(len(r['a'])+1)
                r['b'] = r['b'][:k] + [v*s % p for v in r['a'][k:]]
            return r
        return h
    SZ = [(0, 0), (0, 2), (2, 0), (1, 1), (1, 3), (3, 1), (2, 2), (3, 2), (2, 3)] if sym else [(0, 0), (0, 3), (3, 0), (2, 2)]
    BIG = [(5, 5), (9, 4), (4, 9), (17, 16)]
    def ops(A, B, mk1, mk2, sizes, big):
        for (s1, s2) in sizes + big: ops1(A, B, mk1, mk2, s1, s2, (s1, s2) in big)
    def ops1(A, B, mk1, mk2, s1, s2, isb):
            pass
            a = mk1('a', s1); b = mk2('b', s2); n = max(a['size'], b['size'], 1); w = a['size'] + b['size'] + 1
            fx = dict(a['fix'], **b['fix'])
            gg = gen({'a': len(a['fix'].get('d', [])) if 'd' in a['fix'] and a['fix']['n'][0] else a['fix']['n'][0], 'b': b['fix']['m'][0]})
            tg = '%s,%s' % (s1, s2); kw = dict(gen=gg, bound='coefficient vectors %s' % tg, tag=tg, n=(40 if not isb else 12) if sym else 12)
            if isb: kw['sym'] = False
            def post(f, w, sh=0):
                return lambda x: chk(x, x.ret, x.r, trim(x, f(a['co'](x), b['co'](x))))
            for suf in ([''] if A + B == 'sd' else ['', 'i']):
                for nm, f, cap in (('add', lambda u, v: padd(u, v), n), ('sub', lambda u, v: padd(u, v, -1), n), ('mul', pmul, w)):
                    c(nm + suf + A + B, '%s %s cap:u64 -> r:F*%d' % (a['args'], b['args'], cap), post(f, cap), fix=dict(fx, cap=[cap]), **kw)
            def dq(x, q=None, r=None):
                u = trim(x, a['co'](x)); v = trim(x, b['co'](x))
                return u, v
            def posq(x):
                u, v = dq(x)
                if not v: x.eq(x.ret, NONE, 'division by zero is refused'); return
                if x.ret == NONE: x.true(False, 'succeeds'); return
                L = chk_div(x, u, v, x.r, None, x.ret)
            def posr(x):
                u, v = dq(x)
                if not v: x.eq(x.ret, NONE, 'division by zero is refused'); return
                if x.ret == NONE: x.true(False, 'succeeds'); return
                chk_div(x, u, v, None, x.r, x.ret)
            def posdm(x):
                u, v = dq(x)
                if not v: x.eq(x.ret, NONE, 'division by zero is refused'); return
                if x.ret == NONE: x.true(False, 'succeeds'); return
                q, r = x.r, x.s
                chk_canon(x, q, x.ret & 0xffffffff, 'quotient: '); chk_canon(x, r, x.ret >> 32, 'remainder: ')
                for i in range(len(v)-1, len(r)): x.eq(r[i], 0, 'remainder degree below the divisor')
                pr = padd(pmul(lst(q), v), lst(r))
                for i in range(max(len(u), len(pr))): x.eq((pr[i] if i < len(pr) else 0), (u[i] if i < len(u) else 0), 'a = q*b + r [%d]' % i)
            kd = dict(kw, timeout=100)
            if s1 and s2 and sym and max(a['size'], 1) > 3 and b['size'] > 1: kd['sym'] = False
            for suf in ([''] if A == 's' else ['', 'i']):
                c('div' + suf + A + B, '%s %s cap:u64 -> r:F*%d' % (a['args'], b['args'], n), posq, fix=dict(fx, cap=[n]), **kd)
                zd(c, 'mod' + suf + A + B, '%s %s cap:u64 -> r:F*%d' % (a['args'], b['args'], n), posr, a, dict(fx, cap=[n]), kd)
            zd(c, 'dm' + A + B, '%s %s cap:u64 -> r:F*%d s:F*%d' % (a['args'], b['args'], n, n), posdm, a, dict(fx, cap=[n]), kd)
    def chk_canon(x, out, ret, what):
        L = (ret & 0x7fffffff) >> 1
        x.eq(ret & 1, 1, what + 'clean'); x.true(L <= len(out), what + 'length')
        if 0 < L <= len(out): x.true(not x.isz(out[L-1]), what + 'leading coefficient non-zero')
        for i in range(L, len(out)): x.eq(out[i], 0, what + 'length')
    def longdiv(x, u, v):
        u = list(u); q = [0]*max(0, len(u)-len(v)+1); li = x.inv(v[-1])
        for k in range(len(u)-len(v), -1, -1):
            t = u[k+len(v)-1]
            if isinstance(t, int) and t == 0: continue
            q[k] = t*li
            for i, d in enumerate(v):
                if isinstance(d, int) and d == 0: continue
                u[k+i] = u[k+i] - q[k]*d
        return q, u[:len(v)-1]
    def chk_div(x, u, v, q, r, ret):
        Q, R = longdiv(x, u, v)
        out, want = (q, Q) if q is not None else (r, R)
        chk(x, ret, lst(out), trim(x, want))
    dd = lambda nm, n: dense(nm, n)
    ss = lambda nm, n: spars(nm, DEGS(n))
    def DEGS(n): return DEG[n] if n in DEG else [i + i//3 for i in range(n)]
    ops('d', 'd', dd, dd, SZ, BIG)
    SS = [(0, 0), (0, 2), (2, 0), (2, 2), (1, 2), (3, 2), (2, 3)] if sym else [(0, 0), (2, 2)]
    ops('d', 's', dd, ss, SS, BIG[:3])
    ops('s', 'd', ss, dd, SS, BIG[:3])
    ops('s', 's', ss, ss, SS, BIG[:3])
    for A, mk, szs, big in (('d', dd, (0, 1, 2, 3, 4), (5, 9, 16)), ('s', ss, (0, 1, 2, 3), (5, 9))):
        for n in szs + big:
            a = mk('a', n); w = max(1, a['size']); fx = dict(a['fix'], cap=[w]); fe = dict(a['fix'])
            gg = gen({'a': max(1, n)})
            k = dict(tag='%d' % n, bound='%d coefficients' % n, n=25)
            if n in big: k['sym'] = False
            co = a['co']
            gk = lambda rng, i, gg=gg: dict(gg(rng, i), k=rng.choice([0, 1, 2, p-1, rng.randrange(p), rng.randrange(p)]))
            def al(x, co=co, w=w):
                u = trim(x, co(x)); r = lst(x.r)
                chk(x, x.ret & 0x7fffffff, r[:w], padd(u, u), 'p += p: '); x.eq(x.ret >> 31 & 1, 1, 'p -= p is zero')
                chk(x, x.ret >> 32, r[w:3*w], pmul(u, u), 'p *= p: ')
            S.c('%s ali%s %d' % (N, A, n), 'upoly', '%s_ali%s' % (N, A), ('%s cap:u64 -> r:F*%d' % (a['args'], 3*w)).replace('F', F), al, fix=fx, gen=gg, n=25, bound=k['bound'], sym=k.get('sym', True) and sym)
            def un(nm, extra, f, outs=2, gen_=gg, post=None):
                def ps(x, co=co, w=w):
                    u = trim(x, co(x)); r = lst(x.r)
                    want = f(x, u)
                    if want is None: x.eq(x.ret, NONE, 'division by zero is refused'); return
                    if x.ret == NONE: x.true(False, 'succeeds'); return
                    for j in range(outs): chk(x, (x.ret >> 32*j) & 0xffffffff, r[w*j:w*(j+1)], trim(x, want), ['', 'in place: '][j])
                S.c('%s %s%s %d' % (N, nm, A, n), 'upoly', '%s_%s%s' % (N, nm, A), ('%s %s cap:u64 -> r:F*%d' % (a['args'], extra, w*outs)).replace('F', F), ps, fix=dict(fx), gen=gen_, n=25, bound=k['bound'], sym=k.get('sym', True) and sym)
            un('neg', '', lambda x, u: [-v for v in u])
            un('smul', 'k:F', lambda x, u: [v*x.k for v in u] if not x.isz(x.k) else [], gen_=gk)
            un('sdiv', 'k:F', lambda x, u: None if x.isz(x.k) else [v*x.inv(x.k) if not isinstance(v, int) else 0 for v in u], gen_=gk)
            def fold(x, u):
                r = [0]*((len(u)+1)//2)
                for i, v in enumerate(u):
                    if isinstance(v, int): continue
                    t = v*x.k if i & 1 else v
                    r[i//2] = t if isinstance(r[i//2], int) else r[i//2] + t
                return r
            un('fold', 'k:F', fold, outs=1, gen_=gk)
            un('dns', '', lambda x, u: u, outs=1); un('sps', '', lambda x, u: u, outs=1)
            c('eval' + A, '%s k:F -> r:F' % a['args'], lambda x, co=co: x.eq(x.r, pev(co(x), x.k) if co(x) else 0), fix=fe, gen=gk, **k)
            def info(x, co=co):
                u = trim(x, co(x)); r = lst(x.r)
                x.eq(r[0], u[-1] if u else 0, 'leading coefficient')
                for i, v in enumerate(r[1:]): x.eq(v, u[i] if i < len(u) else 0, 'coefficient access')
                one = len(u) == 1 and x.isz(u[0] - 1)
                x.eq(x.ret, max(0, len(u)-1) << 8 | (not u) << 1 | int(one), 'degree, zero, one')
            S.c('%s info%s %d' % (N, A, n), 'upoly', '%s_info%s' % (N, A), ('%s cap:u64 -> r:F*%d' % (a['args'], w+2)).replace('F', F), info, fix=dict(fx, cap=[w+1]), gen=gg, n=25, bound=k['bound'], sym=k.get('sym', True) and sym)
    for n in (1, 2, 3):
        def ge(rng, i, n=n):
            a = [rnd(rng, p) for _ in range(n)]; b = list(a)
            if rng.randrange(2): b[rng.randrange(n)] = rnd(rng, p)
            return dict(a=a, b=b)
        def eqp(x):
            q = all([x.isz(u - v) for u, v in zip(lst(x.a), lst(x.b))]); x.eq(x.ret, 1 if q else 2)
        c('eqdd', 'n:u64 a:F*%d b:F*%d -> ' % (n, n), eqp, tag='%d' % n, fix={'n': [n]}, gen=ge, bound='%d coefficients' % n)
        c('eqss', 'n:u64 d:u64*%d a:F*%d b:F*%d -> ' % (n, n, n), eqp, tag='%d' % n, fix={'n': [n], 'd': DEG[n]}, gen=ge, bound='%d terms' % n)
    def roots(x, n):
        r = [1]
        for t in lst(x.a)[:n]: r = padd([0] + r, pmul([-t], r) if not isinstance(r[0], int) or len(r) > 1 else [-t])
        return r
    for n in (0, 1, 2, 3, 4, 8, 13):
        for f in ('roots', 'rootss'):
            S.c('%s %s %d' % (N, f, n), 'upoly', N + '_' + f, ('n:u64 a:F*%d cap:u64 -> r:F*%d' % (max(n, 1), n+1)).replace('F', F), lambda x, n=n: chk(x, x.ret, lst(x.r), trim(x, roots(x, n))),
                fix={'n': [n], 'cap': [n+1]}, gen=lambda rng, i, n=n: dict(a=[rnd(rng, p) for _ in range(max(n, 1))]), n=15, bound='%d roots' % n, sym=sym and n <= (4 if f == 'roots' else 3))
        def van(x, n=n):
            v = 1
            for t in lst(x.a)[:n]: v = (x.x - t) if isinstance(v, int) else v*(x.x - t)
            x.eq(x.r, [v, v])
        c('vanr', 'n:u64 a:F*%d x:F -> r:F*2' % max(n, 1), van, tag='%d' % n, fix={'n': [n]}, bound='%d roots' % n, n=10)
    for n in (1, 2, 3, 4, 6, 11):
        def lg(rng, i, n=n):
            xs = set(rng.choice([range(n), range(0, 3*n, 3)])) if rng.randrange(3) == 0 else set()
            while len(xs) < n: xs.add(rnd(rng, p))
            xs = list(xs); rng.shuffle(xs)
            ys = [rnd(rng, p) for _ in range(n)]
            if rng.randrange(3) == 0: ys = [pow(v, rng.randrange(n), p) for v in xs]
            if rng.randrange(6) == 0: ys = [ys[0]]*n
            return dict(x=xs, y=ys)
        def lpre(x, n=n):
            if not x.sym: return
            v = lst(x.x)
            for i in range(n):
                for j in range(i): x.assume_nonzero(v[i] - v[j])
        def lp(x, n=n):
            r = lst(x.r)
            L = (x.ret >> 1)
            x.eq(x.ret & 1, 1, 'succeeds'); x.true(L <= n, 'degree < n')
            if L and L <= n: x.true(not x.isz(r[L-1]), 'canonical')
            for i in range(n): x.eq(pev(r, lst(x.x)[i]), lst(x.y)[i], 'passes through point %d' % i)
        S.c('%s lagr %d' % (N, n), 'upoly', N + '_lagr', ('n:u64 x:F*%d y:F*%d cap:u64 -> r:F*%d' % (n, n, n)).replace('F', F), lp, pre=lpre, fix={'n': [n], 'cap': [n]}, gen=lg, n=20, bound='%d points' % n, sym=sym and n <= 2)
    c('lagrbad', 'x:F*3 -> ', lambda x: x.eq(x.ret, 0, 'size mismatch is refused'), n=2)
    for (n, q) in ((0, 0), (0, 3), (3, 0), (1, 1), (3, 3), (8, 8)):
        w = max(n, q, 1)
        ga = gen({'a': max(n, 1), 'b': max(q, 1)})
        kk = dict(fix={'n': [n], 'm': [q], 'cap': [w]}, gen=ga, n=20, bound='%d evaluations' % w)
        def evp(x, n=n, q=q, w=w):
            a = lst(x.a)[:n]; b = lst(x.b)[:q]; r = lst(x.r)
            A = a or [0]*len(b); Bv = b or [0]*len(a)
            want = [[u+v for u, v in zip(A, Bv)], [u-v if not isinstance(u, int) else -v for u, v in zip(A, Bv)], [u*v for u, v in zip(a, b)] if a and b else [], [-u for u in a]]
            for j in range(8):
                wv = want[j % 4]
                x.eq(x.ret >> 8*j & 255, len(wv), 'size %d' % j)
                for i in range(w): x.eq(r[w*j+i], wv[i] if i < len(wv) else 0, 'op %d[%d]' % (j, i))
        S.c('%s ev %d,%d' % (N, n, q), 'upoly', N + '_ev', ('n:u64 a:F*%d m:u64 b:F*%d cap:u64 -> r:F*%d' % (max(n, 1), max(q, 1), 8*w)).replace('F', F), evp, sym=sym, **kk)
        def evd(x, n=n, q=q, w=w):
            a = lst(x.a)[:n]; b = lst(x.b)[:q]; r = lst(x.r)
            M1 = (1 << 64)-1
            if not b: x.eq(x.ret, M1, 'division by zero is refused'); return
            if not a: x.eq(x.ret, 0); return
            zs = [x.isz(v) for v in b]
            if any(zs): x.eq(x.ret, M1, 'division by zero is refused'); return
            x.eq(x.ret, n | n << 8, 'size')
            for i in range(n): x.eq(r[i]*b[i], a[i], 'quotient'); x.eq(r[w+i]*b[i], a[i], 'quotient in place')
        S.c('%s evd %d,%d' % (N, n, q), 'upoly', N + '_evd', ('n:u64 a:F*%d m:u64 b:F*%d cap:u64 -> r:F*%d' % (max(n, 1), max(q, 1), 2*w)).replace('F', F), evd, sym=sym and n < 8, **kk)
        def eve(x, n=n, q=q):
            a = lst(x.a)[:n]; b = lst(x.b)[:q]
            za = all([x.isz(v) for v in a]); zb = all([x.isz(v) for v in b]); oa = bool(a) and all([x.isz(v-1) for v in a])
            e = zb if not a else za if not b else all([x.isz(u-v) for u, v in zip(a, b)])
            x.eq(x.ret, (1 if e else 2) | za << 2 | oa << 3 | max(0, n-1) << 8)
        c('eve', 'n:u64 a:F*%d m:u64 b:F*%d -> ' % (max(n, 1), max(q, 1)), eve, tag='%d,%d' % (n, q), fix={'n': [n], 'm': [q]}, gen=ga, bound='%d evaluations' % w, **({'sym': False} if n == 8 else {}))
    for n in (0, 1, 3, 8):
        w = max(n, 1); ga = gen({'a': w})
        gk = lambda rng, i, ga=ga: dict(ga(rng, i), s=rng.choice([0, 1, 2, p-1, rng.randrange(p)]))
        def evs(x, n=n, w=w):
            a = lst(x.a)[:n]; r = lst(x.r); k1 = x.ret & 255; k2 = x.ret >> 8
            x.eq(k2, n, 'in-place size')
            x.true(k1 == n or (k1 == 0 and x.isz(x.s)), 'size (an empty vector is the zero polynomial)')
            for i in range(w):
                v = a[i]*x.s if i < n else 0
                x.eq(r[i], v); x.eq(r[w+i], v, 'in place')
        S.c('%s evs %d' % (N, n), 'upoly', N + '_evs', ('n:u64 a:F*%d s:F cap:u64 -> r:F*%d' % (w, 2*w)).replace('F', F), evs, sym=sym, fix={'n': [n], 'cap': [w]}, gen=gk, n=20, bound='%d evaluations' % n)
        def evds(x, n=n, w=w):
            a = lst(x.a)[:n]; r = lst(x.r)
            if x.isz(x.s): x.eq(x.ret, (1 << 64)-1, 'division by zero is refused'); return
            x.eq(x.ret, n | n << 8)
            for i in range(n): x.eq(r[i]*x.s, a[i]); x.eq(r[w+i]*x.s, a[i], 'in place')
        S.c('%s evds %d' % (N, n), 'upoly', N + '_evds', ('n:u64 a:F*%d s:F cap:u64 -> r:F*%d' % (w, 2*w)).replace('F', F), evds, sym=sym, fix={'n': [n], 'cap': [w]}, gen=gk, n=20, bound='%d evaluations' % n)
field('f', BN254_FR, True)
field('b', BABYBEAR, False)
