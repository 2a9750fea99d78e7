"""C11: the pairing is the ate pairing: bilinear, non-degenerate, neutral on points at infinity."""
import random
from tvc.suite import Suite, FEM
from tvc import spec, fe
from tvc.fe import *
from tvc.ecspec import *
from checks.c08 import CURVES, rawpt, BN2, BL2, handlers
S = Suite('C11', 'proof', assumptions=['prime-field, extension-field and curve operations satisfy their contracts (checks C01, C03, C08)',
    'the value of the pairing on multiples follows from its value on the generators by bilinearity of the ate pairing (standard theorem)'],
  trusted=['std::vector, std::accumulate: native code'])
OB = lambda *a: ['tachyon/math/elliptic_curves/%s/_objs/%s_config/%s_config.o' % (d, f, f) for d in a for f in ('fq', 'fr')]
S.h('pairing_bn', objs=OB('bn/bn254', 'bls12/bls12_381'), irflags='-I/verif/harness/irstub'); S.h('pairing_bls', objs=OB('bn/bn254', 'bls12/bls12_381'), irflags='-I/verif/harness/irstub')
def lst(v): return list(v) if isinstance(v, (list, tuple)) else [v]
def val(v): return v.v if hasattr(v, 'v') else v
# ---- reference: F_p[w] / (w^12 - a w^6 + b), affine Miller loop, plain final power
class Ref:
    def __init__(s, p, q, xi, X, bn, G1, G2):
        s.p = p; s.q = q; s.bn = bn; s.X = X; c = xi  # w^6 = c + u, u^2 = -1:  (w^6 - c)^2 = -1
        s.c = c; s.red = (2*c, -(c*c + 1))   # w^12 = 2c w^6 - (c^2 + 1)
        s.G1 = G1; s.G2 = G2
        s.E = (q_ := None)
        r = s.q
        h = (p**4 - p**2 + 1) // r
        assert (p**4 - p**2 + 1) % r == 0
        s.hard = h * (2*X*(6*X*X + 3*X + 1) if bn else 3)
        wq = s.pow([0, 1] + [0]*10, p*p); s.fro2 = [s.pow(wq, i) for i in range(12)]
    def mul(s, a, b):
        r = [0]*23
        for i, x in enumerate(a):
            if x:
                for j, y in enumerate(b): r[i+j] += x*y
        for i in range(22, 11, -1):
            v = r[i]; r[i-6] += s.red[0]*v; r[i-12] += s.red[1]*v
        return [v % s.p for v in r[:12]]
    def pow(s, a, n):
        r = [1] + [0]*11
        for c in bin(n)[2:]:
            r = s.mul(r, r)
            if c == '1': r = s.mul(r, a)
        return r
    def conj(s, a): return [v if i % 2 == 0 else -v % s.p for i, v in enumerate(a)]
    def inv(s, a):
        # extended Euclid in F_p[w]
        p = s.p; m = [-s.red[1] % p] + [0]*5 + [-s.red[0] % p] + [0]*5 + [1]
        def deg(f):
            d = len(f) - 1
            while d >= 0 and f[d] == 0: d -= 1
            return d
        lo, hi, l, h = [1] + [0]*12, [0]*13, list(a) + [0], m
        while deg(l) > 0:
            # h / l
            dl = deg(l); q = [0]*13; h2 = list(h); li = pow(l[dl], -1, p)
            for k in range(deg(h2) - dl, -1, -1):
                t = h2[k + dl] * li % p; q[k] = t
                if t:
                    for j in range(dl + 1): h2[k+j] = (h2[k+j] - t*l[j]) % p
            nn = list(hi)
            for i, t in enumerate(q):
                if t:
                    for j in range(13 - i): nn[i+j] = (nn[i+j] - t*lo[j]) % p
            lo, hi, l, h = nn, lo, h2, l
        i0 = pow(l[0], -1, p)
        return [v*i0 % p for v in lo[:12]]
    def final(s, f):
        g = s.mul(s.conj(f), s.inv(f)); h = [0]*12
        for i, v in enumerate(g):
            if v: h = [(a + v*b) % s.p for a, b in zip(h, s.fro2[i])]
        return s.pow(s.mul(h, g), s.hard)
    def fp2(s, v):   # c0 + c1 u, u = w^6 - c
        r = [0]*12; r[0] = (v[0] - s.c*v[1]) % s.p; r[6] = v[1] % s.p; return r
    def untwist(s, Q):
        x, y = s.fp2(Q[0].v), s.fp2(Q[1].v); w = [0, 1] + [0]*10
        w2, w3 = s.pow(w, 2), s.pow(w, 3)
        if s.bn: return s.mul(x, w2), s.mul(y, w3)
        return s.mul(x, s.inv(w2)), s.mul(y, s.inv(w3))
    def sub(s, a, b): return [(x - y) % s.p for x, y in zip(a, b)]
    def line(s, A, B, P):
        one = [1] + [0]*11
        if A[0] != B[0]: l = s.mul(s.sub(B[1], A[1]), s.inv(s.sub(B[0], A[0])))
        else:
            l = s.mul([3*v % s.p for v in s.mul(A[0], A[0])], s.inv([2*v % s.p for v in A[1]]))
        x = s.sub(s.sub(s.mul(l, l), A[0]), B[0]); y = s.sub(s.mul(l, s.sub(A[0], x)), A[1])
        px = [P[0].v % s.p] + [0]*11; py = [P[1].v % s.p] + [0]*11
        v = s.sub(s.sub(py, A[1]), s.mul(l, s.sub(px, A[0])))
        return (x, y), v
    def miller(s, P, Q):
        Q = s.untwist(Q); n = 6*s.X + 2 if s.bn else abs(s.X)
        f = [1] + [0]*11; T = Q
        for c in bin(n)[3:]:
            T, v = s.line(T, T, P); f = s.mul(s.mul(f, f), v)
            if c == '1': T, v = s.line(T, Q, P); f = s.mul(f, v)
        if s.bn:
            Q1 = tuple(s.pow(c, s.p) for c in Q); Q2 = tuple(s.pow(c, s.p) for c in Q1); Q2 = (Q2[0], [-v % s.p for v in Q2[1]])
            T, v = s.line(T, Q1, P); f = s.mul(f, v)
            T, v = s.line(T, Q2, P); f = s.mul(f, v)
        elif s.X < 0: f = s.conj(f)
        return f
    def base(s):
        if not hasattr(s, 'b'): s.b = s.final(s.miller(s.G1, s.G2)); assert s.b != [1] + [0]*11 and s.pow(s.b, s.q) == [1] + [0]*11
        return s.b
    def tower(s, v):
        """12 tower coordinates -> polynomial in w"""
        r = [0]*12
        for i in range(2):
            for j in range(3):
                c = s.fp2((val(v[6*i + 2*j]), val(v[6*i + 2*j + 1])))
                e = [0]*12; e[i + 2*j] = 1
                r = [(a + b) % s.p for a, b in zip(r, s.mul(c, e))]
        return r
BNX, BLX = 4965661367192848881, -0xd201000000010000
KN = {'bn': ('pairing_bn', CURVES['ec_bn254', 'g1'], CURVES['ec_bn254', 'g2'], BN254_FR.p, 9, BNX, True), 'bls': ('pairing_bls', CURVES['ec_bls', 'g1'], CURVES['ec_bls', 'g2'], BLS_FR.p, 1, BLX, False)}
def dlp(C, k):
    if not hasattr(C, 'dlt'): C.dlt = {}
    if k not in C.dlt: C.dlt[k] = C.mul(C.G, k)
    return C.dlt[k]
def mk(nm):
    h, C1, C2, q, xi, X, bn = KN[nm]; F1, F2 = C1.m.name, C2.m.name; p = C1.m.p
    R = []
    def ref():
        if not R: R.append(Ref(p, q, xi, X, bn, C1.G, C2.G))
        return R[0]
    # final exponentiation, for every f: the exponent
    def fin(x):
        lam = [12*X**3 + 12*X*X + 6*X + 1, 12*X**3 + 6*X*X + 4*X, 12*X**3 + 6*X*X + 6*X, 12*X**3 + 6*X*X + 4*X - 1] if bn else [X**5 - 2*X**4 + 2*X*X - X + 3, X**4 - 2*X**3 + 2*X - 1, X**3 - 2*X*X + X, X*X - 2*X + 1]
        m = 2*X*(6*X*X + 3*X + 1) if bn else 3
        # lemma: sum lam_i q^i is the hard part of (q^12 - 1) / r times m
        x.true(sum(l * p**i for i, l in enumerate(lam)) == m * ((p**4 - p**2 + 1) // q) and m % q != 0, 'lemma: addition chain exponent')
        c = [0]*24
        for s_, e in ((1, 8), (1, 6), (-1, 2), (-1, 0)):   # (q^6 - 1)(q^2 + 1)
            for i, l in enumerate(lam): c[(e + i) % 12] += s_*l
        for i in range(12): x.eq(lst(x.r)[i], c[i] % BLS_FQ.p, 'coefficient of q^%d' % i)
    S.c('%s final exponentiation raises to the power m (q^12 - 1) / r' % nm, h, 'p_finexp', '-> r:bls12_381.Fq*12', fin, n=1)
    # native: the same on random elements, including non-unitary ones
    def fe_(x):
        T = ref(); x.true(T.tower(lst(x.r)) == T.final(T.tower(lst(x.f))), 'value')
    S.c('%s final exponentiation value' % nm, h, 'p_fe', 'f:%s*12 -> r:%s*12' % (F1, F1), fe_, gen=lambda rng, i: dict(f=[rng.randrange(p) for _ in range(12)] if i % 3 else [rng.randrange(p)] + [rng.randrange(p) if rng.random() < .3 else 0 for _ in range(11)]), n=12, sym=False, bound='native')
    # steps of the Miller loop
    hs = handlers(C2)
    def onl(x, c, P):
        """the line c, evaluated at the twist point P (projective X, Y, Z)"""
        c0, c1, c2 = c if bn else (c[2], c[1], c[0])
        return c0*P[1] + c1*P[0] + c2*P[2]
    def rep3(rng, i):
        return rawpt(C2, 'p', dlp(C2, rng.choice([1, 2, 3, 5, 9, 2**90 + 1])), rng)
    def dparam(x):
        v = C2.m.sym; X_, Y_, Z_ = v('x'), v('y'), v('z'); x.assume_nonzero(Z_); x.assume_nonzero(Y_)
        k = X_*X_*X_ + C2.m.kpoly(C2.b.v); x.assume_zero(Y_*Y_ - k); x.assume_nonzero(k)   # k = Y^2
        x.P = (X_, Y_, Z_)
        return dict(p=[X_*Z_, Y_*Z_, Z_], ti=C1.m.kpoly(pow(2, -1, p)))
    def dpost(x):
        if x.sym: X_, Y_, Z_ = x.P
        else:
            a = affine(C2, 'p', lst(x.p)); X_, Y_ = a
            if Y_ == 0: return
        r = lst(x.r); n, d = 3*(X_*X_), 2*Y_; d2 = d*d; xn = n*n - 2*X_*d2; yn = n*(X_*d2 - xn) - Y_*(d2*d)
        x.eq(r[0]*d2, xn*r[2], 'x of 2R'); x.eq(r[1]*(d2*d), yn*r[2], 'y of 2R'); x.nz(r[2], 'finite')
        c = lst(x.l); x.zero(onl(x, c, (X_, Y_, 1)), 'tangent passes through R')
        cy = c[0] if bn else c[2]
        x.zero(c[1]*d + cy*n, 'slope of the tangent'); x.nz(cy, 'line not degenerate')
    S.c('%s Miller doubling step' % nm, h, 'p_dbl', 'p:%s*3 ti:%s -> r:%s*3 l:%s*3' % (F2, F1, F2, F2), dpost, param=dparam, gen=lambda rng, i: dict(p=rep3(rng, i), ti=pow(2, -1, p)), n=12, handlers=hs)
    def aparam(x):
        v = C2.m.sym; X_, Y_, Z_, a, b = v('x'), v('y'), v('z'), v('qx'), v('qy'); x.assume_nonzero(Z_); x.assume_nonzero(X_ - a)
        x.P = (X_, Y_, Z_)
        return dict(p=[X_*Z_, Y_*Z_, Z_], q=[a, b])
    def apost(x):
        if x.sym: X_, Y_, Z_ = x.P
        else: X_, Y_ = affine(C2, 'p', lst(x.p))
        a, b = lst(x.q)
        if not x.sym and X_ == a: return
        r = lst(x.r); n, d = b - Y_, a - X_; d2 = d*d; xn = n*n - (X_ + a)*d2; yn = n*(X_*d2 - xn) - Y_*(d2*d)
        x.eq(r[0]*d2, xn*r[2], 'x of R + Q'); x.eq(r[1]*(d2*d), yn*r[2], 'y of R + Q'); x.nz(r[2], 'finite')
        c = lst(x.l); x.zero(onl(x, c, (X_, Y_, 1)), 'line passes through R'); x.zero(onl(x, c, (a, b, 1)), 'line passes through Q'); x.nz(c[0] if bn else c[2], 'line not degenerate')
    S.c('%s Miller addition step' % nm, h, 'p_add', 'p:%s*3 q:%s*2 -> r:%s*3 l:%s*3' % (F2, F2, F2, F2), apost, param=aparam, gen=lambda rng, i: dict(p=rep3(rng, i), q=rawpt(C2, 'a', dlp(C2, rng.choice([4, 7, 11, 2**60])), rng)), n=12, handlers=hs)
    def neg(x):
        a, r = lst(x.p), lst(x.r)
        x.eq(r[0], a[0]); x.eq(r[1], -a[1]); x.eq(r[2], a[2])
    S.c('%s Miller negation' % nm, h, 'p_neg', 'p:%s*3 -> r:%s*3' % (F2, F2), neg, n=6, handlers=hs)
    # whole pairing
    D = [0, 1, 2, 3, -1, 5, 2**70 + 9, -(2**100)]
    for n in [0, 1, 2, 3, 4, 5, 6, 8, 9, 12, 13]:
        for how in range(3):
            if n > 6 and how != n % 3: continue
            def post(x, n=n):
                T = ref(); e = 0; inf = 0
                for i in range(n):
                    a = affine(C1, 'a', lst(x.p)[2*i:2*i+2]); b = affine(C2, 'a', lst(x.q)[2*i:2*i+2])
                    if b is None: inf |= 1 << i
                    if a is None or b is None: continue
                    e += x.dl(a, 0) * x.dl(b, 1)
                x.eq(x.ret, inf, 'prepared points remember infinity')
                x.true(T.tower(lst(x.r)) == T.pow(T.base(), e % q), 'product of e(P_i, Q_i)')
            def post_(x, post=post):
                def dl(P, k):
                    C = (C1, C2)[k]
                    for d in D:
                        Q = dlp(C, d)
                        if Q is not None and Q[0] == P[0] and Q[1] == P[1]: return d
                    raise KeyError
                x.dl = dl; post(x)
            def gen(rng, i, n=n):
                N = max(n, 1)
                return dict(p=[c for _ in range(N) for c in rawpt(C1, 'a', dlp(C1, rng.choice(D if i else D[1:])), rng)], q=[c for _ in range(N) for c in rawpt(C2, 'a', dlp(C2, rng.choice(D if i else D[1:])), rng)])
            S.c('%s pairing n=%d %s' % (nm, n, ['affine', 'prepared', 'composed'][how]), h, 'p_pair', 'n:u64 how:u64 p:%s*%d q:%s*%d -> r:%s*12' % (F1, 2*max(n, 1), F2, 2*max(n, 1), F1), post_, gen=gen, fix=dict(n=[n], how=[how]), n=10 if n in (1, 2) else 3, sym=False, bound='native')
mk('bn'); mk('bls')
