"""Mathematical specifications, independent of the code: extension towers, curves, ...
Elements are flat lists over F_p (Poly symbolically, Fp or int concretely)."""

class Base:
    deg = 1
    def __init__(s, p): s.p = p
    def mul(s, a, b): return [a[0] * b[0]]
    def add(s, a, b): return [x + y for x, y in zip(a, b)]
    def sub(s, a, b): return [x - y for x, y in zip(a, b)]
    def neg(s, a): return [-x for x in a]
    def one(s): return [1] + [0]*(s.deg - 1)
    def zero(s): return [0]*s.deg
    def emb(s, x): return [x] + [0]*(s.deg-1)
    def scal(s, a, k): return [x*k for x in a]
    def sq(s, a): return s.mul(a, a)
    def red(s, a): return [x % s.p if isinstance(x, int) else x for x in a]
    def pow(s, a, n):
        r = s.one(); a = list(a)
        while n:
            if n & 1: r = s.red(s.mul(r, a))
            n >>= 1
            if n: a = s.red(s.mul(a, a))
        return r
    def frob(s, a, e):
        """a^(p^e) for a with coordinates in F_p"""
        key = e % s.deg
        if not hasattr(s, '_fr'): s._fr = {0: [[int(i == j) for j in range(s.deg)] for i in range(s.deg)]}
        if key not in s._fr:
            if key == 1:
                bas = [s.pow([int(i == j) for j in range(s.deg)], s.p) for i in range(s.deg)]
            else:
                bas = [s.red(s.frob(b, 1)) for b in (s._fr.get(key-1) or (s.frob(s.one(), key-1), s._fr[key-1])[1])]
            s._fr[key] = bas
        bas = s._fr[key]
        out = []
        for j in range(s.deg):
            t = 0
            for i in range(s.deg):
                if bas[i][j]: t = a[i] * bas[i][j] + t
            out.append(t)
        return out
    def norm_to_prime(s, a): return a[0]
    def inv(s, a): return [pow(a[0], -1, s.p)]

class Tower(Base):
    """base[x]/(x^k - nr)"""
    def __init__(s, base, k, nr):
        s.b = base; s.k = k; s.nr = list(nr); s.deg = base.deg * k; s.p = base.p
    def split(s, a):
        d = s.b.deg
        return [a[i*d:(i+1)*d] for i in range(s.k)]
    def mulnr(s, a): return s.b.mul(a, s.nr)
    def mul(s, a, b):
        A, B = s.split(a), s.split(b)
        acc = [None]*s.k
        for i in range(s.k):
            for j in range(s.k):
                t = s.b.mul(A[i], B[j])
                if i + j >= s.k: t = s.mulnr(t)
                d = (i + j) % s.k
                acc[d] = t if acc[d] is None else s.b.add(acc[d], t)
        return [x for c in acc for x in c]
    def norm(s, a):
        """norm to the base field (flat list)"""
        A = s.split(a)
        if s.k == 2: return s.b.sub(s.b.sq(A[0]), s.mulnr(s.b.sq(A[1])))
        if s.k == 3:
            # a0^3 + nr a1^3 + nr^2 a2^3 - 3 nr a0 a1 a2
            m = s.b.mul
            r = s.b.add(m(A[0], s.b.sq(A[0])), s.mulnr(m(A[1], s.b.sq(A[1]))))
            r = s.b.add(r, s.mulnr(s.mulnr(m(A[2], s.b.sq(A[2])))))
            return s.b.sub(r, s.mulnr(s.b.scal(m(A[0], m(A[1], A[2])), 3)))
        if s.k == 4:
            # via the quadratic subfield u = x^2: (a0 + a2 u)^2 - u (a1 + a3 u)^2
            q = Tower(s.b, 2, s.nr)
            e, o = A[0] + A[2], A[1] + A[3]
            o2 = q.sq(o); h = s.b.deg
            uo2 = s.mulnr(o2[h:]) + o2[:h]
            return q.norm(q.sub(q.sq(e), uo2))
    def norm_to_prime(s, a): return s.b.norm_to_prime(s.norm(a))
    def inv(s, a):
        """concrete inverse: a^(q + q^2 + ... + q^(k-1)) / norm, q = order of the base"""
        r = s.one()
        for i in range(1, s.k): r = s.red(s.mul(r, s.frob(a, i * s.b.deg)))
        n = s.red(s.mul(a, r))
        d = s.b.deg
        return s.red(s.mul(r, s.b.inv(n[:d]) + [0]*(s.deg - d)))

def bn254_tower(p, top=12):
    f2 = Tower(Base(p), 2, [-1]); f6 = Tower(f2, 3, [9, 1]); f12 = Tower(f6, 2, [0, 0, 1, 0, 0, 0])
    return f2, f6, f12
def bls_tower(p):
    f2 = Tower(Base(p), 2, [-1]); f6 = Tower(f2, 3, [1, 1]); f12 = Tower(f6, 2, [0, 0, 1, 0, 0, 0])
    return f2, f6, f12
