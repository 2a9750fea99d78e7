"""Mathematical specification of short Weierstrass curves (independent of the code)."""
from . import spec
from .contract import Fp, Fx, conc

class Curve:
    """y^2 = x^3 + a x + b over model m"""
    def __init__(s, m, a, b, G, order=None):
        s.m = m; s.a = conc(m, m.fin(a)); s.b = conc(m, m.fin(b))
        s.G = tuple(conc(m, m.fin(g)) for g in G); s.n = order
        assert s.on(s.G)
        if order: assert s.mul(s.G, order) is None
    def on(s, P): return P is None or P[1]*P[1] == P[0]*P[0]*P[0] + s.a*P[0] + s.b
    def inv(s, v): return Fx(s.m, s.m.kinv(v.v)) if s.m.ext else Fp(s.m.p, pow(v.v, -1, s.m.p))
    def neg(s, P): return None if P is None else (P[0], -P[1])
    def add(s, P, Q):
        if P is None: return Q
        if Q is None: return P
        if P[0] == Q[0]:
            if P[1] != Q[1] or P[1] == 0: return None
            l = (3*P[0]*P[0] + s.a) * s.inv(2*P[1])
        else: l = (Q[1] - P[1]) * s.inv(Q[0] - P[0])
        x = l*l - P[0] - Q[0]
        return (x, l*(P[0] - x) - P[1])
    def mul(s, P, k):
        # Jacobian ladder to avoid inversions
        if k < 0: return s.mul(s.neg(P), -k)
        if P is None or k == 0: return None
        R = None
        for c in bin(k)[2:]:
            R = s.jd(R)
            if c == '1': R = s.ja(R, P)
        if R is None: return None
        zi = s.inv(R[2]); z2 = zi*zi
        return (R[0]*z2, R[1]*z2*zi)
    def jd(s, P):
        if P is None or P[1] == 0: return None
        X, Y, Z = P
        y2 = Y*Y; S = 4*X*y2; z2 = Z*Z; M = 3*X*X + s.a*z2*z2
        x = M*M - 2*S
        return (x, M*(S - x) - 8*y2*y2, 2*Y*Z)
    def ja(s, P, A):
        if A is None: return P
        if P is None: return (A[0], A[1], conc(s.m, 1) if not s.m.ext else Fx(s.m, 1))
        X, Y, Z = P
        z2 = Z*Z; u = A[0]*z2; v = A[1]*z2*Z
        h = u - X; r = v - Y
        if h == 0: return s.jd(P) if r == 0 else None
        h2 = h*h; h3 = h2*h; w = X*h2
        x = r*r - h3 - 2*w
        return (x, r*(w - x) - Y*h3, Z*h)
    def rnd(s, rng):
        return s.mul(s.G, rng.randrange(1, s.n or 2**64))

# representations ------------------------------------------------------------------
NC = {'a': 2, 'j': 3, 'p': 3, 'x': 4}
def rep(k, x, y, z):
    if k == 'a': return [x, y]
    if k == 'j': return [x*z*z, y*z*z*z, z]
    if k == 'p': return [x*z, y*z, z]
    z2 = z*z; z3 = z2*z
    return [x*z2, y*z3, z2, z3]
def affine(C, k, c):
    """concrete representative -> affine point or None"""
    if k == 'a': return None if c[0] == 0 and c[1] == 0 else (c[0], c[1])
    if c[2] == 0: return None
    zi = C.inv(c[2])
    if k == 'p': return (c[0]*zi, c[1]*zi)
    if k == 'j': return (c[0]*zi*zi, c[1]*zi*zi*zi)
    return (c[0]*zi, c[1]*C.inv(c[3]))
