"""Exact multivariate polynomials over Z/p (the abstract value of a field element)
and path facts about them (ideal of polynomials known to be zero, list of
polynomials known to be non-zero).  Monomials are packed exponent vectors (16 bits
per variable), so that the product of monomials is integer addition and integer
comparison is the lexicographic order (later variables larger)."""
import random
SH = 16

class Ring:
    _all = {}
    def __new__(cls, p, key=None, mod=None):
        key = key or p
        r = cls._all.get(key)
        if r is None:
            r = object.__new__(cls); cls._all[key] = r
            r.p = p; r.key = key; r.mod = mod; r.names = []; r.idx = {}
            r.H = 0
            if mod: r.var('u')
        return r
    @classmethod
    def clear(cls):
        for r in cls._all.values():
            r.names = []; r.idx = {}; r.H = 0
            if r.mod: r.var('u')
    def var(self, name):
        i = self.idx.get(name)
        if i is None:
            i = self.idx[name] = len(self.names); self.names.append(name)
            self.H |= 1 << (SH * i + SH - 1)
        return Poly(self, {1 << (SH * i): 1})
    def const(self, c):
        c %= self.p
        return Poly(self, {0: c} if c else {})

def exps(m):
    r = []
    i = 0
    while m:
        e = m & 0xffff
        if e: r.append((i, e))
        m >>= SH; i += 1
    return r

class Poly:
    __slots__ = ('r', 'd', '_k')
    def __init__(s, r, d):
        s.r = r; s.d = d; s._k = None
    def co(s, o):
        if isinstance(o, Poly): return o
        return s.r.const(int(o))
    def __add__(s, o):
        if not isinstance(o, Poly): o = s.r.const(int(o))
        a, b = s.d, o.d
        if len(a) < len(b): a, b = b, a
        d = dict(a); p = s.r.p
        for m, c in b.items():
            v = d.get(m)
            if v is None: d[m] = c
            else:
                v += c
                if v >= p: v -= p
                if v: d[m] = v
                else: del d[m]
        return Poly(s.r, d)
    __radd__ = __add__
    def __neg__(s):
        p = s.r.p
        return Poly(s.r, {m: p - c for m, c in s.d.items()})
    def __sub__(s, o):
        if not isinstance(o, Poly): o = s.r.const(int(o))
        d = dict(s.d); p = s.r.p
        for m, c in o.d.items():
            v = d.get(m)
            if v is None: d[m] = p - c
            else:
                v -= c
                if v < 0: v += p
                if v: d[m] = v
                else: del d[m]
        return Poly(s.r, d)
    def __rsub__(s, o): return s.co(o) - s
    def __mul__(s, o):
        p = s.r.p
        if not isinstance(o, Poly):
            c = int(o) % p
            if c == 0: return Poly(s.r, {})
            if c == 1: return s
            return Poly(s.r, {m: v * c % p for m, v in s.d.items() if v * c % p})
        a, b = s.d, o.d
        if len(a) < len(b): a, b = b, a
        if not b: return Poly(s.r, {})
        d = {}
        get = d.get
        for m2, c2 in b.items():
            for m1, c1 in a.items():
                m = m1 + m2
                d[m] = get(m, 0) + c1 * c2
        return Poly(s.r, {m: v for m, v in ((m, c % p) for m, c in d.items()) if v})
    __rmul__ = __mul__
    def __pow__(s, e):
        r = s.r.const(1); b = s
        while e:
            if e & 1: r = r * b
            e >>= 1
            if e: b = b * b
        return r
    def const(s):
        """python int if constant else None"""
        d = s.d
        if not d: return 0
        if len(d) == 1 and 0 in d: return d[0]
        return None
    def iszero(s): return not s.d
    def key(s):
        if s._k is None: s._k = (s.r.p, tuple(sorted(s.d.items())))
        return s._k
    def __eq__(s, o): return isinstance(o, Poly) and s.r is o.r and s.d == o.d
    def __hash__(s): return hash(s.key())
    def lead(s): return max(s.d)
    def monic(s):
        c = s.d[max(s.d)]
        return s * pow(c, -1, s.r.p) if c != 1 else s
    def vars(s):
        st = set()
        for m in s.d:
            for i, e in exps(m): st.add(i)
        return st
    def eval(s, env):
        """env: name->int"""
        p = s.r.p; t = 0
        names = s.r.names
        for m, c in s.d.items():
            v = c
            for i, e in exps(m):
                v = v * pow(env[names[i]], e, p) % p
            t += v
        return t % p
    def __repr__(s):
        if not s.d: return '0'
        out = []
        for m, c in sorted(s.d.items(), reverse=True)[:8]:
            cc = c if c < s.r.p // 2 else c - s.r.p
            mon = '*'.join('%s%s' % (s.r.names[i], '^%d' % e if e > 1 else '') for i, e in exps(m))
            out.append('%s%s' % (cc if not mon or cc not in (1,) else '', ('*' if cc != 1 else '') + mon if mon else ''))
        return ' + '.join(out) + (' + ...(%d terms)' % len(s.d) if len(s.d) > 8 else '')

def divides(m, n, H):
    """monomial m | n (packed)"""
    return (((n | H) - m) & H) == H

def reduce(f, rules, limit=200000):
    """normal form of f by rules [(lead, poly(monic))]"""
    if not rules: return f
    r = f.r; H = r.H; p = r.p
    d = dict(f.d)
    out = {}
    steps = 0
    import heapq
    heap = [-m for m in d]; heapq.heapify(heap)
    while heap:
        m = -heapq.heappop(heap)
        c = d.pop(m, 0)
        while heap and heap[0] == -m: heapq.heappop(heap)
        c %= p
        if not c: continue
        for lm, g in rules:
            if divides(lm, m, H):
                q = m - lm
                for mm, cc in g.d.items():
                    if mm == lm: continue
                    k = mm + q
                    if k in d: d[k] = (d[k] - c * cc) % p
                    else:
                        d[k] = (-c * cc) % p
                        heapq.heappush(heap, -k)
                steps += 1
                if steps > limit: raise OverflowError('reduce')
                break
        else:
            out[m] = c
    return Poly(r, out)

def lcm(a, b):
    r = 0; i = 0
    while a or b:
        r |= max(a & 0xffff, b & 0xffff) << (SH * i)
        a >>= SH; b >>= SH; i += 1
    return r

def groebner(gens, maxpairs=300, maxterms=3000):
    G = []
    for g in gens:
        g = reduce(g, [(x.lead(), x) for x in G])
        if not g.iszero(): G.append(g.monic())
    pairs = [(i, j) for i in range(len(G)) for j in range(i)]
    n = 0
    while pairs:
        i, j = pairs.pop(0)
        a, b = G[i], G[j]
        la, lb = a.lead(), b.lead()
        L = lcm(la, lb)
        if L == la + lb: continue
        n += 1
        if n > maxpairs: break
        one = a.r
        sp = Poly(a.r, {L - la: 1}) * a - Poly(a.r, {L - lb: 1}) * b
        try: h = reduce(sp, [(x.lead(), x) for x in G])
        except OverflowError: continue
        if h.iszero(): continue
        if len(h.d) > maxterms: continue
        G.append(h.monic())
        k = len(G) - 1
        pairs += [(k, t) for t in range(k)]
    # inter-reduce
    G.sort(key=lambda g: g.lead())
    out = []
    for i, g in enumerate(G):
        if any(divides(x.lead(), g.lead(), g.r.H) for x in out): continue
        out.append(g)
    return out

def lin_reduce(f, rows):
    d = dict(f.d); p = f.r.p
    for g in rows:
        lm = g.lead(); c = d.get(lm)
        if not c: continue
        for m, k in g.d.items():
            v = (d.get(m, 0) - c * k) % p
            if v: d[m] = v
            else: d.pop(m, None)
    return Poly(f.r, d)

class Facts:
    """zero / non-zero facts over one ring"""
    def __init__(s, ring=None):
        s.zeros = []; s.gb = []; s.rules = []; s.nz = []; s.contr = False; s.extra = []
        s.ext = ring is not None and ring.mod is not None
        if s.ext: s.add_zero(ring.mod(ring))
    linear = False
    def add_zeros(s, fs):
        """linear elimination only (relations closed under nothing else)"""
        rows = [g.monic() for lm, g in s.rules]
        for f in fs:
            f = lin_reduce(f, rows)
            if f.iszero(): continue
            f = f.monic()
            rows = [lin_reduce(g, [f]) for g in rows] + [f]
        s.lin = sorted(rows, key=lambda g: -g.lead())
    lin = ()
    def strip(s, f):
        """divide by known non-zero polynomials"""
        for h in s.nz:
            for _ in range(8):
                if len(f.d) > 200 or h.const() is not None: break
                q = exact_div(f, h)
                if q is None: break
                f = q
        return f
    def add_zero(s, f):
        f = s.norm(s.strip(s.norm(f)))
        if f.iszero(): return
        if f.const() is not None or (s.ext and s.zeros and max(f.d) < 1 << SH): s.contr = True; return
        s.zeros.append(f)
        s.gb = groebner(s.zeros)
        s.rules = [(g.lead(), g) for g in s.gb]
        if any(g.const() is not None for g in s.gb): s.contr = True
        for g in list(s.nz):
            if s.norm(g).iszero(): s.contr = True
        for g in s.lin:
            h = s.norm(g)
            if h.const() is not None and not h.iszero(): s.contr = True
    def add_nonzero(s, f):
        s.nz.append(f)
        if s.norm(f).iszero(): s.contr = True
    def norm(s, f):
        return reduce(f, s.rules) if s.rules else f
    def is_zero(s, f):
        """True / False / None(unknown)"""
        g = s.norm(f)
        c = g.const()
        if c is not None: return c == 0
        if s.norm(s.strip(g)).iszero(): return True
        if s.nonzero(g): return False
        # saturation by known non-zero polynomials
        for k in range(2):
            for h in s.nz:
                if s.norm(g * h).iszero(): return True
        return None
    def prove_zero(s, f):
        if s._prove_zero(f): return True
        if s.extra:
            t = Facts(); t.ext = s.ext
            for z in s.zeros + s.extra: t.add_zero(z)
            t.nz = s.nz; t.lin = s.lin
            return t._prove_zero(f)
        return False
    def _prove_zero(s, f):
        g = s.norm(f)
        if g.iszero(): return True
        if s.lin:
            if lin_reduce(g, s.lin).iszero() or lin_reduce(f, s.lin).iszero(): return True
            if s.rules:
                rows = []
                for h in s.lin:
                    h = lin_reduce(s.norm(h), rows)
                    if h.iszero(): continue
                    h = h.monic()
                    rows = sorted([lin_reduce(q, [h]) for q in rows] + [h], key=lambda q: -q.lead())
                if lin_reduce(g, rows).iszero(): return True
        nz = [s.norm(h) for h in s.nz]
        nz = [h for h in nz if h.const() is None]
        cur = [g]
        if not s.rules: return False
        for depth in range(3):
            nxt = []
            for q in cur:
                for h in nz:
                    try: t = s.norm(q * h)
                    except OverflowError: continue
                    if t.iszero(): return True
                    nxt.append(t)
            cur = nxt[:40]
        return False
    def nonzero(s, g):
        """g is a constant multiple of a product of known non-zero polynomials"""
        g = s.norm(g)
        if g.iszero(): return False
        for _ in range(64):
            if g.const() is not None: return True
            if s.ext and max(g.d) < 1 << SH: return True     # non-zero constant of the extension field
            done = False
            for h in s.nz:
                h = s.norm(h)
                if h.const() is not None: continue
                q = exact_div(g, h)
                if q is not None:
                    g = q; done = True; break
            if not done: return False
        return False

def exact_div(f, g):
    """f/g if exact else None"""
    r = f.r; p = r.p
    lm = g.lead(); lc = g.d[lm]; inv = pow(lc, -1, p)
    q = {}
    d = dict(f.d)
    H = r.H
    n = 0
    while d:
        m = max(d)
        if not divides(lm, m, H): return None
        c = d[m] * inv % p
        k = m - lm
        q[k] = c
        for mm, cc in g.d.items():
            v = (d.get(k + mm, 0) - c * cc) % p
            if v: d[k + mm] = v
            else: d.pop(k + mm, None)
        n += 1
        if n > 5000: return None
    return Poly(r, q)
