"""Exact-integer back end for word-level code.

A bit-vector Term is turned into the exact integer value it denotes: a polynomial with
integer coefficients over integer variables.  Every place where a machine operation may
lose information (carry, high half, wrapped subtraction, shift) introduces a quotient
variable v = floor(X / m), together with the fact 0 <= X - m*v < m; nothing is assumed
about overflow.  Obligations are discharged by
 * polynomial identity (coefficients, modulo p where the contract is a congruence);
 * interval arithmetic after rewriting quotients into remainders (`bounds`);
 * linear integer arithmetic (z3) over an abstraction whose unknowns are linearly
   independent polynomials, with all range facts and the path condition.
"""
import math
from fractions import Fraction
from . import terms as T
from .terms import Term
import time

class ZP:
    __slots__ = ('d',)
    def __init__(s, d): s.d = d
    @staticmethod
    def c(n): return ZP({(): n} if n else {})
    def __add__(s, o):
        if not isinstance(o, ZP): o = ZP.c(o)
        if len(o.d) > len(s.d): s, o = o, s
        d = dict(s.d)
        for k, v in o.d.items():
            w = d.get(k, 0) + v
            if w: d[k] = w
            else: d.pop(k, None)
        return ZP(d)
    __radd__ = __add__
    def __neg__(s): return ZP({k: -v for k, v in s.d.items()})
    def __sub__(s, o): return s + (-o)
    def __rsub__(s, o): return (-s) + o
    def __mul__(s, o):
        if not isinstance(o, ZP):
            return ZP({k: v*o for k, v in s.d.items()} if o else {})
        d = {}
        for k, v in s.d.items():
            for l, w in o.d.items():
                m = tuple(sorted(k + l)) if k and l else k or l
                x = d.get(m, 0) + v*w
                d[m] = x
        return ZP({k: v for k, v in d.items() if v})
    __rmul__ = __mul__
    def __eq__(s, o): return s.d == (o.d if isinstance(o, ZP) else ZP.c(o).d)
    def __hash__(s): return hash(s.key())
    def key(s): return tuple(sorted(s.d.items()))
    def isc(s): return not s.d or (len(s.d) == 1 and () in s.d)
    def cv(s): return s.d.get((), 0)
    def deg(s): return max((len(k) for k in s.d), default=0)
    def __repr__(s): return ' + '.join('%s*%s' % (hex(v) if isinstance(v, int) else v, '.'.join(map(str, k))) for k, v in sorted(s.d.items())) or '0'

SMALLQ = False
class ZErr(Exception): pass

class ZCtx:
    """conversion context for one path"""
    def __init__(s):
        s.name = []; s.lo = []; s.hi = []; s.dfn = []     # variable tables; dfn: (X, m) or None
        s.q = {}          # (X.key, m) -> var id
        s.memo = {}
        s.vmap = {}
        s.groups = []     # (lead var id, total var id, {other: coef})
        s.facts = {}      # poly key (no const) -> (poly, lo, hi)
        s.bmemo = {}
        s.bools = {}      # bool term id -> var id
        s.bterm = {}; s.rows = []; s.canon = {}
        s.atom = {}; s.apoly = {}   # cut points: term id -> variable, variable -> polynomial
        s.t_solver = 0.0; s.n_solver = 0
        s.nb = 0
    def new(s, name, lo, hi, dfn=None):
        s.name.append(name); s.lo.append(lo); s.hi.append(hi); s.dfn.append(dfn)
        return len(s.name) - 1
    def v(s, i): return ZP({(i,): 1})
    # -------------------------------------------------------------- intervals
    def naive(s, P):
        lo = hi = 0
        for k, c in P.d.items():
            a, b = 1, 1
            for i, x in enumerate(k):
                l, h = s.lo[x], s.hi[x]
                if l >= 0: a, b = (a*l if a >= 0 else a*h), (b*h if b >= 0 else b*l)
                else:
                    q = (a*l, a*h, b*l, b*h); a, b = min(q), max(q)
            if c >= 0: lo += c*a; hi += c*b
            else: lo += c*b; hi += c*a
        return lo, hi
    def subst(s, P, i, Q):
        """replace variable i by polynomial Q"""
        out = ZP({k: v for k, v in P.d.items() if i not in k})
        acc = {}
        for k, v in P.d.items():
            n = k.count(i)
            if n:
                r = tuple(x for x in k if x != i)
                acc.setdefault(n, {})[r] = v
        pw = ZP.c(1); last = 0
        for n in sorted(acc):
            for _ in range(n - last): pw = pw * Q
            last = n
            out = out + ZP(acc[n]) * pw
        return out
    def unatom(s, P):
        while True:
            a = [x for k in P.d for x in k if x in s.apoly]
            if not a: return P
            P = s.subst(P, max(a), s.apoly[max(a)])
    def opd(s, t):
        """operand of a comparison or subtraction: a large word value is named by a
        variable of its own (its polynomial is kept for the final substitution)"""
        if not isinstance(t, Term): return ZP.c(t)
        P = s.val(t)
        b = t
        while b.op == 'zext': b = b.args[0]
        if b.id in s.atom or b.w > 64 or b.w < 8 or b.op in ('var', 'ite') or (len(P.d) <= 14 and P.deg() <= 1): return P
        i = s.atom[b.id] = s.new('w%d' % b.id, b.lo, b.hi)
        s.apoly[i] = s.memo[b.id]
        s.memo[t.id] = s.memo[b.id] = s.v(i)
        return s.v(i)
    def second_pass(s):
        if s.atom: s.memo = {}; s.bmemo = {}
    def rems(s, P, small):
        """rewrite quotients into remainders, latest first"""
        rng = None
        while True:
            c = -1
            for k in P.d:
                for x in k:
                    if x > c and s.dfn[x] is not None and not (small and s.hi[x] - s.lo[x] <= 2): c = x
            if c < 0: break
            X, m = s.dfn[c][0], s.dfn[c][1]
            r = s.rem(c)
            P = s.subst(P, c, (X - s.v(r)) * Fraction(1, m))
            P = ZP({k: (v.numerator if isinstance(v, Fraction) and v.denominator == 1 else v) for k, v in P.d.items()})
        return P
    def rem(s, c):
        d = s.dfn[c]
        if d[2] is None:
            X = d[0]
            if X.isc(): hi = X.cv()
            s.dfn[c] = d = (d[0], d[1], s.new('rem(%d)' % c, 0, d[1] - 1))
        return d[2]
    def bounds(s, P, full=True):
        """sound integer bounds of a polynomial"""
        if P.isc(): return P.cv(), P.cv()
        key = P.key()
        r = s.bmemo.get(key)
        if r is not None: return r
        lo, hi = s.naive(P)
        if full and s.apoly:
            Q = s.unatom(P)
            if Q is not P: l, h = s.bounds(Q); lo, hi = max(lo, l), min(hi, h)
        if full:
            for small in (True, False):
                Q = s.rems(P, small)
                cands = [Q]
                n = len(s.groups)
                for mask in range(1, 1 << n):
                    R = Q
                    for j in range(n):
                        if mask >> j & 1:
                            lead, tot, oth = s.groups[j]
                            sub = s.v(tot)
                            for o, cf in oth.items(): sub = sub - ZP({(o,): cf})
                            R = s.subst(R, lead, sub)
                    cands.append(R)
                for R in cands:
                    l, h = s.naive(R)
                    l = -((-l) // 1) if isinstance(l, int) else -((-l).__floor__())
                    h = h if isinstance(h, int) else h.__floor__()
                    lo, hi = max(lo, l), min(hi, h)
        s.bmemo[key] = (lo, hi)
        return lo, hi
    # -------------------------------------------------------------- quotients
    def quo(s, X, m, lo, hi):
        """floor(X/m), given lo <= X <= hi"""
        if X.isc(): return ZP.c(X.cv() // m)
        g = math.gcd(m, *[v for k, v in X.d.items() if k])
        if g > 1:
            c = X.cv() // g
            X = ZP({k: v // g for k, v in X.d.items() if k}) + c
            m //= g; lo = lo // g if lo >= 0 else -(-lo // g) - 1; hi = hi // g
            if m == 1: return X
        if lo // m == hi // m: return ZP.c(lo // m)
        l, h = s.bounds(X)
        lo, hi = max(lo, l), min(hi, h)
        if lo // m == hi // m: return ZP.c(lo // m)
        ks = [k for k in X.d if k]
        if len(ks) == 1 and len(ks[0]) == 1 and X.d[ks[0]] == 1 and s.dfn[ks[0][0]] is not None:
            # floor((floor(B/n) + c)/m) = floor((B + c n)/(n m))
            B, n = s.dfn[ks[0][0]][:2]
            return s.quo(B + X.cv()*n, n*m, lo*n, hi*n + n - 1)
        if SMALLQ and hi // m - lo // m <= 2 and s.q.get((X.key(), m)) is None:
            # a carry or borrow: a small unknown of its own
            i = s.q[(X.key(), m)] = s.new('q%d' % len(s.name), lo // m, hi // m, (X, m, None))
            s.fact(X - s.v(i)*m, 0, m - 1); s.fact(X, lo, hi)
        i = s.q.get((X.key(), m))
        if i is not None: return s.v(i)
        # split X = m*A + B, coefficients of B reduced modulo m
        tr = lambda v: v // m if v >= 0 else -(-v // m)
        A = ZP({k: tr(v) for k, v in X.d.items() if abs(v) >= m})
        B = ZP({k: v - m*tr(v) for k, v in X.d.items() if v % m})
        if not B.d: return A
        if A.d:
            l, h = s.bounds(B)
            if l // m == h // m: return A + (l // m)
        k = (B.key(), m)
        i = s.q.get(k)
        if i is None:
            l, h = s.bounds(B)
            ks = [k for k in B.d if k]
            if len(ks) == 1 and len(ks[0]) == 1 and B.d[ks[0]] == 1 and s.dfn[ks[0][0]] is not None:
                return A + s.quo(B, m, l, h)
            # X in [lo,hi] also bounds the quotient of B when A is constant
            if A.isc(): l, h = max(l, lo - m*A.cv()), min(h, hi - m*A.cv())
            i = s.q[k] = s.new('q%d' % len(s.name), l // m, h // m, (B, m, None))
            s.fact(B - s.v(i)*m, 0, m - 1)
        return A + s.v(i)
    def fact(s, P, lo, hi):
        c = P.cv()
        Q = P - c
        if not Q.d: return
        k = Q.key()
        f = s.facts.get(k)
        lo -= c; hi -= c
        if f is not None: lo, hi = max(lo, f[1]), min(hi, f[2])
        s.facts[k] = (Q, lo, hi)
    # -------------------------------------------------------------- terms
    def val(s, t):
        if not isinstance(t, Term): return ZP.c(t)
        st = [t]
        memo = s.memo
        while st:
            x = st[-1]
            if x.id in memo: st.pop(); continue
            todo = [a for a in (x.args[1:] if x.op == 'ite' else x.args) if isinstance(a, Term) and a.id not in memo] if x.op not in BOOL else []
            if todo: st.extend(todo); continue
            P = memo[x.id] = s.v(s.atom[x.id]) if x.id in s.atom else s.conv(x)
            st.pop()
            if not P.isc() and x.op not in ('zext',) and len(P.d) < 400: s.fact(P, x.lo, x.hi)
        return memo[t.id]
    def av(s, a): return s.memo[a.id] if isinstance(a, Term) else ZP.c(a)
    def wrap(s, X, w, lo, hi):
        """X mod 2^w"""
        m = 1 << w
        if lo >= 0 and hi < m: return X
        return X - s.quo(X, m, lo, hi) * m
    def conv(s, t):
        op = t.op; a = t.args; w = t.w
        if op == 'var':
            i = s.vmap.get(a[0])
            if i is None: i = s.vmap[a[0]] = s.new(a[0], t.lo, t.hi)
            return s.v(i)
        if op == 'zext': return s.av(a[0])
        if op == 'concat': return s.av(a[0]) * (1 << a[2]) + s.av(a[1])
        lo_, hi_ = T.lo_, T.hi_
        if op == 'add': return s.wrap(s.av(a[0]) + s.av(a[1]), w, lo_(a[0]) + lo_(a[1]), hi_(a[0]) + hi_(a[1]))
        if op == 'sub': return s.wrap(s.opd(a[0]) - s.opd(a[1]), w, lo_(a[0]) - hi_(a[1]), hi_(a[0]) - lo_(a[1]))
        if op == 'mul': return s.wrap(s.av(a[0]) * s.av(a[1]), w, lo_(a[0])*lo_(a[1]), hi_(a[0])*hi_(a[1]))
        if op == 'shl': return s.wrap(s.av(a[0]) * (1 << a[1]), w, lo_(a[0]) << a[1], hi_(a[0]) << a[1])
        if op == 'extract':
            b, h, l = a
            P = s.av(b); lo, hi = b.lo, b.hi
            # low part of a wrapped sum: use the unwrapped value
            if l == 0 and b.op in ('add', 'sub', 'mul'):
                x, y = b.args
                X, Y = (s.opd(x), s.opd(y)) if b.op == 'sub' else (s.av(x), s.av(y))
                if b.op == 'add': P = X + Y; lo, hi = lo_(x) + lo_(y), hi_(x) + hi_(y)
                elif b.op == 'sub': P = X - Y; lo, hi = lo_(x) - hi_(y), hi_(x) - lo_(y)
                else: P = X * Y; lo, hi = lo_(x)*lo_(y), hi_(x)*hi_(y)
                return s.wrap(P, h + 1, lo, hi)
            if l:
                P = s.quo(P, 1 << l, lo, hi); lo >>= l; hi >>= l
            return s.wrap(P, h - l + 1, lo, hi)
        if op == 'xor' and not isinstance(a[1], Term) and a[1] == (1 << w) - 1: return ((1 << w) - 1) - s.av(a[0])
        if op == 'udiv' and not isinstance(a[1], Term) and a[1]: return s.quo(s.av(a[0]), a[1], lo_(a[0]), hi_(a[0]))
        if op == 'urem' and not isinstance(a[1], Term) and a[1]:
            X = s.av(a[0])
            return X - s.quo(X, a[1], lo_(a[0]), hi_(a[0])) * a[1]
        if op == 'sext':
            X = s.av(a[0]); fw = a[0].w
            return X + s.quo(X, 1 << (fw-1), a[0].lo, a[0].hi) * ((1 << w) - (1 << fw))
        if op == 'ite':
            c = s.boolv(a[0])
            x, y = s.av(a[1]), s.av(a[2])
            if x == y: return x
            if c.isc(): return x if c.cv() else y
            return y + c * (x - y)
        if w == 1 and op in BOOL: return s.boolv(t)
        if op in ('and', 'or', 'xor', 'mul', 'add', 'sub') and w == 1: return s.boolv(t)
        raise ZErr('no exact-integer reading of ' + op)
    def boolv(s, t):
        """0/1 polynomial of a boolean term"""
        if not isinstance(t, Term): return ZP.c(t)
        op = t.op; a = t.args
        if op == 'not': return 1 - s.boolv(a[0])
        if op in ('ult', 'ule'):
            x, y = s.opd(a[0]), s.opd(a[1])
            if op == 'ult': D = x - y; lo, hi = T.lo_(a[0]) - T.hi_(a[1]), T.hi_(a[0]) - T.lo_(a[1]); neg = True
            else: D = y - x; lo, hi = T.lo_(a[1]) - T.hi_(a[0]), T.hi_(a[1]) - T.lo_(a[0]); neg = False
            if D.isc(): r = int(D.cv() < 0)
            else:
                w = max(abs(lo).bit_length(), hi.bit_length()) if lo != -(1 << (abs(lo).bit_length() - 1)) else max(abs(lo).bit_length() - 1, hi.bit_length())
                l, h = s.bounds(D)
                q = s.quo(D, 1 << w, max(lo, l), min(hi, h))
                r = -q
            return r if neg and isinstance(r, ZP) else ZP.c(r) if neg else 1 - r if isinstance(r, ZP) else ZP.c(1 - r)
        if op in BOOL or t.w == 1:
            if op == 'zext': return s.val(t)
            if op == 'extract' or op == 'var': return s.val(t)
            if op == 'xor':
                x, y = s.boolv(a[0]), s.boolv(a[1])
                return x + y - x*y*2
            if op == 'and': return s.boolv(a[0]) * s.boolv(a[1])
            if op == 'or':
                x, y = s.boolv(a[0]), s.boolv(a[1])
                return x + y - x*y
            if op == 'ite':
                c, x, y = s.boolv(a[0]), s.boolv(a[1]), s.boolv(a[2])
                return y + c*(x - y)
            i = s.bools.get(t.id)
            if i is None:
                i = s.bools[t.id] = s.new('b%d' % t.id, 0, 1); s.bterm[i] = t
            return s.v(i)
        raise ZErr('boolean ' + op)
    def group(s, name, ids, w, hi):
        """inputs ids are the limbs (width w) of one number in [0,hi]"""
        tot = s.new(name, 0, hi)
        s.groups.append((ids[0], tot, {x: 1 << (w*(j+1)) for j, x in enumerate(ids[1:])}))
        P = ZP({})
        for j, x in enumerate(ids): P = P + ZP({(x,): 1 << (w*j)})
        s.fact(P, 0, hi)
        return P
    # -------------------------------------------------------------- LIA
    def lia(s, pc, goal, extra=(), timeout=20000, deep=False):
        """is `goal` implied?  pc: list of (Term, bool); goal: None (check pc for
        infeasibility) or a list of (poly, lo, hi) all of which must hold;
        returns 'yes' / 'no' / 'unknown'"""
        import z3
        B = Basis(s)
        conds = []
        for c, v in pc: conds.append((c, v))
        # collect polys
        zs = z3.Solver(); zs.set('timeout', timeout)
        fm = []
        if deep:
            # every range fact, each monomial an unknown of its own
            sel = [f for f in s.facts.values() if len(f[0].d) <= 8]
            for k in {k for P, lo, hi in sel for k in P.d}:
                l, h = s.naive(ZP({k: 1})); e = B.lin(ZP({k: 1})); fm.append(z3.And(e >= l, e <= h))
            for P, lo, hi in sel: e = B.lin(P); fm.append(z3.And(e >= lo, e <= hi))
        for c, v in conds:
            f = s.boolf(c, B)
            fm.append(f if v else z3.Not(f))
        g = None
        if goal is not None:
            gs = []
            if callable(goal): gs.append(goal(B)); goal = []
            for P, lo, hi in goal:
                e = B.lin(P)
                if lo is not None: gs.append(e >= lo)
                if hi is not None: gs.append(e <= hi)
            g = z3.And(*gs)
        for P, lo, hi in extra:
            e = B.lin(P); fm.append(z3.And(e >= lo, e <= hi))
        # facts about polynomials within the span (plus definitional closure of small quotients)
        changed = True
        used = set()
        while changed:
            changed = False
            for k, (P, lo, hi) in list(s.facts.items()):
                if k in used: continue
                e = B.lin(P, False)
                if e is None and not P.deg() > 1 and any(s.dfn[m[0]] is not None and s.hi[m[0]] - s.lo[m[0]] <= 2 and B.hasvar(m[0]) for m in P.d if m):
                    e = B.lin(P)
                if e is None: continue
                used.add(k); changed = True
                fm.append(z3.And(e >= lo, e <= hi))
        for i, e in list(B.varexprs()):
            fm.append(z3.And(e >= s.lo[i], e <= s.hi[i]))
        for i, e in list(B.varexprs()):
            if i in s.bterm:
                fm.append((e == 1) == s.boolf(s.bterm[i], B))
        for f in fm: zs.add(f)
        if g is not None: zs.add(z3.Not(g))
        t0 = time.time()
        r = str(zs.check())
        s.t_solver += time.time() - t0; s.n_solver += 1
        return 'yes' if r == 'unsat' else 'no' if r == 'sat' else 'unknown'
    def boolf(s, t, B):
        import z3
        if not isinstance(t, Term): return z3.BoolVal(bool(t))
        op = t.op; a = t.args
        if op == 'not': return z3.Not(s.boolf(a[0], B))
        if op == 'and': return z3.And(s.boolf(a[0], B), s.boolf(a[1], B))
        if op == 'or': return z3.Or(s.boolf(a[0], B), s.boolf(a[1], B))
        if op == 'xor': return z3.Xor(s.boolf(a[0], B), s.boolf(a[1], B))
        if op == 'ite': return z3.If(s.boolf(a[0], B), s.boolf(a[1], B), s.boolf(a[2], B))
        if op == 'ult': return B.lin(s.opd(a[0]) - s.opd(a[1])) <= -1
        if op == 'ule': return B.lin(s.opd(a[0]) - s.opd(a[1])) <= 0
        if op in ('slt', 'sle'):
            w = T.width(*a)
            f = lambda x: s.val(T.xor(x, 1 << (w-1), w) if not isinstance(x, Term) else T.add(x, 1 << (w-1), w))
            d = f(a[0]) - f(a[1])
            return B.lin(d) <= (-1 if op == 'slt' else 0)
        if op == 'eq':
            if T.width(*a) == 1: return s.boolf(a[0], B) == s.boolf(a[1], B)
            return B.lin(s.opd(a[0]) - s.opd(a[1])) == 0
        return B.lin(s.val(t)) == 1

BOOL = ('eq', 'ult', 'ule', 'slt', 'sle', 'not')

class Basis:
    """linear abstraction: polynomials as linear forms over independent unknowns"""
    def __init__(s, ctx): s.ctx = ctx; s.rows = []; s.n = 0; s.vars = []; s.names = {}
    # rows: (pivot monomial, reduced poly without const (Fractions), expr coefs {unknown: Fraction})
    def reduce(s, P):
        ex = {}
        d = {k: v for k, v in P.d.items() if k}
        for piv, row, e in s.rows:
            c = d.get(piv)
            if c:
                f = Fraction(c) / row[piv]
                for k, v in row.items():
                    x = d.get(k, 0) - f*v
                    if x: d[k] = x
                    else: d.pop(k, None)
                for u, v in e.items(): ex[u] = ex.get(u, 0) + f*v
        return d, ex
    def add(s, P):
        import math
        g = math.gcd(*[v for k, v in P.d.items() if k]) if P.deg() else 1
        if g > 1:
            return {u: c*g for u, c in s.add(ZP({k: v // g for k, v in P.d.items() if k})).items()}
        d, ex = s.reduce(P)
        if not d: return ex
        # new unknown: the primitive integer part of what is not yet in the span
        L = 1
        for v in d.values(): L = L * v.denominator // math.gcd(L, v.denominator) if isinstance(v, Fraction) else L
        d = {k: int(v * L) for k, v in d.items()}
        g = math.gcd(*d.values())
        d = {k: v // g for k, v in d.items()}
        u = s.n; s.n += 1
        import z3
        s.vars.append(z3.Int('u%d' % u))
        # pivot: latest variable monomial
        piv = max(d, key=lambda m: (len(m), m))
        s.rows.append((piv, d, {u: Fraction(1)}))
        ex[u] = ex.get(u, 0) + Fraction(g, L)
        return ex
    def lin(s, P, new=True):
        if not new:
            d, ex = s.reduce(P)
            if d: return None
        elif P.deg() <= 1 and len(P.d) <= 24:
            # keep the individual variables as unknowns
            ex = {}
            for k, v in P.d.items():
                if k:
                    for u, c in s.add(ZP({k: 1})).items(): ex[u] = ex.get(u, 0) + c*v
        else: ex = s.add(P)
        return s.expr(ex, P.cv())
    def expr(s, ex, c):
        import z3
        if not isinstance(c, int): raise ZErr('constant %r %s' % (c, type(c)))
        D = 1
        for v in ex.values():
            v = Fraction(v); D = D * v.denominator // __import__('math').gcd(D, v.denominator)
        if D == 1:
            e = z3.IntVal(c)
            for u, v in ex.items():
                if v: e = e + int(v) * s.vars[u]
            return e
        e = z3.RealVal(c)
        for u, v in ex.items():
            v = Fraction(v)
            if v: e = e + z3.Q(v.numerator, v.denominator) * z3.ToReal(s.vars[u])
        return e
    def hasvar(s, i):
        d, ex = s.reduce(ZP({(i,): 1}))
        return not d
    def varexprs(s):
        for i in range(len(s.ctx.name)):
            d, ex = s.reduce(ZP({(i,): 1}))
            if not d: yield i, s.expr(ex, 0)
