"""Contracts over words, discharged in exact integer arithmetic (back end zpoly)."""
import time, re, os
ZDBG = os.environ.get('TVC_ZDBG')
from . import terms as T, engine as EN, fe as FEM, contract as CT
from .terms import Term
from .zpoly import ZP, ZCtx, ZErr
from .engine import Unsupported, CheckFail, PathLimit, Infeasible

class ZMod:
    """residue modulo p of an integer polynomial"""
    __slots__ = ('p', 'f')
    def __init__(s, p, f): s.p = p; s.f = ZP({k: v % p for k, v in f.d.items() if v % p}) if isinstance(f, ZP) else ZP.c(f % p)
    def _c(s, o): return o.f if isinstance(o, ZMod) else o if isinstance(o, ZP) else ZP.c(o)
    def __add__(s, o): return ZMod(s.p, s.f + s._c(o))
    __radd__ = __add__
    def __sub__(s, o): return ZMod(s.p, s.f - s._c(o))
    def __rsub__(s, o): return ZMod(s.p, s._c(o) - s.f)
    def __mul__(s, o): return ZMod(s.p, s.f * s._c(o))
    __rmul__ = __mul__
    def __neg__(s): return ZMod(s.p, -s.f)

class Num:
    """an integer given by its words: exact value (ZP) and term"""
    __slots__ = ('f', 't', 'w')
    def __init__(s, f, t, w): s.f = f; s.t = t; s.w = w
    def _c(s, o): return o.f if isinstance(o, Num) else o
    def __add__(s, o): return s.f + s._c(o)
    __radd__ = __add__
    def __sub__(s, o): return s.f - s._c(o)
    def __rsub__(s, o): return s._c(o) - s.f
    def __mul__(s, o): return s.f * s._c(o)
    __rmul__ = __mul__
    def __neg__(s): return -s.f

class ZX(CT.Ctx):
    z = True
    def __init__(s, con, e):
        CT.Ctx.__init__(s, con); s.eng = e; s.sym = True; s.Z = ZCtx(); s.terms = {}
        s._dead = None
    def dead(s):
        """is the path condition contradictory?"""
        if s._dead is None: s._dead = s.Z.lia(s.eng.pc, None) == 'yes'
        return s._dead
    def _fail(s, lab, msg):
        if s.dead(): return
        s.fails.append((lab, msg))
    def raw(s, name): return s.terms[name]
    def num(s, v, w=None): return v
    def eq(s, a, b, label=None):
        if isinstance(a, (list, tuple)):
            for i, (x, y) in enumerate(zip(a, b)): s.eq(x, y, '%s[%d]' % (label or 'post', i))
            return
        s.nob += 1; lab = s._lab(label)
        p = None
        for x in (a, b):
            if isinstance(x, ZMod): p = x.p
        f = lambda x: x.f if isinstance(x, (ZMod, Num)) else x if isinstance(x, ZP) else s.Z.val(x)
        D = f(a) - f(b)
        red = (lambda P: ZP({k: v % p for k, v in P.d.items() if v % p})) if p else (lambda P: P)
        D = red(D)
        if not D.d: return
        Z = s.Z
        for i in sorted({x for k in D.d for x in k if Z.hi[x] - Z.lo[x] <= 2}):
            for c in range(Z.lo[i], Z.hi[i] + 1):
                if Z.lia(s.eng.pc, [(Z.v(i), c, c)], extra=s.extra()) == 'yes':
                    D = red(Z.subst(D, i, ZP.c(c))); break
        D = red(Z.unatom(D))
        if not D.d: return
        # equations of the path, eliminated modulo p
        rows = []
        for q, m, E in reversed(Z.rows):
            if q == p: rows.append((m, E))
        for c, v in s.eng.pc:
            if v and c.op == 'eq' and T.width(*c.args) > 1:
                E = red(Z.unatom(Z.val(c.args[0]) - Z.val(c.args[1])))
                E = elim(E, rows, p)
                if any(E.d):
                    m = max((k for k in E.d), key=lambda k: (len(k), k))
                    if p: rows.append((m, E * pow(E.d[m], -1, p)))
                    elif abs(E.d[m]) == 1: rows.append((m, E * E.d[m]))
        if rows:
            D = elim(D, rows, p)
            for _ in range(3):
                if not D.d: return
                U = red(Z.unatom(D))
                if U.key() == D.key(): break
                D = elim(U, rows, p)
        if not D.d: return
        if not p:
            if Z.lia(s.eng.pc, [(D, 0, 0)], extra=s.extra()) == 'yes': return
        elif len(D.d) <= 6 and D.deg() <= 1:
            D = ZP({k: v - p if 2*v > p else v for k, v in D.d.items()})
            if Z.lia(s.eng.pc, [(D, 0, 0)], extra=s.extra(), deep=True) == 'yes': return
        if ZDBG:
            print('DIFF', D)
            for i in range(len(Z.name)): print(i, Z.name[i], Z.lo[i], Z.hi[i], Z.dfn[i], Z.apoly.get(i))
            for c, v in s.eng.pc: print('PC', v, T.tostr(c, 4)[:300])
        s._fail(lab, 'not identically satisfied; difference: %s' % str(D)[:300])
    def congruent(s, a, b, n, label=None):
        """a = b modulo n as integers"""
        f = lambda x: x.f if isinstance(x, (ZMod, Num)) else x if isinstance(x, ZP) else s.Z.val(x)
        s.nob += 1; lab = s._lab(label)
        D = s.Z.unatom(f(a) - f(b))
        D = ZP({k: v % n for k, v in D.d.items() if v % n})
        if D.d: s._fail(lab, 'not congruent modulo %#x; difference: %s' % (n, str(D)[:300]))
    def extra(s): return s.xf
    xf = ()
    def below(s, a, n, label=None):
        """0 <= a < n as an exact integer"""
        s.nob += 1; lab = s._lab(label or 'range')
        P = a.f
        Z = s.Z
        l, h = Z.bounds(P)
        if l >= 0 and h < n: return
        r = Z.lia(s.eng.pc, [(P, 0, n - 1)], extra=s.extra())
        if r == 'no': r = Z.lia(s.eng.pc, [(Z.unatom(P), 0, n - 1)], extra=s.extra(), deep=True) if len(Z.facts) < 24 else r
        if r == 'yes': return
        if r == 'unknown': s.unknown.append(lab); return
        if ZDBG:
            print('RANGE', P, l, h)
            for i in range(len(Z.name)): print(i, Z.name[i], Z.lo[i], Z.hi[i], Z.dfn[i], Z.apoly.get(i))
            for c, v in s.eng.pc: print('PC', v, T.tostr(c, 4)[:300])
        s._fail(lab, 'value not proved below %#x (linear abstraction has a model)' % n)
    def cond(s, bit, c, label=None):
        """bit (0/1 term) holds exactly when condition c (term) does"""
        s.nob += 1; lab = s._lab(label)
        Z = s.Z
        def g(B):
            return Z.boolf(T.eq(bit, 1) if not isinstance(bit, Term) or bit.w != 1 else bit, B) == Z.boolf(c, B)
        r = Z.lia(s.eng.pc, g)
        if r == 'yes': return
        if r == 'unknown': s.unknown.append(lab); return
        s._fail(lab, 'condition and returned bit differ')
    def bits(s, ret, conds):
        for i, c in enumerate(conds):
            s.cond((ret >> i) & 1 if not isinstance(ret, Term) else T.extract(ret, i, i), c, 'bit %d' % i)
    def eqc(s, a, b): return T.eq(s.tm(a), s.tm(b))
    def ltc(s, a, b): return T.ult(s.tm(a), s.tm(b))
    def canon(s, m, a):
        ts = canon_limbs(s.Z, m, a.f)
        W = 8*min(8, m.size); P = ZP({})
        for j, t in enumerate(ts): P = P + s.Z.val(t) * (1 << (W*j))
        return Num(P, words(ts, W)[0], W*len(ts))
    def tm(s, a): return a.t if isinstance(a, Num) else a
    def true(s, c, label=None): s.cond(1, c, label)

def words(terms, w):
    """value and concatenated term of little-endian words"""
    r = 0; rw = 0
    for t in terms:
        r = t if rw == 0 else T.concat(t, w, r, rw)
        rw += w
    return r, rw

def canon_limbs(Z, m, g):
    """words of the canonical integer congruent to g modulo p (one set of words per residue polynomial)"""
    W = min(8, m.size); n = m.size // W
    g = ZP({k: v % m.p for k, v in g.d.items() if v % m.p})
    key = (m.p, g.key())
    ts = Z.canon.get(key)
    if ts is None and n == 1 and len(g.d) == 1:
        (k, c), = g.d.items()
        if c == 1 and len(k) == 1 and Z.hi[k[0]] < m.p and Z.lo[k[0]] >= 0 and Z.vmap.get(Z.name[k[0]]) == k[0]: ts = Z.canon[key] = [T.var(Z.name[k[0]], 8*W, 0, Z.hi[k[0]])]
    if ts is None:
        i = len(Z.canon)
        ts = [T.var('canon%d_%d' % (i, j), 8*W, 0, min((1 << 8*W) - 1, (m.p - 1) >> (8*W*j) if j == n - 1 else 1 << 70)) for j in range(n)]
        P = x_group(Z, 'canon%d' % i, ts, 8*W, m.p - 1)
        E = P - g
        E = ZP({k: v % m.p for k, v in E.d.items() if v % m.p})
        ld = next(iter(Z.val(ts[0]).d))
        Z.rows.append((m.p, ld, E * pow(E.d[ld], -1, m.p)))
        Z.canon[key] = ts
    return ts

def zcalls(names):
    """calls of field operations (verified by their own word-level contracts) replaced by those
    contracts: canonical operands required, canonical result, congruence modulo p"""
    def make(e, f, mt):
        m = FEM.BYCFG.get(mt.group(1))
        if m is None: return None
        name = FEM._split_args(mt.group(2))
        relax = name == 'Add' and 'AddR' in names
        if name not in names and not relax: return None
        sret = FEM._ret(f)
        ps = f.params[1:] if sret else f.params
        W = min(8, m.size); n = m.size // W
        byval = [q[0].k == 'i' for q in ps]
        def rd(e, v, bv):
            ts = [v] if bv else [e.mem.load(v + W*i, W) for i in range(n)]
            Z = e.zx.Z
            P = ZP({})
            for j, t in enumerate(ts): P = P + Z.opd(t) * (1 << (8*W*j))
            e.zx.below(Num(P, None, 0), m.p, 'canonical operand of ' + name)
            return P
        def new(e, g, tag): return canon_limbs(e.zx.Z, m, g)
        def out(e, r, ts):
            if r is not None:
                for j, t in enumerate(ts): e.mem.store(r + W*j, W, t)
                return None
            return ts[0] if f.ret.k == 'i' else ts
        Ri = m.Ri
        bin_ = {'Mul': lambda a, b: a*b*Ri, 'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b}
        un = {'Square': lambda a: a*a*Ri, 'SquareImpl': lambda a: a*a*Ri, 'Double': lambda a: a + a, 'DoubleImpl': lambda a: a + a, 'Negate': lambda a: -a, 'ToBigInt': lambda a: a*Ri}
        b = name[:-7] if name.endswith('InPlace') else name
        def h(e, a):
            r = a[0] if sret else None
            a = a[1:] if sret else a
            if relax:
                Z = e.zx.Z; ps_ = [Z.opd(v if bv else e.mem.load(v, W)) for v, bv in zip(a, byval)]
                for P in ps_: e.zx.below(Num(P, None, 0), m.p + 1, 'operand of Add at most p')
                e.zx.below(Num(ps_[0] + ps_[1], None, 0), 2*m.p, 'operands of Add below 2p together'); g = ps_[0] + ps_[1]
            elif b in bin_: g = bin_[b](rd(e, a[0], byval[0]), rd(e, a[1], byval[1]))
            else: g = un[b](rd(e, a[0], byval[0]))
            ts = new(e, g, b)
            if name.endswith('InPlace'):
                for j, t in enumerate(ts): e.mem.store(a[0] + W*j, W, t)
                return a[0]
            return out(e, r, ts)
        return h
    def fm(e, f, mt):
        m = FEM.BYCFG.get(mt.group(1))
        if m is None or m.size > 4 or len(f.params) != 1: return None
        def h(e, a):
            e.zx.below(Num(e.zx.Z.opd(a[0]), None, 0), m.p << 32, 'operand of FromMontgomery')
            t = canon_limbs(e.zx.Z, m, e.zx.Z.val(a[0]) * m.Ri)[0]
            return t if f.ret.bits == t.w else T.zext(t, t.w, f.ret.bits)
        return h
    hs = [(FEM.NAME, make)]
    if 'ToBigInt' in names: hs.append((re.compile(r'(?:auto )?(tachyon::math::[\w:<>]*Config|[\w:]*Config)::FromMontgomery\('), fm))
    return lambda: hs

def zprove(suite, con, e):
    t0 = time.time()
    res = dict(name=con.name, paths=0, nob=0, nok=0, fails=[], unknown=[], reason=None)
    e.max_paths = con.max_paths
    e.handlers = list(con.handlers()) if con.handlers else []
    e.no_solver = True
    zs = [0.0, 0]
    def body():
        x = ZX(con, e); Z = x.Z; e.zx = x; x.lane = lane
        addrs = {}
        for a in con.all: addrs[a.name] = e.mem.alloc(max(1, a.size * a.n), 'arg ' + a.name)
        bound = dict(con.zpre or {})
        for a in con.ins:
            vals = []
            for i in range(a.n):
                if a.name in con.fix and not a.model:
                    e.mem.store(addrs[a.name] + i*a.size, a.size, con.fix[a.name][i]); vals.append(con.fix[a.name][i]); continue
                W = 8 if not a.model else min(8, a.size)
                nl = a.size // W if a.model else 1
                ts = []
                for j in range(nl):
                    hi = (1 << 8*W) - 1 if a.model else (1 << a.w) - 1
                    if a.name in con.zb: hi = con.zb[a.name] - 1
                    if a.model and j == nl - 1: hi = min(hi, (a.model.p - 1) >> (8*W*j))
                    t = T.var('%s%d_%d' % (a.name, i, j), 8*W if a.model else a.w, 0, hi)
                    e.mem.store(addrs[a.name] + i*a.size + j*W, W if a.model else a.size, t)
                    ts.append(t)
                if a.model:
                    f = x_group(Z, '%s%d' % (a.name, i), ts, 8*W, a.model.p - 1)
                    tt, ww = words(ts, 8*W)
                    x.terms[(a.name, i)] = tt
                    vals.append((ZMod(a.model.p, f * a.model.Ri), Num(f, tt, ww)))
                else: vals.append(ts[0])
            if a.name in bound:
                f = x_group(Z, a.name, vals, a.w, bound[a.name] - 1)
                tt, ww = words(vals, a.w)
                setattr(x, a.name, Num(f, tt, ww)); continue
            if a.model:
                setattr(x, a.name, vals[0][0] if a.scalar else [v[0] for v in vals])
                setattr(x, a.name + '_raw', vals[0][1] if a.scalar else [v[1] for v in vals])
            else: setattr(x, a.name, vals[0] if a.scalar else vals)
        try:
            ret = e.call('@' + con.fn, [addrs[a.name] for a in con.all])
        except CheckFail as f:
            x.nob += 1
            x._fail('safe', str(f)); zs[0] += Z.t_solver; zs[1] += Z.n_solver
            return x
        x.nob += 1
        x.ret = ret
        xf = []
        if lane is not None:
            # only this lane of the outputs; its selects become path conditions
            memo = {}
            for a in con.outs:
                for i in range(a.n):
                    if i == lane: e.mem.store(addrs[a.name] + i*a.size, a.size, resolve(e, e.mem.load(addrs[a.name] + i*a.size, a.size), memo))
                    else: e.mem.store(addrs[a.name] + i*a.size, a.size, 0)
        # name the word values that the path condition and the results depend on
        for c, v in e.pc: cutpoints(Z, c)
        for a in con.outs:
            for i in range(a.n):
                W = min(8, a.size)
                for j in range(a.size // W):
                    t = e.mem.load(addrs[a.name] + a.size*i + j*W, W)
                    Z.opd(t)
        Z.second_pass()
        for a in con.outs:
            nm = a.name + '_o' if any(b.name == a.name for b in con.ins) else a.name
            vals = []
            for i in range(a.n):
                ad = addrs[a.name] + a.size * i
                if a.model:
                    W = min(8, a.size)
                    ts = [e.mem.load(ad + j*W, W) for j in range(a.size // W)]
                    f = ZP({})
                    for j, t in enumerate(ts): f = f + Z.val(t) * (1 << (8*W*j))
                    vals.append((f, ts))
                else: vals.append(e.mem.load(ad, a.size))
            if a.model:
                # the value without trailing carries/borrows is a sound extra fact for range proofs
                for f, ts in vals: xf += small_facts(Z, f) + limb_total(Z, e.pc, f, len(ts))
                x.xf = xf
                fs = []
                for i, (f, ts) in enumerate(vals):
                    n = Num(f, words(ts, 8*min(8, a.size))[0], 8*a.size)
                    x.below(n, a.model.p, 'canonical %s[%d]' % (a.name, i))
                    fs.append(ZMod(a.model.p, f * a.model.Ri))
                setattr(x, nm, fs[0] if a.scalar else fs)
                setattr(x, nm + '_raw', [Num(f, words(ts, 8*min(8, a.size))[0], 8*a.size) for f, ts in vals])
            else:
                if a.name in (con.znum or ()):
                    f = ZP({})
                    for j, t in enumerate(vals): f = f + Z.val(t) * (1 << (a.w*j))
                    xf += small_facts(Z, f); x.xf = xf
                    tt, ww = words(vals, a.w)
                    setattr(x, nm, Num(f, tt, ww))
                else: setattr(x, nm, vals[0] if a.scalar else vals)
        con.post(x)
        zs[0] += Z.t_solver; zs[1] += Z.n_solver
        return x
    def allpaths():
        nonlocal lane
        for lane in range(con.lanes) if con.lanes else [None]: yield from e.paths(body)
    lane = None
    try:
        for x in allpaths():
            res['paths'] += 1
            res['nob'] += x.nob; res['nok'] += x.nob - len(x.fails) - len(x.unknown)
            res['fails'] += [list(f) for f in x.fails[:4]]
            res['unknown'] += x.unknown
            if len(res['fails']) > 12: break
        st = 'failed' if res['fails'] else 'undecided' if res['unknown'] else 'proved'
        if st == 'undecided': res['reason'] = 'solver answered unknown on ' + ', '.join(res['unknown'][:5])
        if res['paths'] == 0: st = 'undecided'; res['reason'] = 'vacuous: no feasible path'
    except (Unsupported, PathLimit, NotImplementedError, OverflowError, RecursionError, ZErr) as ex:
        st = 'failed' if res['fails'] else 'undecided'
        res['reason'] = '%s: %s' % (type(ex).__name__, str(ex)[:300])
    except MemoryError:
        st = 'undecided'; res['reason'] = 'out of memory'
    e.no_solver = False
    res['status'] = st; res['time'] = time.time() - t0
    res['solver_time'] = zs[0]; res['solver_queries'] = zs[1]; res['steps'] = e.steps
    res['used'] = sorted(e.used); res['executed'] = [d for d in e.executed if 'tachyon' in d][:400]
    return res

REB = {'add': T.add, 'sub': T.sub, 'mul': T.mul, 'udiv': T.udiv, 'urem': T.urem, 'and': T.and_, 'or': T.or_, 'xor': T.xor, 'shl': T.shl, 'lshr': T.lshr, 'ashr': T.ashr}
def resolve(e, t, memo):
    """t with every select replaced by the branch taken on this path (forking the path)"""
    if not isinstance(t, Term): return t
    r = memo.get(t.id)
    if r is not None: return r
    op = t.op; a = t.args
    R = lambda x: resolve(e, x, memo)
    if op == 'var': r = t
    elif op == 'ite': r = R(a[1] if e.decide(R(a[0])) else a[2])
    elif op in REB: r = REB[op](R(a[0]), R(a[1]), t.w)
    elif op == 'zext': r = T.zext(R(a[0]), a[0].w, t.w)
    elif op == 'sext':
        x = R(a[0]); w = a[0].w
        if not isinstance(x, Term): r = T.sext(x, w, t.w)
        elif e.decide(T.ult(x, 1 << (w-1))): r = T.zext(x, w, t.w)
        else: r = T.add(T.zext(x, w, t.w), (1 << t.w) - (1 << w), t.w)
    elif op == 'extract': x = R(a[0]); r = T.extract(x, a[1], a[2]) if isinstance(x, Term) else (x >> a[2]) & ((1 << a[1] - a[2] + 1) - 1)
    elif op == 'concat': r = T.concat(R(a[0]), t.w - a[2], R(a[1]), a[2])
    elif op == 'not': r = T.not_(R(a[0]))
    elif op in ('eq', 'ult', 'ule'):
        x, y = R(a[0]), R(a[1])
        if not isinstance(x, Term) and not isinstance(y, Term): r = int({'eq': x == y, 'ult': x < y, 'ule': x <= y}[op])
        else: r = {'eq': T.eq, 'ult': T.ult, 'ule': T.ule}[op](x, y)
    elif op in ('slt', 'sle'): w = T.width(*a); r = {'slt': T.slt, 'sle': T.sle}[op](R(a[0]), R(a[1]), w)
    else: raise ZErr('resolve ' + op)
    memo[t.id] = r
    return r

def limb_total(Z, pc, f, n):
    """range of the number whose limbs are compared, top limb first, on the path"""
    seen = []
    for c, v in pc:
        st = [c]
        while st:
            t = st.pop()
            if not isinstance(t, Term): continue
            if t.op in ('not', 'and', 'or', 'xor'): st.extend(t.args)
            elif t.op in ('ult', 'ule', 'eq') and T.width(*t.args) > 1:
                for a in t.args:
                    while isinstance(a, Term) and a.op == 'zext': a = a.args[0]
                    if isinstance(a, Term) and a.id in Z.atom and Z.atom[a.id] not in seen: seen.append(Z.atom[a.id])
    P = ZP({}); pos = set()
    for i, a in enumerate(seen[:n]): P = P + ZP({(a,): 1 << 64*(n-1-i)}); pos.add(n-1-i)
    for k, c in f.d.items():
        if len(k) == 1 and k[0] in Z.apoly and k[0] not in seen:
            j = (abs(c).bit_length() - 1) // 64
            if c == 1 << 64*j and j not in pos: P = P + ZP({k: c}); pos.add(j)
    if not P.d: return []
    out = []
    # with the carry out of the top word, if there is one
    Q = ZP({})
    for k, c in Z.unatom(P).d.items():
        if len(k) == 1 and Z.dfn[k[0]] is not None and Z.hi[k[0]] - Z.lo[k[0]] <= 2: Q = Q - ZP({k: c})
    for R in ([P, P + Q] if Q.d else [P]):
        l, h = Z.bounds(R)
        out.append((R, l, h))
    return out

def elim(D, rows, p):
    for m, E in rows:
        if len(m) == 1:
            # substitute the (linear) leading variable everywhere
            while True:
                ks = [k for k in D.d if m[0] in k]
                if not ks: break
                for k in ks:
                    r = list(k); r.remove(m[0])
                    D = D - E * ZP({tuple(r): D.d[k]})
                if p: D = ZP({k: v % p for k, v in D.d.items() if v % p})
            continue
        c = D.d.get(m)
        if c: D = D - E * c
        if p: D = ZP({k: v % p for k, v in D.d.items() if v % p})
    return D

def cutpoints(Z, c):
    st = [c]
    while st:
        t = st.pop()
        if not isinstance(t, Term): continue
        if t.op in ('not', 'and', 'or', 'xor') or t.op == 'ite' and t.w == 1: st.extend(t.args)
        elif t.op in ('ult', 'ule', 'eq') and T.width(*t.args) > 1:
            for a in t.args: Z.opd(a)

def small_facts(Z, f):
    out = []
    g = ZP({k: v for k, v in f.d.items() if not (len(k) == 1 and Z.dfn[k[0]] is not None and Z.hi[k[0]] - Z.lo[k[0]] <= 2)})
    for k, c in list(f.d.items()):
        # a remainder's quotient may be small as well
        if len(k) == 1 and k[0] in Z.apoly:
            for k2, c2 in Z.apoly[k[0]].d.items():
                if len(k2) == 1 and Z.dfn[k2[0]] is not None and Z.hi[k2[0]] - Z.lo[k2[0]] <= 2: g = g - ZP({k2: c*c2})
    for P in ({f, g}):
        l, h = Z.bounds(P)
        out.append((P, l, h))
    return out

def x_group(Z, name, ts, w, hi):
    ids = [next(iter(Z.val(t).d))[0] for t in ts]
    if len(ids) == 1:
        Z.hi[ids[0]] = min(Z.hi[ids[0]], hi); Z.fact(Z.v(ids[0]), 0, hi)
        return Z.v(ids[0])
    return Z.group(name, ids, w, hi)
