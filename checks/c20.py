"""C20: commitment schemes: commitments, opening proofs, Merkle trees and FRI."""
import random
from tvc.suite import Suite
from tvc.fe import *
from tvc import terms as T
S = Suite('C20', 'bounded', assumptions=['prime-field operations satisfy their contracts (check C01)', 'evaluation domains satisfy their contracts (check C05)',
  'the group, its multi-scalar multiplication and its pairing satisfy their contracts (checks C08, C10, C11): the schemes are verified over a group of known discrete logarithms'],
  trusted=['absl and std containers (third-party): their code is executed with the code under contract, not specified separately'])
S.h('pcs', irflags='-I/verif/harness/irstub', objs=['tachyon/math/elliptic_curves/bn/bn254/_objs/fr_config/fr_config.o'])
def lst(v): return list(v) if isinstance(v, (list, tuple)) else [v]
M = FIELDS['bn254.Fr']; P = M.p; F = 'bn254.Fr'
def c(name, fn, args, post, h='pcs', **k):
    k.setdefault('n', 10)
    return S.c(('%s %s' % (fn, name)).strip(), h, fn, args.replace(':F', ':' + F), post, **k)
def dot(a, b):
    r = 0
    for x, y in zip(a, b): r = r + x*y
    return r
G2 = lambda n: pow(M.two_adic_root if hasattr(M, 'two_adic_root') else pow(5, (P-1) >> 28, P), 1 << (28 - n.bit_length() + 1), P)
# ---- KZG set-up and commitments
def setup(n):
    w = G2(n)
    def post(x):
        x.true(x.ret == 1, 'sizes agree'); t = x.tau; pw, lg = lst(x.pw), lst(x.lg); a = 1
        for i in range(n): x.eq(pw[i], a, 'power of tau'); a = a*t
        v = a - 1
        inv_n = pow(n, -1, P)
        for i in range(n):
            # L_i(tau) * (tau - w^i) = w^i (tau^n - 1) / n, and L_i(w^j) = [i = j]
            x.eq(lg[i]*(t - pow(w, i, P)), v*(pow(w, i, P)*inv_n), 'Lagrange basis')
        s = 0
        for i in range(n): s = s + lg[i]
        if not x.sym: x.eq(s, 1, 'Lagrange basis sums to one')
        for g in lst(x.g2): x.eq(g, t, 'tau in the second group')
    gen = lambda rng, i: {'tau': [rng.choice([0, 1, 2, P-1, pow(w, rng.randrange(n), P)] + [rng.randrange(P)]*4)]}
    c('n=%d' % n, 'k_setup', 'n:u64 tau:F -> pw:F*%d lg:F*%d g2:F*2' % (n, n), post, fix={'n': [n]}, gen=gen, bound='%d powers, every tau' % n, n=20)
for n in (1, 2, 4, 8): setup(n)
def commit(n, m):
    def post(x):
        ok = 3 if m <= n else 0
        x.true(x.ret == ok, 'accepts exactly the vectors that fit')
        if m <= n:
            v = lst(x.v)[:m]; r = lst(x.r); x.eq(r[0], dot(lst(x.b), v), 'commitment'); x.eq(r[1], dot(lst(x.l), v), 'commitment to evaluations')
    for fn in ('k_commit', 'k_commit_xyzz'):
        c('n=%d m=%d' % (n, m), fn, 'n:u64 m:u64 b:F*%d l:F*%d v:F*%d -> r:F*2' % (n, n, max(m, 1)), post, fix={'n': [n], 'm': [m]}, bound='%d bases, %d scalars' % (n, m))
for n, m in ((1, 0), (1, 1), (4, 4), (4, 3), (4, 0), (3, 4), (6, 6), (8, 5)): commit(n, m)
def batch(fn, n, idx):
    def post(x):
        x.true(x.ret == 1, 'batch accepted'); b, l, v, r = lst(x.b), lst(x.l), lst(x.v), lst(x.r)
        for j, k in enumerate(idx): x.eq(r[k], dot(b, v[j*n:j*n+n]), 'batch commitment'); x.eq(r[3+k], dot(l, v[j*n:j*n+n]), 'batch commitment to evaluations')
    c('n=%d %s' % (n, idx), fn, 'n:u64 b:F*%d l:F*%d v:F*%d idx:u64*3 -> r:F*6' % (n, n, 3*n), post, fix={'n': [n], 'idx': list(idx)}, bound='three polynomials of %d terms' % n)
for fn in ('g_batch', 's_batch', 'k_batch_xyzz'):
    for n, i in ((1, (0, 1, 2)), (4, (0, 1, 2)), (4, (2, 0, 1))): batch(fn, n, i)
def down(n, m):
    def post(x):
        x.true(x.ret == (1 if m < n else 0), 'reduces exactly to smaller sizes')
        if m < n:
            for a, b in zip(lst(x.r), lst(x.b)[:m]): x.eq(a, b, 'remaining power')
    c('%d to %d' % (n, m), 'k_down', 'n:u64 m:u64 b:F*%d l:F*%d -> r:F*%d' % (n, n, max(m, 1)), post, fix={'n': [n], 'm': [m]}, bound='this size')
for n, m in ((4, 2), (4, 4), (4, 1), (8, 4), (2, 3)): down(n, m)
def downl(n, m):
    w = G2(m)
    def post(x):
        x.true(x.ret == 1, 'reduces'); t = x.tau; v = 1
        for _ in range(m): v = v*t
        for i, l in enumerate(lst(x.r)): x.eq(l*(t - pow(w, i, P)), (v - 1)*(pow(w, i, P)*pow(m, -1, P)), 'Lagrange basis of the smaller domain')
    c('%d to %d' % (n, m), 'k_down_lagrange', 'n:u64 m:u64 tau:F -> r:F*%d' % m, post, fix={'n': [n], 'm': [m]}, gen=lambda rng, i: {'tau': [rng.randrange(1000, P)]}, bound='this size')
downl(4, 2); downl(8, 4)
def ped(n, m):
    def post(x):
        ok = 3 if m == n else 0
        x.true(x.ret == ok, 'accepts exactly the vectors of the size of the generators')
        if ok:
            for r in lst(x.r): x.eq(r, dot(lst(x.g), lst(x.v)) + x.h*x.rr, 'Pedersen commitment')
    c('n=%d m=%d' % (n, m), 'ped', 'n:u64 m:u64 g:F*%d h:F v:F*%d rr:F -> r:F*2' % (n, m), post, fix={'n': [n], 'm': [m]}, bound='%d generators' % n)
for n, m in ((1, 1), (4, 4), (4, 3), (3, 4), (7, 7)): ped(n, m)
def pedb(n, idx, hiding):
    def post(x):
        x.true(x.ret == 1, 'batch accepted'); g, v, rr, r = lst(x.g), lst(x.v), lst(x.rr), lst(x.r)
        for j, k in enumerate(idx): x.eq(r[k], dot(g, v[j*n:j*n+n]) + x.h*rr[j], 'Pedersen batch commitment')
    c('n=%d %s %s' % (n, idx, 'blinded' if hiding else 'without blinding'), 'ped_batch', 'n:u64 g:F*%d h:F v:F*%d rr:F*3 idx:u64*3 -> r:F*3' % (n, 3*n), post, fix={'n': [n], 'idx': list(idx), **({} if hiding else {'rr': [0]*3})}, bound='%d generators' % n)
for n, i in ((1, (0, 1, 2)), (4, (0, 1, 2)), (4, (2, 0, 1))): pedb(n, i, False)
pedb(4, (0, 1, 2), True)
# ---- opening proofs
PTS = [3, 5, P-7, 11, 1 << 200, 0]
def lay(rng, np_, npt, nq):
    q = [(rng.randrange(np_), rng.randrange(npt)) for _ in range(nq)]
    return list(dict.fromkeys(q))
def groups_gwc(q):
    """by point, in order of first use"""
    o = list(dict.fromkeys(b for _, b in q)); return [(b, [k for k, (_, y) in enumerate(q) if y == b]) for b in o]
def groups_shp(q, pts):
    """by oracle, then by equal sets of points (sorted by value)"""
    o = list(dict.fromkeys(a for a, _ in q)); sets = {}
    for a in o: sets.setdefault(tuple(sorted({b for y, b in q if y == a}, key=lambda b: pts[b])), []).append(a)
    return list(sets.items())
def sig(which, q): return (1 + len({b for _, b in q}), 1, [1] + [2]*len({b for _, b in q})) if which == 'gwc' else (2, 3, [1, 1, 2, 1, 2])
ARGS = 'n:u64 tau:F how:u64 np:u64 '
def upre(q):
    """the challenge u is none of the opening points (it is drawn after they are fixed)"""
    def f(x):
        if not x.sym: return True
        for b in sorted({b for _, b in q}): x.assume_nonzero(lst(x.ch)[2] - PTS[b])
        return True
    return f
def honest(which, q, sz, how, n=4, tag='', chal=None, pts=PTS, sym=True):
    np_ = len(sz); k = len(q)
    fx = {'n': [n], 'how': [how], 'np': [np_], 'sz': sz, 'nq': [k], 'q': [v for t in q for v in t], 'pt': pts}
    if chal: fx['ch'] = chal
    def post(x): x.eq(x.ret, 7, 'the proof of an honest prover is accepted')
    def gen(rng, i): return {'co': [rng.choice([0, 1, P-1, rng.randrange(P), rng.randrange(P)]) if i % 2 else rng.randrange(P) for _ in range(4*np_)], 'tau': [rng.randrange(P)], 'ch': chal or [rng.randrange(100, P) for _ in range(4)]}
    c('%s %s how=%d %s' % (q, sz, how, tag), which + '_both', ARGS + 'sz:u64*%d co:F*%d nq:u64 q:u64*%d pt:F*%d ch:F*4 -> e:F' % (np_, 4*np_, 2*k, len(pts)), post, fix=fx, gen=gen, bound='these queries and degrees, all coefficients', n=6, sym=sym, **({'pre': upre(q)} if which == 'shp' else {}))
LAY = [[(0, 0)], [(0, 0), (1, 0)], [(0, 0), (0, 1)], [(0, 0), (1, 1)], [(0, 0), (0, 1), (1, 0), (1, 1)], [(0, 0), (1, 0), (1, 1), (2, 2)], [(1, 1), (0, 0), (1, 0), (0, 2)]]
for w in ('gwc', 'shp'):
    for j, q in enumerate(LAY):
        np_ = 1 + max(a for a, _ in q)
        for how in (0, 1): honest(w, q, [(3, 2, 4)[(i + j) % 3] for i in range(np_)], how, sym=False)
        for sz in ([0]*np_, [1]*np_, [(0, 3, 1)[(i+j) % 3] for i in range(np_)]): honest(w, q, sz, 0, sym=False)
        honest(w, q, [2]*np_, 1, sym=w == 'gwc' or len(q) < 4 or q[0] == (0, 0) and q[1] == (0, 1))
        if np_ == 1: honest(w, q, [3], 1)
        if len(q) == 1: honest(w, q, [2], 0)
def vgwc(q, how, npf=None, tag=''):
    np_ = 1 + max(a for a, _ in q); k = len(q); g = groups_gwc(q); npf = len(g) if npf is None else npf
    def post(x):
        if npf < len(g): x.true((x.ret & 1) == 0, 'a truncated proof is refused'); return
        C, Y, W, t = lst(x.c), lst(x.y), lst(x.proof), x.tau; v, u = lst(x.ch)[:2]; e = 0; pu = 1
        for i, (b, ks) in enumerate(g):
            h = 0; pv = 1
            for j in ks: h = h + pv*(C[q[j][0]] - Y[j]); pv = pv*v
            e = e + pu*((t - PTS[b])*W[i] - h); pu = pu*u
        x.eq(x.e, e, 'the pairing equation of GWC'); x.eq(x.ret, 2 + (1 if x.isz(e) else 0), 'accepted exactly when the equation holds')
        ev = lst(x.ev); cn = lst(x.cnt); want = [1] + [2]*len(g) + [1]; x.true(cn[0] == len(g) and cn[1] == len(want) and cn[2] == 2, 'transcript')
        for a, b in zip(ev, want): x.true(a == b, 'transcript events')
    c('%s how=%d %s' % (q, how, tag), 'gwc_verify', ARGS + 'c:F*%d nq:u64 q:u64*%d pt:F*6 y:F*%d ch:F*4 proof:F*%d npf:u64 -> e:F cnt:u64*3 ev:u64*16' % (np_, 2*k, k, max(1, npf)), post,
      fix={'n': [4], 'how': [how], 'np': [np_], 'nq': [k], 'q': [v for t in q for v in t], 'pt': PTS, 'npf': [npf]}, bound='these queries, all values', n=6)
def vshp(q, how, npf=2, chal=None, tag='', sym=True):
    np_ = 1 + max(a for a, _ in q); k = len(q); g = groups_shp(q, PTS); allp = sorted({b for _, b in q}, key=lambda b: PTS[b])
    def post(x):
        if npf < 2: x.true((x.ret & 1) == 0, 'a truncated proof is refused'); return
        C, Y, t = lst(x.c), lst(x.y), x.tau; h, Q = lst(x.proof); y, v, u = lst(x.ch)[:3]
        def van(bs):
            r = 1
            for b in bs: r = r*(u - PTS[b])
            return r
        zd = [van([b for b in allp if b not in bs]) for bs, _ in g]
        e = 0; pv = 1
        # (tau - u) z_0 Q = sum_i v^i z_i sum_j y^j (C_ij - r_ij(u)) - Z_T(u) h, divided by z_0
        for (bs, ors), z in zip(g, zd):
            s = 0; py = 1
            for o in ors:
                r = 0
                for a in bs:
                    li = 1
                    for b in bs:
                        if b != a: li = li*(u - PTS[b])*pow((PTS[a] - PTS[b]) % P, -1, P)
                    r = r + li*Y[q.index((o, a))]
                s = s + py*(C[o] - r); py = py*y
            e = e + pv*z*s; pv = pv*v
        e = (t - u)*zd[0]*Q - e + van(allp)*h
        x.eq(x.e*zd[0], e, 'the pairing equation of SHPLONK'); x.eq(x.ret, 2 + (1 if x.isz(x.e) else 0), 'accepted exactly when the equation holds')
        ev = lst(x.ev); cn = lst(x.cnt); want = [1, 1, 2, 1, 2]; x.true(cn[0] == 2 and cn[1] == 5 and cn[2] == 3, 'transcript')
        for a, b in zip(ev, want): x.true(a == b, 'transcript events')
    fx = {'n': [4], 'how': [how], 'np': [np_], 'nq': [k], 'q': [v for t in q for v in t], 'pt': PTS, 'npf': [npf]}
    if chal: fx['ch'] = chal
    c('%s how=%d %s' % (q, how, tag), 'shp_verify', ARGS + 'c:F*%d nq:u64 q:u64*%d pt:F*6 y:F*%d ch:F*4 proof:F*%d npf:u64 -> e:F cnt:u64*3 ev:u64*16' % (np_, 2*k, k, max(1, npf)), post, fix=fx, bound='these queries, all values', n=6, sym=sym, pre=upre(q))
for q in LAY:
    for how in (0, 1): vgwc(q, how); vshp(q, how, sym=how == 1 or len(q) < 3)
vgwc(LAY[5], 0, npf=2, tag='truncated'); vgwc(LAY[0], 0, npf=0, tag='truncated'); vshp(LAY[5], 0, npf=1, tag='truncated'); vshp(LAY[5], 0, npf=0, tag='truncated')
# ---- what the prover writes
def prove(which, q, sz, how):
    np_ = len(sz); k = len(q)
    def post(x):
        x.true(x.ret == 3, 'the proof is written as it is absorbed'); t = int(x.tau); ev, cn, pf, ch = lst(x.ev), lst(x.cnt), lst(x.proof), [int(v) for v in lst(x.ch)]; co = [int(v) for v in lst(x.co)]
        pol = [co[4*j:4*j+sz[j]] for j in range(np_)]; at = lambda p, a: sum(v*pow(a, i, P) for i, v in enumerate(p)) % P
        if which == 'gwc':
            g = groups_gwc(q); want = [1] + [2]*len(g); Ws = []
            for b, ks in g:
                s = sum(pow(ch[0], j, P)*(at(pol[q[kk][0]], t) - at(pol[q[kk][0]], PTS[b])) for j, kk in enumerate(ks)); Ws.append(s*pow(t - PTS[b], -1, P))
            x.true(cn[0] == len(g) and cn[2] == 1, 'one quotient per point')
            for a, b in zip(pf, Ws): x.eq(a, b % P, 'quotient commitment')
        else:
            g = groups_shp(q, PTS); want = [1, 1, 2, 1, 2]; H = 0
            for i, (bs, ors) in enumerate(g):
                z = 1
                for b in bs: z = z*(t - PTS[b]) % P
                s = 0
                for j, o in enumerate(ors):
                    r = 0
                    for a in bs:
                        li = at(pol[o], PTS[a])
                        for b in bs:
                            if b != a: li = li*(t - PTS[b])*pow(PTS[a] - PTS[b], -1, P) % P
                        r += li
                    s += pow(ch[0], j, P)*(at(pol[o], t) - r)
                H += pow(ch[1], i, P)*s*pow(z, -1, P)
            x.true(cn[0] == 2 and cn[2] == 3, 'two group elements'); x.eq(pf[0], H % P, 'commitment to the quotient')
        x.true(ev[:cn[1]] == want, 'order of challenges and commitments')
    gen = lambda rng, i: {'tau': [rng.randrange(1000, P)], 'ch': [rng.randrange(100, P) for _ in range(4)], 'co': [rng.choice([0, 1, rng.randrange(P), rng.randrange(P)]) for _ in range(4*np_)]}
    c('%s %s how=%d' % (q, sz, how), which + '_prove', ARGS + 'sz:u64*%d co:F*%d nq:u64 q:u64*%d pt:F*6 ch:F*4 -> proof:F*16 cnt:u64*3 ev:u64*64' % (np_, 4*np_, 2*k), post,
      fix={'n': [4], 'how': [how], 'np': [np_], 'sz': sz, 'nq': [k], 'q': [v for t in q for v in t], 'pt': PTS}, gen=gen, sym=False, bound='these queries and degrees', n=8)
for q in LAY:
    for which in ('gwc', 'shp'):
        np_ = 1 + max(a for a, _ in q)
        prove(which, q, [4, 3, 2][:np_], 0); prove(which, q, [2, 4, 1][:np_], 1)
# ---- over bn254
OB = lambda *a: ['tachyon/math/elliptic_curves/%s/_objs/%s_config/%s_config.o' % (d, f, f) for d in a for f in ('fq', 'fr')]
S.h('pcs_bn', ir=False, objs=OB('bn/bn254'))
TAMPER = ['honest', 'commitment', 'value', 'point', 'proof element', 'other set-up', 'elements exchanged', 'truncated']
def real(which, q, sz, how, tamper):
    np_ = len(sz); k = len(q); m = len(groups_gwc(q)) if which == 'gwc' else 2
    if tamper == 6 and m < 2: return
    def post(x):
        x.true(x.ret >> 8 == m, 'size of the proof'); x.true((x.ret & 255) == (1 if tamper == 0 else 0), 'honest proof accepted' if not tamper else 'tampered proof refused: ' + TAMPER[tamper])
    gen = lambda rng, i: {'tau': [rng.randrange(1000, P)], 'tau2': [rng.randrange(1000, P)], 'co': [rng.randrange(1, P) for _ in range(4*np_)], 'at': [rng.randrange(64)], 'delta': [rng.choice([1, P-1, rng.randrange(1, P)])]}
    c('%s %s how=%d %s' % (q, sz, how, TAMPER[tamper]), 'bn_' + which, 'tau:F tau2:F how:u64 np:u64 sz:u64*%d co:F*%d nq:u64 q:u64*%d pt:F*6 tamper:u64 at:u64 delta:F' % (np_, 4*np_, 2*k), post, h='pcs_bn',
      fix={'how': [how], 'np': [np_], 'sz': sz, 'nq': [k], 'q': [v for t in q for v in t], 'pt': PTS, 'tamper': [tamper]}, gen=gen, sym=False, bound='these queries and degrees', n=1 if tamper else 2)
for which in ('gwc', 'shp'):
    for j, q in enumerate(LAY):
        np_ = 1 + max(a for a, _ in q)
        real(which, q, [4, 3, 2][:np_], j % 2, 0); real(which, q, [3, 4, 4][:np_], 1 - j % 2, 0)
        if j in (0, 2, 3, 4, 6):
            for t in range(1, 8): real(which, q, [4, 3, 2][:np_], t % 2, t)
for n in (0, 1, 2, 5): c('n=%d' % n, 'bn_ped_setup', 'n:u64 v:F*%d r:F' % (n + 1), lambda x: x.eq(x.ret, 0, 'set-up of random generators'), h='pcs_bn', sym=False, n=2, fix={'n': [n]}, bound='this many generators')
for which in ('gwc', 'shp'):
    for m in (3, 4, 6, 8, 20): c('m=%d' % m, 'bn_%s_big' % which, 'tau:F m:u64 co:F*%d pt:F' % m, lambda x, m=m: x.eq(x.ret, 3 if m <= 4 else 0, 'opens exactly the polynomials that fit the set-up'), h='pcs_bn', sym=False, n=2,
      fix={'m': [m]}, gen=lambda rng, i, m=m: {'tau': [rng.randrange(1000, P)], 'co': [rng.randrange(1, P) for _ in range(m)], 'pt': [rng.randrange(P)]}, bound='a set-up of four powers')
def eqpost(x):
    a, b = lst(x.a), lst(x.b); e0, e1 = a[0] == b[0], a[1] == b[1]
    want = 1 | e0 << 2 | e1 << 3 | 1 << 4 | e1 << 6 | 1 << 8 | e0 << 10
    x.eq(x.ret, want, 'openings are equal exactly if polynomial, points and values are')
c('', 'open_eq', 'a:F*2 b:F*2', eqpost, h='pcs_bn', sym=False, n=12, gen=lambda rng, i: {'a': [5, 9], 'b': [[5, 9], [5, 8], [4, 9], [1, 2]][i % 4]}, bound='one opening')
c('', 'bn_ped', 'g:F*4 h:F v:F*4 r:F', lambda x: x.eq(x.ret, 0, 'Pedersen commitment over bn254'), h='pcs_bn', sym=False, n=6, bound='four generators')
# ---- binary Merkle trees
S.h('mtree', irflags='-I/verif/harness/irstub', objs=['tachyon/math/elliptic_curves/bn/bn254/_objs/fr_config/fr_config.o'])
LH = lambda v: v*5 + 7
PH = lambda l, r: l*2 + r*3 + 1
def tree(ls):
    t = [ls]
    while len(t[-1]) > 1: t.append([PH(t[-1][i], t[-1][i+1]) for i in range(0, len(t[-1]), 2)])
    return t
def mtc(n, par, sym=True):
    ok = n & (n-1) == 0 and n > 0; k = n.bit_length() - 1
    def post(x):
        if not ok: x.eq(x.ret, 0, 'sizes that are not powers of two are refused'); return
        x.eq(x.ret, 1, 'every leaf opens against the root'); t = tree([LH(v) for v in lst(x.l)]); x.eq(x.root, t[k][0], 'root'); pa, le = lst(x.path), lst(x.left)
        for i in range(n):
            for j in range(k): x.eq(pa[i*k+j], t[j][(i >> j) ^ 1], 'sibling'); x.eq(le[i*k+j], (i >> j) & 1, 'side')
    c('n=%d par=%d' % (n, par), 'mt_commit', 'n:u64 par:u64 l:F*%d -> root:F path:F*%d left:u64*%d' % (n, max(1, n*k), max(1, n*k)), post, h='mtree', fix={'n': [n], 'par': [par]}, bound='%d leaves' % n, sym=sym, n=4)
for n, p in ((1, 0), (2, 0), (4, 0), (8, 0), (3, 0), (6, 0), (8, 1), (8, 2), (8, 4)): mtc(n, p)
mtc(64, 8, sym=False); mtc(64, 0, sym=False); mtc(32, 1, sym=False)
def fold_path(leaf, pa, le):
    for h, l in zip(pa, le): leaf = PH(h, leaf) if l else PH(leaf, h)
    return leaf
def mtv(left):
    k = len(left)
    def post(x):
        x.eq(x.ret, 1 if x.isz(fold_path(x.leaf, lst(x.path), left) - x.root) else 0, 'accepted exactly when the path leads to the root')
    def gen(rng, i):
        leaf = rng.randrange(P); pa = [rng.randrange(P) for _ in range(max(1, k))]; r = fold_path(leaf, pa, left) % P
        return {'leaf': [leaf], 'path': pa, 'root': [r if i % 2 else rng.choice([(r+1) % P, pa[0], rng.randrange(P)])]}
    c('%s' % (left,), 'mt_verify', 'root:F leaf:F k:u64 path:F*%d left:u64*%d' % (max(k, 1), max(k, 1)), post, h='mtree', fix={'k': [k], 'left': list(left) or [0]}, gen=gen, bound='paths of this shape')
for l in ((), (0,), (1,), (0, 1), (1, 0, 1), (1, 1, 0, 0)): mtv(l)
# ---- simple FRI
I2 = pow(2, -1, P)
def ffold(v, ch, w):
    """evaluations over <w> folded by ch: (f(x) + f(-x))/2 + ch (f(x) - f(-x))/(2x)"""
    n = len(v); h = n//2
    return [(v[i] + v[i+h])*I2 + ch*(v[i] - v[i+h])*(I2*pow(w, -i, P) % P) for i in range(h)]
def fri(k, sz, index, vindex=None, sym=True):
    n = 1 << k; w = G2(n); vi = index if vindex is None else vindex
    def post(x):
        co, ch = lst(x.co)[:sz], lst(x.ch); v = []
        for i in range(n): v.append(sum([co[j]*pow(w, i*j, P) for j in range(sz)], 0*ch[0]))
        cn, pf, e, es = lst(x.cnt), lst(x.proof), lst(x.e), lst(x.es); wl = w
        for j in range(k):
            x.eq(pf[j], tree(v)[-1][0], 'root of layer'); m = len(v); x.eq(e[j], v[index % m], 'evaluation'); x.eq(es[j], v[(index + m//2) % m], 'evaluation at the opposite point'); v = ffold(v, ch[j], wl); wl = wl*wl % P
        x.eq(pf[k], v[0], 'final value'); x.eq(cn[0], k+1, 'roots and final value'); x.eq(cn[1], k, 'challenges'); x.true(lst(x.ev)[:2*k+1] == [2, 1]*k + [2] and cn[2] == 2*k+1, 'a challenge after every root')
        x.eq(x.ret, 11 if vi % n == index % n else 8, 'an honest proof is accepted for its index only')
    gen = lambda rng, i: {'co': [rng.randrange(P) if i % 2 else rng.choice([0, 1, P-1, rng.randrange(P)]) for _ in range(max(1, sz))] if vi == index else [rng.randrange(P) for _ in range(max(1, sz))], 'ch': [rng.choice([0, 1, rng.randrange(P)]) if i % 2 and vi == index else rng.randrange(P) for _ in range(k)]}
    c('k=%d size=%d index=%d%s' % (k, sz, index, '' if vi == index else ' verified at %d' % vi), 'fri_both', 'k:u64 sz:u64 co:F*%d ch:F*%d index:u64 vindex:u64 -> proof:F*%d e:F*%d es:F*%d cnt:u64*3 ev:u64*%d' % (max(1, sz), k, k+2, k, k, 2*k+2), post, h='mtree',
      fix={'k': [k], 'sz': [sz], 'index': [index], 'vindex': [vi]}, gen=gen, sym=sym, bound='degree below %d, this index, all coefficients and challenges' % max(1, sz), n=4)
for k in (1, 2, 3):
    for i in range(1 << k): fri(k, 1 << k, i, sym=k < 3 or i in (0, 5))
fri(3, 5, 2); fri(3, 1, 3); fri(3, 0, 1); fri(2, 3, 6); fri(4, 16, 11, sym=False); fri(5, 32, 19, sym=False); fri(6, 64, 37, sym=False)
fri(3, 8, 2, 3, sym=False); fri(3, 8, 2, 6, sym=False); fri(2, 1, 0, 1, sym=False); fri(3, 1, 5, 4, sym=False); fri(3, 1, 1, 5, sym=False)
def friv(k, index, lf, lfs, npf=None, short=0):
    """lf: sides claimed for the evaluation, lfs: for the opposite one"""
    n = 1 << k; w = G2(n); npf = k+1 if npf is None else npf
    def sides(i, m): return [(i >> b) & 1 for b in range(m.bit_length() - 1)]
    placed = not short and npf >= k+1
    for j in range(k):
        m = n >> j
        if lf[j][:k-j] != sides(index % m, m) or lfs[j][:k-j] != sides((index + m//2) % m, m): placed = False
    def post(x):
        if not placed: x.eq(x.ret, 0, 'a path that does not lead to the index is refused'); return
        pf, e, es, pa, pas, ch = lst(x.proof), lst(x.e), lst(x.es), lst(x.pa), lst(x.pas), lst(x.ch); fails = []; wl = w; cur = None
        for j in range(k):
            m = n >> j; i = index % m
            fails += [fold_path(e[j], pa[j*k:j*k+k-j], lf[j]) - pf[j], fold_path(es[j], pas[j*k:j*k+k-j], lfs[j]) - pf[j]]
            if cur is not None: fails.append(cur - e[j])
            cur = (e[j] + es[j])*I2 + ch[j]*(e[j] - es[j])*(I2*pow(wl, -i, P) % P); wl = wl*wl % P
        fails.append(pf[k] - cur); ok = 1
        for f in fails:
            if not x.isz(f): ok = 0; break
        x.eq(x.ret, ok, 'accepted exactly when paths, folding and final value are right')
    def gen(rng, i):
        ch = [rng.randrange(P) for _ in range(k)]; e = [rng.randrange(P)]; es = []; wl = w
        for j in range(k):
            es.append(rng.randrange(P)); m = n >> j; nx = ((e[j] + es[j])*I2 + ch[j]*(e[j] - es[j])*(I2*pow(wl, -(index % m), P))) % P; wl = wl*wl % P; e.append(nx)
        fin = e.pop(); pa = [0]*(k*k); pas = [0]*(k*k); pf = []
        for j in range(k):
            # both paths must meet in one root: choose the last sibling of each accordingly
            for b in range(k-j): pa[j*k+b] = rng.randrange(P); pas[j*k+b] = rng.randrange(P)
            r = fold_path(e[j], pa[j*k:j*k+k-j], lf[j]) % P; last = j*k + k-j-1; part = fold_path(es[j], pas[j*k:last], lfs[j]) % P
            pas[last] = ((r - 1 - 3*part)*I2 if lfs[j][k-j-1] else (r - 1 - 2*part)*pow(3, -1, P)) % P; pf.append(r)
        pf.append(fin); d = {'ch': ch, 'e': e, 'es': es, 'pa': pa, 'pas': pas, 'proof': pf[:max(1, npf)]}
        if i % 3 == 1: key = rng.choice(sorted(d)); l = d[key]; t = rng.randrange(len(l)); l[t] = (l[t] + rng.choice([1, P-1, rng.randrange(P)])) % P
        return d
    fl = lambda L: [v for l in L for v in (l + [0]*k)[:k]]
    c('k=%d index=%d %s %s np=%d%s' % (k, index, lf, lfs, npf, (' layers %d' % short if short > 1 else ' short') if short else ''), 'fri_verify', 'k:u64 ch:F*%d index:u64 proof:F*%d np:u64 e:F*%d es:F*%d pa:F*%d pas:F*%d lf:u64*%d lfs:u64*%d short_by:u64' % (k, max(1, npf), k, k, k*k, k*k, k*k, k*k), post, h='mtree',
      fix={'k': [k], 'index': [index], 'np': [npf], 'lf': fl(lf), 'lfs': fl(lfs), 'short_by': [short]}, gen=gen, bound='this index, all values', n=9)
def sd(k, index): return [[((index % (1 << (k-j))) >> b) & 1 for b in range(k-j)] for j in range(k)], [[(((index + (1 << (k-j-1))) % (1 << (k-j))) >> b) & 1 for b in range(k-j)] for j in range(k)]
for k, i in ((1, 0), (1, 1), (2, 0), (2, 3), (2, 2), (3, 5), (3, 2)): friv(k, i, *sd(k, i))
for k, i, j in ((1, 0, 1), (2, 0, 2), (2, 1, 0), (3, 5, 1), (3, 2, 3)): friv(k, i, *sd(k, j))
friv(2, 1, sd(2, 1)[0], sd(2, 1)[0]); friv(2, 1, *sd(2, 1), npf=2); friv(2, 1, *sd(2, 1), npf=1); friv(2, 1, *sd(2, 1), short=1); friv(3, 6, *sd(3, 6), short=1)
for j in range(2, 10): friv(2, 1, *sd(2, 1), short=j)
