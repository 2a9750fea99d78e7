"""C16: binary Merkle trees over arbitrary leaf and parent hash functions."""
from tvc.suite import Suite
from tvc.fe import *
from tvc import fe as FEM, uf as UF
FR = FIELDS['bn254.Fr']
def H():
    UF.reset()
    return [UF.handler('fr', FR), FEM.fe_handler()]
S = Suite('C16', 'bounded', assumptions=['prime-field operations satisfy their contracts (C01)', 'the leaf and parent hash functions are arbitrary: uninterpreted functions in the proofs, so every statement holds for any hasher; collision resistance itself is not a code property'],
  trusted=['clang IR of the templates instantiated in harness/sponge.cc'], handlers=H)
O = 'tachyon/math/finite_fields/'
S.h('sponge', objs=[O + '%s/internal/_objs/packed_%s_avx2/packed_%s_avx2.o' % (f, f, f) for f in ('baby_bear', 'koala_bear', 'mersenne31')] + [O + '%s/internal/_objs/%s_config/%s_config.o' % (f, f, f) for f in ('baby_bear', 'koala_bear', 'mersenne31', 'goldilocks')])
lst = lambda v: list(v) if isinstance(v, (list, tuple)) else [v]
F = FR.name
def lh(v): return lst(UF.apply(FR, 2, [v], 1))[0]
def ph(a, b): return lst(UF.apply(FR, 3, [a, b], 1))[0]
def tree(leaves):
    n = len(leaves); t = [None]*(2*n - 1)
    for i, v in enumerate(leaves): t[n - 1 + i] = lh(v)
    for i in range(n - 2, -1, -1): t[i] = ph(t[2*i + 1], t[2*i + 2])
    return t
MAX = 16
for n in (1, 2, 4, 8, 16):
    for par in (0, 1, 2, 4, 8, 16, 32):
        def post(x, n=n):
            t = tree(lst(x.leaf))
            x.eq(x.ret, 2*n - 1, 'accepted, no access outside the storage')
            x.eq(x.root, t[0], 'root')
            for i, (a, b) in enumerate(zip(lst(x.nodes), t)): x.eq(a, b, 'node %d' % i)
        S.c('commit %d leaves, subtrees of %d' % (n, par), 'sponge', 'mt_commit', ('par:u64 n:u64 leaf:F*%d cap:u64 -> root:F nodes:F*%d' % (n, 2*n - 1)).replace('F', F), post, fix=dict(par=[par], n=[n], cap=[2*n - 1]), n=4, bound='number of leaves')
    for i in range(n):
        def post(x, n=n, i=i):
            t = tree(lst(x.leaf)); k = n.bit_length() - 1; j = n - 1 + i
            x.eq(x.ret, k, 'length of the proof')
            for d in range(k):
                sib = j + 1 if j % 2 else j - 1
                x.eq(lst(x.left)[d], 1 if j % 2 == 0 else 0, 'side %d' % d); x.eq(lst(x.sib)[d], t[sib], 'sibling %d' % d)
                j = (j - 1)//2
            x.eq(x.ok, 1, 'the opening verifies')
        c = max(1, n.bit_length() - 1)
        S.c('open %d of %d' % (i, n), 'sponge', 'mt_open', ('n:u64 leaf:F*%d idx:u64 cap:u64 -> left:u64*%d sib:F*%d ok:u64' % (n, c, c)).replace('F', F), post, fix=dict(n=[n], idx=[i], cap=[c]), n=3, bound='number of leaves')
    S.c('simple storage %d' % n, 'sponge', 'mt_simple', ('n:u64 leaf:F*%d -> root:F' % n).replace('F', F), lambda x, n=n: (x.eq(x.ret, 2*n - 1), x.eq(x.root, tree(lst(x.leaf))[0])), fix=dict(n=[n]), n=3, bound='number of leaves')
for n in (0, 3, 5, 6, 7, 9, 12, 15, 17, 24, 32):
    S.c('refuse %d leaves' % n, 'sponge', 'mt_commit', ('par:u64 n:u64 leaf:F*%d cap:u64 -> root:F nodes:F' % max(n, 1)).replace('F', F), lambda x: x.eq(x.ret, 0, 'refused'), fix=dict(par=[0], n=[n], cap=[1]), n=2, bound='number of leaves')
# an arbitrary proof is accepted exactly when the recomputed root is the root
for k in range(0, 6):
    for code in range(2**k):
        lf = [code >> i & 1 for i in range(k)]
        def post(x, k=k, lf=lf):
            h = x.lh
            for l, s in zip(lf, lst(x.sib)[:k]): h = ph(s, h) if l else ph(h, s)
            if x.isz(h - x.root): x.eq(x.ret, 1, 'accepted')
            else: x.eq(x.ret, 0, 'rejected')
        def gen(rng, i, k=k, lf=lf):
            v = [rng.randrange(FR.p) for _ in range(k + 1)]
            return dict(lh=v[0], sib=v[1:] or [0], root=rng.randrange(FR.p) if i % 2 else v[0])
        if k < 4 or code % 5 == 0: S.c('verify path %s' % ''.join('RL'[l] for l in lf), 'sponge', 'mt_verify', ('root:F lh:F k:u64 left:u64*%d sib:F*%d -> ' % (max(k, 1), max(k, 1))).replace('F', F), post, fix=dict(k=[k], left=lf or [0]), gen=gen, n=4, bound='length of the proof')
# equality of proofs
for k in range(3):
    for k2 in range(3):
        for c1 in range(2**k):
            for c2 in range(2**k2):
                l1 = [c1 >> i & 1 for i in range(k)]; l2 = [c2 >> i & 1 for i in range(k2)]
                def post(x, k=k, k2=k2, l1=l1, l2=l2):
                    same = k == k2 and l1 == l2
                    if same:
                        for a, b in zip(lst(x.s1)[:k], lst(x.s2)[:k]):
                            if not x.isz(a - b): same = False; break
                    x.eq(x.ret, (1 if same else 2) | ((4 if same else 8) if k == k2 == 1 else 0))
                S.c('proof equality %s %s' % (''.join('RL'[l] for l in l1), ''.join('RL'[l] for l in l2)), 'sponge', 'mt_proofeq', ('k:u64 l1:u64*%d s1:F*%d k2:u64 l2:u64*%d s2:F*%d -> ' % (max(k, 1), max(k, 1), max(k2, 1), max(k2, 1))).replace('F', F), post,
                    fix=dict(k=[k], k2=[k2], l1=l1 or [0], l2=l2 or [0]), n=6, gen=lambda rng, i, k=k, k2=k2: (lambda v: dict(s1=v[:max(k, 1)], s2=v[:max(k2, 1)] if i % 2 else [rng.randrange(3) for _ in range(max(k2, 1))]))([rng.randrange(3) for _ in range(3)]))
