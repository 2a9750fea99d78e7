"""Uninterpreted functions over field elements: equal arguments give equal results, nothing else is known.
Natively the harness uses a fixed mixing function; the specification evaluates the same one."""
import re
from .fe import *
from . import fe as FEM
from .engine import Unsupported
from .contract import Fp
MEMO = {}
def reset(): MEMO.clear()
def mix(id_, ins, m, p):
    acc = (3 + id_ % 7) % p
    for j, v in enumerate(ins): acc = (acc * acc + v * (j % 5 + 2) + 1) % p
    out = []
    for i in range(m):
        acc = (acc * acc + i % 3 + 1) % p; out.append(acc)
    return out
def sym(mo, id_, ins, m):
    k = (mo.rk, id_, tuple(f.key() for f in ins), m)
    r = MEMO.get(k)
    if r is None:
        i = len(MEMO)
        r = MEMO[k] = [mo.ring.var('uf%d_%d' % (i, j)) for j in range(m)]
    return r
def apply(mo, id_, ins, m):
    """specification side"""
    if any(hasattr(v, 'key') for v in ins) or False:
        return sym(mo, id_, [v if hasattr(v, 'key') else mo.kpoly(v if isinstance(v, int) else v.v) for v in ins], m)
    return [Fp(mo.p, v) for v in mix(id_, [int(v.v if isinstance(v, Fp) else v) % mo.p for v in ins], m, mo.p)]
def handler(suffix, mo):
    def make(e, f, mt):
        def h(e, a):
            id_, src, n, dst, m = a
            if not all(isinstance(v, int) for v in (id_, n, m)): raise Unsupported('symbolic size')
            ins = [e_norm(e, mo, read_fe(e, mo, src + mo.size * i)) for i in range(n)]
            for i, v in enumerate(sym(mo, id_, ins, m)): write_fe(e, mo, dst + mo.size * i, v)
        return h
    return (re.compile('tvc_uf_%s$' % suffix), make)
def sbox(mo, alpha, v):
    """x^alpha by contract: an uninterpreted function of (alpha, x), exact on constants"""
    if hasattr(v, 'key'):
        c = v.const()
        if c is not None: return mo.kpoly(pow(c, alpha, mo.p))
        return sym(mo, ('pow', alpha), [v], 1)[0]
    v = v if isinstance(v, Fp) else Fp(mo.p, v)
    return Fp(mo.p, pow(v.v, alpha, mo.p))
def pow_handler():
    def make(e, f, mt):
        ms = [m for c, m in BYCFG.items() if c in f.dem]
        if len(ms) != 1: return None
        m = ms[0]; alpha = int(mt.group(1)); sret = FEM._ret(f)
        def h(e, a):
            r = a[0] if sret else None
            v = sbox(m, alpha, e_norm(e, m, read_fe(e, m, a[1] if sret else a[0])))
            if sret: write_fe(e, m, r, v); return None
            return fe_val(m, v)
        return h
    return (re.compile(r'.*::ConstPow<(\d+)\w*[,>].*\(\) const$'), make)
