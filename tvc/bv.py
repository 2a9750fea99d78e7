"""bit-vector specifications that evaluate both on terms and on integers"""
from . import terms as T
class BV:
    __slots__ = ('v', 'w')
    def __init__(s, v, w): s.v = v if isinstance(v, T.Term) else v & ((1 << w) - 1); s.w = w
    def _o(s, o): return o.v if isinstance(o, BV) else o & ((1 << s.w) - 1)
    def __add__(s, o): return BV(T.add(s.v, s._o(o), s.w), s.w)
    def __sub__(s, o): return BV(T.sub(s.v, s._o(o), s.w), s.w)
    def __mul__(s, o): return BV(T.mul(s.v, s._o(o), s.w), s.w)
    def __and__(s, o): return BV(T.and_(s.v, s._o(o), s.w), s.w)
    def __or__(s, o): return BV(T.or_(s.v, s._o(o), s.w), s.w)
    def __xor__(s, o): return BV(T.xor(s.v, s._o(o), s.w), s.w)
    def __invert__(s): return s ^ ((1 << s.w) - 1)
    def __lshift__(s, o):
        if not isinstance(o, BV) and o >= s.w: return BV(0, s.w)
        return BV(T.shl(s.v, s._o(o), s.w), s.w)
    def __rshift__(s, o):
        if not isinstance(o, BV) and o >= s.w: return BV(0, s.w)
        return BV(T.lshr(s.v, s._o(o), s.w), s.w)
    def ext(s, w): return BV(T.zext(s.v, s.w, w) if w > s.w else T.extract(s.v, w-1, 0) if w < s.w else s.v, w)
    def bit(s, i): return BV(T.extract(s.v, i, i), 1)
    def bits(s, h, l): return BV(T.extract(s.v, h, l), h - l + 1)
    def eq(s, o): return T.eq(s.v, s._o(o))
    def ult(s, o): return T.ult(s.v, s._o(o))
    def ule(s, o): return T.ule(s.v, s._o(o))
def cat(words, w):
    """little-endian words -> one vector"""
    if not isinstance(words, (list, tuple)): return BV(words, w)
    r = 0; rw = 0
    for t in words:
        r = t if rw == 0 else T.concat(t, w, r, rw)
        rw += w
    return BV(r, rw)
def ite(c, a, b): return BV(T.ite(c, a.v, b.v, a.w), a.w)
def not_(c): return T.not_(c)
def b2v(c, w):
    """condition -> 0/1 vector"""
    if not isinstance(c, T.Term): return BV(int(bool(c)), w)
    return BV(T.ite(c, 1, 0, w), w)
def pop(v, w):
    s = BV(0, w)
    for i in range(v.w): s = s + v.bit(i).ext(w)
    return s
