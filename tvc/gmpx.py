"""Assumed contracts of the GMP C functions the code calls (concrete arguments only):
exact integer arithmetic.  Layout of __mpz_struct: {int alloc, int size, limb*}."""
from .engine import EXT, Unsupported
M = 2**64 - 1
def get(e, a):
    sz = e.mem.load(a + 4, 4)
    if sz >> 31: sz -= 1 << 32
    n = abs(sz); v = 0
    if n:
        d = e.mem.load(a + 8, 8)
        for i in range(n):
            x = e.mem.load(d + 8*i, 8)
            if not isinstance(x, int): raise Unsupported('symbolic big integer in GMP')
            v |= x << (64*i)
    return -v if sz < 0 else v
def put(e, a, v):
    n = (abs(v).bit_length() + 63)//64
    d = e.mem.alloc(8*max(n, 1), 'mpz limbs', 'gmp')
    for i in range(n): e.mem.store(d + 8*i, 8, (abs(v) >> (64*i)) & M)
    e.mem.store(a, 4, max(n, 1)); e.mem.store(a + 4, 4, (n if v >= 0 else -n) & 0xffffffff); e.mem.store(a + 8, 8, d)
def s64(x): return x - (1 << 64) if x >> 63 else x
def s32(x): return x - (1 << 32) if x >> 31 else x
def tq(a, b):
    if b == 0: raise Unsupported('mpz division by zero')
    q = abs(a)//abs(b)
    return q if (a < 0) == (b < 0) else -q
def reg(n, f): EXT['__gmpz_' + n] = f
def bin_(n, f):
    def h(e, a): put(e, a[0], f(get(e, a[1]), get(e, a[2])))
    reg(n, h)
def bin_ui(n, f):
    def h(e, a): put(e, a[0], f(get(e, a[1]), a[2]))
    reg(n, h)
reg('init', lambda e, a: put(e, a[0], 0))
reg('init2', lambda e, a: put(e, a[0], 0))
reg('init_set', lambda e, a: put(e, a[0], get(e, a[1])))
reg('set', lambda e, a: put(e, a[0], get(e, a[1])))
reg('init_set_ui', lambda e, a: put(e, a[0], a[1]))
reg('set_ui', lambda e, a: put(e, a[0], a[1]))
reg('init_set_si', lambda e, a: put(e, a[0], s64(a[1])))
reg('set_si', lambda e, a: put(e, a[0], s64(a[1])))
reg('clear', lambda e, a: None)
for n, f in (('add', lambda x, y: x + y), ('sub', lambda x, y: x - y), ('mul', lambda x, y: x * y), ('tdiv_q', tq), ('tdiv_r', lambda x, y: x - y*tq(x, y)),
             ('fdiv_q', lambda x, y: x // y), ('fdiv_r', lambda x, y: x % y), ('mod', lambda x, y: x % abs(y)), ('divexact', tq)): bin_(n, f)
for n, f in (('add_ui', lambda x, y: x + y), ('sub_ui', lambda x, y: x - y), ('mul_ui', lambda x, y: x * y), ('tdiv_q_2exp', lambda x, y: tq(x, 1 << y)), ('fdiv_q_2exp', lambda x, y: x >> y), ('mul_2exp', lambda x, y: x << y), ('pow_ui', lambda x, y: x ** y), ('mul_si', lambda x, y: x * s64(y)), ('fdiv_r_2exp', lambda x, y: x & ((1 << y) - 1)), ('tdiv_r_2exp', lambda x, y: x - (tq(x, 1 << y) << y))): bin_ui(n, f)
def tdiv_q_ui(e, a):
    x = get(e, a[1]); q = tq(x, a[2]); put(e, a[0], q); return abs(x - q*a[2])
reg('tdiv_q_ui', tdiv_q_ui)
def tdiv_r_ui(e, a):
    x = get(e, a[1]); r = x - a[2]*tq(x, a[2]); put(e, a[0], r); return abs(r)
reg('tdiv_r_ui', tdiv_r_ui)
reg('tdiv_ui', lambda e, a: abs(get(e, a[0]) - a[1]*tq(get(e, a[0]), a[1])))
reg('fdiv_ui', lambda e, a: get(e, a[0]) % a[1])
def cmp(x, y): return (x > y) - (x < y)
reg('cmp', lambda e, a: cmp(get(e, a[0]), get(e, a[1])) & 0xffffffff)
reg('cmp_ui', lambda e, a: cmp(get(e, a[0]), a[1]) & 0xffffffff)
reg('cmp_si', lambda e, a: cmp(get(e, a[0]), s64(a[1])) & 0xffffffff)
reg('abs', lambda e, a: put(e, a[0], abs(get(e, a[1]))))
reg('neg', lambda e, a: put(e, a[0], -get(e, a[1])))
reg('tstbit', lambda e, a: (get(e, a[0]) >> a[1]) & 1)
reg('setbit', lambda e, a: put(e, a[0], get(e, a[0]) | (1 << a[1])))
reg('clrbit', lambda e, a: put(e, a[0], get(e, a[0]) & ~(1 << a[1])))
reg('sizeinbase', lambda e, a: max(1, get(e, a[0]).bit_length()) if a[1] == 2 else _bad())
reg('size', lambda e, a: (abs(get(e, a[0])).bit_length() + 63)//64)
reg('getlimbn', lambda e, a: (abs(get(e, a[0])) >> (64*a[1])) & M)
reg('get_ui', lambda e, a: abs(get(e, a[0])) & M)
reg('fits_ulong_p', lambda e, a: int(0 <= get(e, a[0]) <= M))
def _bad(): raise Unsupported('mpz_sizeinbase')
def limbs_write(e, a):
    n = a[1]
    d = e.mem.alloc(8*max(n, 1), 'mpz limbs', 'gmp')
    e.mem.store(a[0], 4, max(n, 1)); e.mem.store(a[0] + 8, 8, d)
    return d
reg('limbs_write', limbs_write)
def limbs_finish(e, a):
    n = s64(a[1]); d = e.mem.load(a[0] + 8, 8)
    k = abs(n)
    while k and e.mem.load(d + 8*(k-1), 8) == 0: k -= 1
    e.mem.store(a[0] + 4, 4, (k if n >= 0 else -k) & 0xffffffff)
reg('limbs_finish', limbs_finish)
def set_str(e, a):
    t = e.mem.cstr(a[1]).decode()
    try: v = int(t.replace(' ', ''), s32(a[2]))
    except ValueError: return 0xffffffff
    put(e, a[0], v); return 0
reg('set_str', set_str)
def init_set_str(e, a):
    put(e, a[0], 0); return set_str(e, a)
reg('init_set_str', init_set_str)
reg('powm', lambda e, a: put(e, a[0], pow(get(e, a[1]), get(e, a[2]), get(e, a[3]))))
