"""C07: encodings: buffers, JSON and text."""
import random
from tvc.suite import Suite
from tvc.fe import *
from tvc.bv import BV, cat
S = Suite('C07', 'bounded', assumptions=['rapidjson and absl string conversions (third-party) meet their documentation'], trusted=['rapidjson, absl and GMP (third-party)'])
OB = lambda *a: ['tachyon/math/elliptic_curves/%s/_objs/%s_config/%s_config.o' % (d, f, f) for d in a for f in ('fq', 'fr')]
S.h('codec', ir=False, objs=OB('bn/bn254') + ['tachyon/math/finite_fields/%s/internal/_objs/%s_config/%s_config.o' % (d, f, f) for d, f in (('baby_bear', 'baby_bear'), ('koala_bear', 'koala_bear'), ('goldilocks', 'goldilocks'))])
import re, os
SRC = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'codec.cc')).read()
TYPES = [(m[1], m[0] == "J") for m in re.findall(r"\b([JC])\((\w+), (?!\.\.\.)", SRC.split("#define J(name")[1].split("\n", 1)[1])]
E64 = [0, 1, 2, 5, 6, 7, 1 << 7, 1 << 15, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) - 1, 1 << 63, (1 << 64) - 1]
def words(rng, i): return [rng.choice(E64) if rng.random() < (0.5 if i % 2 else 0.1) else rng.randrange(1 << 64) for _ in range(64)]
LB = ['is written', 'takes the estimated size', 'is read back', 'is read whole', 'is refused when cut short', 'is written the same to memory of its size', 'is not written past the end of its memory', 'is written and read between other values']
LJ = ['is read back from JSON', 'cut JSON is refused', 'JSON of another shape is refused']
for t, j in TYPES:
    for m in (0, 1, 2):
        def post(x):
            for i, l in enumerate(LB): x.true(x.ret >> i & 1, l)
        S.c('cod_%s %s' % (t, ('native', 'little endian', 'big endian')[m]), 'codec', 'cod_' + t, 'm:u64 w:u64*64', post, fix={'m': [m]}, gen=lambda rng, i: {'w': words(rng, i)}, sym=False, n=24, bound='random values and lengths')
    if j:
        def post(x):
            for i, l in enumerate(LJ): x.true(x.ret >> i & 1, l)
        S.c('js_' + t, 'codec', 'js_' + t, 'w:u64*64', post, gen=lambda rng, i: {'w': words(rng, i)}, sym=False, n=24, bound='random values and lengths')
# ---- bytes
S.h('bufs', objs=['tachyon/math/elliptic_curves/bn/bn254/_objs/fr_config/fr_config.o', 'tachyon/math/finite_fields/baby_bear/internal/_objs/baby_bear_config/baby_bear_config.o'])
EN = ('native', 'little endian', 'big endian')
def by(v, n, big):
    r = [(v >> 8*i & 255) for i in range(n)]
    return r[::-1] if big else r
def lst(v): return list(v) if isinstance(v, (list, tuple)) else [v]
LAYOUT = [(0, 2, None), (1, 4, None), (2, 8, None), (3, 1, None), (4, 8, 1), (5, 4, 0), (6, 2, 1), (4, 8, 0), (5, 4, 1), (6, 2, 0)]
def eqv(x, got, want, label=None): x.true(got.eq(want), label)
def word(b, big): return cat(list(b)[::-1] if big else list(b), 8)
def ints(m, be=None):
    def post(x):
        w = lst(x.w); out = lst(x.out); at = 3; x.eq(x.ret, 46, 'length of the buffer')
        for i, n, big in LAYOUT: eqv(x, word(out[at:at+n], m == 2 if big is None else big), BV(w[i], 64).ext(8*n), 'bytes of the integers'); at += n
    S.c('buf_ints ' + EN[m], 'bufs', 'buf_ints', 'm:u64 w:u64*7 -> out:u8*46', post, fix={'m': [m]}, n=30, bound='one sequence of integers, all values')
def reads(m, n):
    def post(x):
        b = lst(x.in_); at = 3; out = []; w = lst(x.w)
        for i, k, big in LAYOUT: out.append((word(b[at:at+k], m == 2 if big is None else big), at + k <= n)); at += k
        tot = [all(o[1] for o in out[:4]), all(o[1] for o in out[:7]), all(o[1] for o in out)]
        x.eq(x.ret, 3 if tot[2] else 2 if tot[1] else 1 if tot[0] else 0, 'reads fail exactly past the end')
        for k, (v, ok) in enumerate(out):
            if ok and (k < 4 or (k < 7 and tot[0]) or tot[1]): eqv(x, BV(w[k], 64), v.ext(64) if LAYOUT[k][1] < 8 else v, 'integer read back')
    S.c('buf_read %s n=%d' % (EN[m], n), 'bufs', 'buf_read', 'm:u64 n:u64 in_:u8*46 -> w:u64*10', post, fix={'m': [m], 'n': [n]}, n=10, bound='one sequence of integers, all values')
for m in (0, 1, 2):
    ints(m)
    for n in (46, 45, 44, 40, 39, 17, 16, 5, 4, 0): reads(m, n)
FS = {'fr': 'bn254.Fr', 'babybear': 'baby_bear', 'mersenne31': 'mersenne31'}
def fcon(t, f, mont, m):
    F = FIELDS[f]; n = 32 if t == 'fr' else 4; R = F.R or 1
    def post(x):
        want = []
        for v in lst(x.v):
            v = int(v)*(R if mont else 1) % F.p
            # limbs in order, each with the bytes of the buffer
            want += [b for i in range(n // min(n, 8)) for b in by(v >> 64*i & ((1 << 64) - 1), min(n, 8), m == 2)]
        x.eq(x.ret, 2*n, 'length of two elements')
        for a, b in zip(lst(x.out), want): x.eq(a, b, 'bytes of the elements')
    S.c('fw_%s %s%s' % (t, EN[m], ' Montgomery' if mont else ''), 'bufs', 'fw_' + t, 'm:u64 e:u64 v:%s*2 -> out:u8*%d' % (f, 2*n), post, fix={'m': [mont], 'e': [m]}, sym=False, n=16, bound='two elements')
    def post(x):
        x.eq(x.ret, 1, 'read back')
        for a, b in zip(lst(x.r), lst(x.v)): x.eq(a, b, 'element read back')
    S.c('frw_%s %s%s' % (t, EN[m], ' Montgomery' if mont else ''), 'bufs', 'frw_' + t, 'm:u64 e:u64 v:%s*2 -> r:%s*2' % (f, f), post, fix={'m': [mont], 'e': [m]}, sym=t == 'fr' and not (mont and m == 2) or t == 'babybear' and mont == 1 and m < 2, n=16, bound='two elements')
    def post(x):
        b = lst(x.in_); k = min(2, x.n // n); x.eq(x.ret, k, 'elements that fit')
        for j in range(k):
            v = 0
            for i in range(n // min(n, 8)):
                c = b[j*n + 8*i:j*n + 8*i + min(n, 8)]; v += sum(q << 8*z for z, q in enumerate(c[::-1] if m == 2 else c)) << 64*i
            x.eq(lst(x.r)[j], v*pow(R, -1, F.p) % F.p if mont else v, 'element of the bytes')
    def gen(rng, i):
        b = []
        for _ in range(2):
            v = rng.choice([0, 1, F.p - 1, rng.randrange(F.p), rng.randrange(F.p)]); b += [q for i in range(n // min(n, 8)) for q in by(v >> 64*i & ((1 << 64) - 1), min(n, 8), m == 2)]
        b += [0]*(2*n - len(b)); return {'in_': b, 'n': [2*n if i % 2 else rng.randrange(2*n)]}
    S.c('fr_%s %s%s' % (t, EN[m], ' Montgomery' if mont else ''), 'bufs', 'fr_' + t, 'm:u64 e:u64 n:u64 in_:u8*%d -> r:%s*2' % (2*n, f), post, fix={'m': [mont], 'e': [m]}, gen=gen, sym=False, n=16, bound='two elements')
for t, f in FS.items():
    for mont in (0, 1):
        for m in (0, 1, 2): fcon(t, f, mont, m)
# ---- fields as JSON and text
ALLF = {'fr': 'bn254.Fr', 'fq': 'bn254.Fq', 'goldilocks': 'goldilocks', 'babybear': 'baby_bear', 'koalabear': 'koala_bear', 'mersenne31': 'mersenne31'}
txt = lambda v: bytes(lst(v)).split(b'\0')[0].decode()
def ftext(t, f):
    F = FIELDS[f]; small = F.p < 1 << 32; R = 1 if t == 'goldilocks' else F.R or 1  # Goldilocks is declared without Montgomery form
    for mont in (0, 1):
        def post(x, mont=mont):
            v = int(x.v)*(R if mont else 1) % F.p
            x.eq(x.ret, 1, 'read back from JSON'); x.true(txt(x.out) == (str(v) if small else '"%s"' % hex(v)), 'JSON of the value')
        S.c('fj_%s%s' % (t, ' Montgomery' if mont else ''), 'codec', 'fj_' + t, 'm:u64 v:%s -> out:u8*120' % f, post, fix={'m': [mont]}, sym=False, n=30, bound='random and edge values')
    for how in (0, 1, 2):
        def post(x, how=how):
            v = int(x.v); x.eq(x.ret, 1, 'read back from its text')
            x.true(txt(x.out) == (str(v), hex(v), '0x%0*x' % (8 if small else 16*(-(-F.p.bit_length()//64)), v))[how], 'text of the value')
        S.c('fs_%s %s' % (t, ('decimal', 'hexadecimal', 'padded hexadecimal')[how]), 'codec', 'fs_' + t, 'v:%s how:u64 -> out:u8*120' % f, post, fix={'how': [how]}, sym=False, n=30, bound='random and edge values')
    for h in (0, 1):
        def gen(rng, i, h=h):
            b = 16 if h else 10
            v = rng.choice([0, 1, F.p - 1, F.p, F.p + 1, (1 << F.p.bit_length()) - 1, rng.randrange(F.p), rng.randrange(F.p), rng.randrange(F.p)])
            s = ('%x' if h else '%d') % v
            if h and rng.random() < .4: s = '0x' + s
            if h and rng.random() < .3: s = s[:2] + s[2:].upper() if s.startswith('0x') else s.upper()
            if rng.random() < .25: s = rng.choice([s[:len(s)//2] + 'g' + s[len(s)//2:], s + 'z', '-' + s if v else s + '-', ''])
            return {'n': [len(s)], 't': list(s.encode().ljust(120, b'\0'))}
        def post(x, h=h):
            s = bytes(lst(x.t)[:int(x.n)]).decode(); d = s[2:] if h and s[:2] == '0x' else s
            ok = bool(re.fullmatch('[0-9a-fA-F]+' if h else '[0-9]+', d)) and int(d, 16 if h else 10) < F.p
            x.eq(x.ret, 1 if ok else 0, 'accepts exactly the numerals of the elements')
            if ok: x.eq(x.r, int(d, 16 if h else 10), 'element of the numeral')
        S.c('fp_%s %s' % (t, 'hexadecimal' if h else 'decimal'), 'codec', 'fp_' + t, 'hex:u64 n:u64 t:u8*120 -> r:' + f, post, fix={'hex': [h]}, gen=gen, sym=False, n=60, bound='random and edge numerals')
for t, f in ALLF.items(): ftext(t, f)
for m in (0, 1, 2):
    S.c('cod_move ' + EN[m], 'codec', 'cod_move', 'm:u64 w:u64*3', lambda x: x.eq(x.ret, 3, 'a moved buffer goes on where it was'), fix={'m': [m]}, sym=False, n=6, bound='random values')
