"""Contracts on functions of /repo, their deductive check (symbolic, all paths, all
values) and their bounded run-time check (the same contract evaluated on the natively
compiled code).  One Python text of each contract serves both."""
import os, sys, re, json, time, random, struct, subprocess, tempfile, signal, traceback, hashlib
import multiprocessing as mp
from . import ir, terms as T, engine as EN, fe as FEM, build as BD
from .terms import Term
from .poly import Poly
from .engine import Engine, Unsupported, CheckFail, PathLimit, Infeasible, fez
VERIF = BD.VERIF
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')

# ------------------------------------------------------------ concrete field values
class Fp:
    __slots__ = ('p', 'v')
    def __init__(s, p, v): s.p = p; s.v = v % p
    def _c(s, o): return o.v if isinstance(o, Fp) else o
    def __add__(s, o): return Fp(s.p, s.v + s._c(o))
    __radd__ = __add__
    def __sub__(s, o): return Fp(s.p, s.v - s._c(o))
    def __rsub__(s, o): return Fp(s.p, s._c(o) - s.v)
    def __mul__(s, o): return Fp(s.p, s.v * s._c(o))
    __rmul__ = __mul__
    def __neg__(s): return Fp(s.p, -s.v)
    def __int__(s): return s.v
    def __pow__(s, n): return Fp(s.p, pow(s.v, n, s.p))
    def __eq__(s, o): return s.v == (s._c(o) % s.p)
    def __hash__(s): return hash((s.p, s.v))
    def __repr__(s): return hex(s.v)

class Fx:
    """concrete element of a degree-2 extension (ExtField model)"""
    __slots__ = ('m', 'v')
    def __init__(s, m, v): s.m = m; s.v = m.fin(v)
    def _c(s, o): return o.v if isinstance(o, Fx) else s.m.fin(o)
    def __add__(s, o): return Fx(s.m, tuple(a + b for a, b in zip(s.v, s._c(o))))
    __radd__ = __add__
    def __sub__(s, o): return Fx(s.m, tuple(a - b for a, b in zip(s.v, s._c(o))))
    def __rsub__(s, o): return Fx(s.m, tuple(a - b for a, b in zip(s._c(o), s.v)))
    def __mul__(s, o): return Fx(s.m, tuple(s.m.t.mul(s.v, s._c(o))))
    __rmul__ = __mul__
    def __neg__(s): return Fx(s.m, tuple(-a for a in s.v))
    def __pow__(s, n):
        r = Fx(s.m, 1); b = s
        while n:
            if n & 1: r = r * b
            b = b * b; n >>= 1
        return r
    def __eq__(s, o): return s.v == s._c(o)
    def __hash__(s): return hash(s.v)
    def __repr__(s): return '(%s)' % ','.join(map(hex, s.v))
def conc(m, v): return Fx(m, v) if m.ext else Fp(m.p, v)

INTW = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'f64': 64, 'f32': 32}

class Arg:
    __slots__ = ('name', 'ty', 'n', 'scalar', 'size', 'model', 'w')
    def __init__(s, txt):
        m = re.match(r'([\w\']+):([\w.\-]+)(?:\*(\d+))?$', txt)
        if not m: raise ValueError(txt)
        s.name, s.ty = m.group(1), m.group(2)
        s.scalar = m.group(3) is None
        s.n = int(m.group(3) or 1)
        if s.ty in INTW: s.model = None; s.w = INTW[s.ty]; s.size = s.w // 8
        else: s.model = FEM.FIELDS[s.ty]; s.size = s.model.size; s.w = None

def parse_args(txt):
    l, _, r = txt.partition('->')
    f = lambda t: [Arg(x) for x in t.replace(',', ' ').split()]
    return f(l), f(r)

CONTRACTS = []
class Contract:
    def __init__(s, name, harness, fn, args, post, **k):
        s.name = name; s.harness = harness; s.fn = fn
        s.ins, s.outs = parse_args(args)
        s.post = post
        s.pre = k.pop('pre', None)            # pre(x): adds assumptions (symbolic) / returns False (concrete)
        s.fix = k.pop('fix', {})              # concrete values for some inputs
        s.gen = k.pop('gen', None)            # gen(rng, i) -> partial concrete inputs
        s.n = k.pop('n', 60)                  # bounded run-time samples
        s.nt = k.pop('nt', None)              # ... thorough
        s.sym = k.pop('sym', True)            # deductive check
        s.nat = k.pop('nat', True)
        s.param = k.pop('param', None)        # param(x): symbolic input values {arg: [poly]} covering the precondition
        s.bound = k.pop('bound', None)        # text: what is bounded (sizes); None = none
        s.handlers = k.pop('handlers', None)
        s.timeout = k.pop('timeout', 200)
        s.max_paths = k.pop('max_paths', 3000)
        s.cls = k.pop('cls', None) or Engine
        s.run = k.pop('run', None)            # custom symbolic driver run(suite, contract, engine) -> Result dict
        s.covers = k.pop('covers', None)      # text: functions under contract
        s.whynot = k.pop('whynot', None)      # reason for sym=False
        s.tmo = k.pop('tmo', 30)
        s.thorough = k.pop('thorough', False) # only in the thorough tier
        s.only_ir = k.pop('only_ir', False)
        s.zb = k.pop('zb', None) or {}        # integer back end: {int array arg: exclusive bound of every element}
        s.zpre = k.pop('zpre', None)          # integer back end: {int array arg: exclusive bound of the number it holds}
        s.lanes = k.pop('lanes', 0)           # integer back end: outputs are vectors, one proof per lane
        s.znum = k.pop('znum', None)          # integer back end: int array outputs read as one number
        if k: raise TypeError(str(k))
        s.names = []
        s.all = []
        for a in s.ins: s.all.append(a)
        for a in s.outs:
            if not any(b.name == a.name for b in s.ins): s.all.append(a)

class Ctx:
    """view of one call: inputs and outputs; obligations"""
    def __init__(s, con):
        s._con = con; s.sym = False; s.nob = 0; s.fails = []; s.unknown = []; s.labels = {}
    def _lab(s, label):
        label = label or 'post'
        k = s.labels[label] = s.labels.get(label, 0) + 1
        return label if k == 1 else '%s#%d' % (label, k)

class ConcCtx(Ctx):
    sym = False
    def __init__(s, con):
        Ctx.__init__(s, con); s.sym = False
    def const(s, m, v): return conc(m, v)
    def eq(s, a, b, label=None):
        if isinstance(a, (list, tuple)):
            if len(a) != len(b): s.nob += 1; s.fails.append((s._lab(label), 'length')); return
            for i, (x, y) in enumerate(zip(a, b)): s.eq(x, y, '%s[%d]' % (label or 'post', i))
            return
        s.nob += 1
        lab = s._lab(label)
        if isinstance(a, Fx) or isinstance(b, Fx):
            if not isinstance(a, Fx): a = Fx(b.m, a)
            x, y = a.v, a._c(b)
        elif isinstance(a, Fp) or isinstance(b, Fp):
            p = a.p if isinstance(a, Fp) else b.p
            x = a.v if isinstance(a, Fp) else a % p
            y = b.v if isinstance(b, Fp) else b % p
        else: x, y = a, b
        if x != y: s.fails.append((lab, 'got %s, contract says %s' % (hx(x), hx(y))))
    def zero(s, a, label=None): s.eq(a, 0, label)
    def true(s, c, label=None):
        s.nob += 1
        lab = s._lab(label)
        if not c: s.fails.append((lab, 'false'))
    def isz(s, a): return a == 0
    def test(s, c): return bool(c)
    def inv(s, a): return Fx(a.m, a.m.kinv(a.v)) if isinstance(a, Fx) else Fp(a.p, pow(a.v, -1, a.p))
    def nz(s, a, label=None): s.true(a != 0, label)
    z = False
    def below(s, a, n, label=None): s.true(0 <= int(a) < n, label or 'range')
    def bits(s, ret, conds):
        for i, c in enumerate(conds): s.eq((ret >> i) & 1, int(bool(c)), 'bit %d' % i)
    def congruent(s, a, b, n, label=None): s.eq(int(a) % n, int(b) % n, label)
    def eqc(s, a, b): return a == b
    def ltc(s, a, b): return int(a) < int(b)
def hx(x): return hex(x) if isinstance(x, int) else str(tuple(map(hex, x))) if isinstance(x, tuple) else str(x)

class SymCtx(Ctx):
    def __init__(s, con, e):
        Ctx.__init__(s, con); s.eng = e; s.sym = True
    def const(s, m, v): return m.kpoly(v)
    def nz(s, f, label=None):
        s.nob += 1; lab = s._lab(label)
        F_ = s.eng.facts_for(f.r)
        if not F_.nonzero(f): s.fails.append((lab, 'not provably non-zero: %s' % str(f)[:200]))
    def eq(s, a, b, label=None):
        if isinstance(a, (list, tuple)):
            if len(a) != len(b): s.nob += 1; s.fails.append((s._lab(label), 'length')); return
            for i, (x, y) in enumerate(zip(a, b)): s.eq(x, y, '%s[%d]' % (label or 'post', i))
            return
        if isinstance(a, Poly) or isinstance(b, Poly):
            return s.zero(a - b if isinstance(a, Poly) else b - a, label)
        if hasattr(a, 'abs_eq') or hasattr(b, 'abs_eq'):
            s.nob += 1; lab = s._lab(label)
            r = a.abs_eq(b, s.eng) if hasattr(a, 'abs_eq') else b.abs_eq(a, s.eng)
            if not r: s.fails.append((lab, 'got %r, contract says %r' % (a, b)))
            return
        s.true(T.eq(a, b), label)
    def zero(s, f, label=None):
        s.nob += 1
        lab = s._lab(label)
        if isinstance(f, int): ok = f == 0
        else: ok = s.eng.facts_for(f.r).prove_zero(f)
        if not ok:
            pc = ', '.join('%s%s0' % (str(EN.FEZ[c.args[0]][1])[:80], '=' if v else '!=') for c, v in s.eng.pc if isinstance(c, Term) and c.op == 'fez')[:400]
            s.fails.append((lab, 'not identically satisfied on path {%s}; difference: %s' % (pc, str(f)[:300])))
    def true(s, c, label=None):
        s.nob += 1
        lab = s._lab(label)
        if not isinstance(c, Term):
            if not c: s.fails.append((lab, 'false on this path'))
            return
        if EN.has_fe(c):
            r = s.eng.decide(c)
            if not r: s.fails.append((lab, 'does not hold on a path'))
            return
        q = s.eng.quick(c)
        if q is True: return
        r = s.eng.check_sat(c, False)
        if r == 'unknown': r = s.eng.check_bb(c, False)
        if r == 'unsat': return
        if r == 'unknown': s.unknown.append(lab); return
        s.fails.append((lab, 'counterexample', s.model()))
    def model(s):
        m = s.eng.solver().model()
        return {str(d): m[d].as_long() for d in m.decls() if hasattr(m[d], 'as_long')}
    def isz(s, f):
        if isinstance(f, int): return f == 0
        return s.eng.decide(fez_of(s.eng, f))
    def test(s, c): return s.eng.decide(c)
    def inv(s, f):
        m = f.r.model
        v = FEM.inverse(s.eng, m, f)
        if v is None: raise Infeasible()
        return v
    def assume(s, c, v=True): s.eng.assume(c, v)
    def assume_zero(s, f): s.eng.assume(fez_of(s.eng, f))
    def assume_nonzero(s, f): s.eng.assume(fez_of(s.eng, f), False)
def fez_of(e, f):
    m = f.r.model
    return fez(m, f)

# ------------------------------------------------------------------ symbolic check
def sym_inputs(e, con, x=None):
    vals = {}; addrs = {}
    pv = con.param(x) if con.param else {}
    for a in con.all:
        addrs[a.name] = e.mem.alloc(max(1, a.size * a.n), 'arg ' + a.name)
    for a in con.ins:
        out = []
        for i in range(a.n):
            nm = a.name if a.scalar else '%s%d' % (a.name, i)
            ad = addrs[a.name] + a.size * i
            if a.name in pv:
                v = pv[a.name]
                if not a.scalar: v = v[i]
                if a.model:
                    if not isinstance(v, Poly): v = a.model.kpoly(v)
                    FEM.write_fe(e, a.model, ad, v)
                else: e.mem.store(ad, a.size, v)
            elif a.name in con.fix:
                v = con.fix[a.name][i]
                if a.model: v = a.model.kpoly(v); FEM.write_fe(e, a.model, ad, v)
                else: e.mem.store(ad, a.size, v)
            elif a.model:
                v = a.model.sym(nm); FEM.write_fe(e, a.model, ad, v)
            else:
                v = T.var('%s[%d]' % (a.name, i), a.w); e.mem.store(ad, a.size, v)
            out.append(v)
        vals[a.name] = out[0] if a.scalar else out
    return vals, addrs

def set_ctx(x, con, vals, outs, ret):
    for a in con.ins: setattr(x, a.name, vals[a.name])
    for a in con.outs:
        nm = a.name + '_o' if any(b.name == a.name for b in con.ins) else a.name
        setattr(x, nm, outs[a.name])
    x.ret = ret

def prove(con, e):
    """all paths of the function under the contract"""
    t0 = time.time()
    res = dict(name=con.name, paths=0, nob=0, nok=0, fails=[], unknown=[], reason=None)
    e.max_paths = con.max_paths
    cm = CtxManager = None
    def body():
        x = SymCtx(con, e)
        vals, addrs = sym_inputs(e, con, x)
        for k, v in vals.items(): setattr(x, k, v)
        if con.pre:
            con.pre(x)
        try:
            ret = e.call('@' + con.fn, [addrs[a.name] for a in con.all])
            outs = {}
            for a in con.outs:
                o = []
                for i in range(a.n):
                    ad = addrs[a.name] + a.size * i
                    if a.model: o.append(FEM.read_fe(e, a.model, ad))
                    else:
                        v = e.mem.load(ad, a.size)
                        if isinstance(v, (EN.FE, EN.Frag, EN.Tup)): raise Unsupported('abstract value in integer output')
                        o.append(v)
                outs[a.name] = o[0] if a.scalar else o
        except CheckFail as f:
            x.nob += 1
            mdl = None
            if e.pc and all(not EN.has_fe(c) for c, v in e.pc) and not e.no_solver:
                s = e.solver()
                r = str(s.check())
                if r == 'unsat': raise Infeasible()
                if r == 'sat': mdl = x.model()
            pcs = ', '.join('%s%s0' % (str(EN.FEZ[c.args[0]][1])[:80], '=' if v else '!=') for c, v in e.pc if isinstance(c, Term) and c.op == 'fez')[:400]
            x.fails.append(('safe', str(f) + ' on path {' + pcs + '}', mdl) if mdl is not None else ('safe', str(f) + ' on path {' + pcs + '}'))
            return x
        x.nob += 1      # no failing access / abort on this path
        set_ctx(x, con, vals, outs, ret)
        con.post(x)
        return x
    try:
        for x in e.paths(body):
            res['paths'] += 1
            res['nob'] += x.nob; res['nok'] += x.nob - len(x.fails) - len(x.unknown)
            res['fails'] += [list(f) for f in x.fails[:4]]
            res['unknown'] += x.unknown
            if len(res['fails']) > 12: break
        st = 'failed' if res['fails'] else 'undecided' if res['unknown'] else 'proved'
        if st == 'undecided': res['reason'] = 'solver answered unknown on ' + ', '.join(res['unknown'][:5])
        if res['paths'] == 0: st = 'undecided'; res['reason'] = 'vacuous: no feasible path'
    except (Unsupported, PathLimit, NotImplementedError, OverflowError, RecursionError) as ex:
        st = 'failed' if res['fails'] else 'undecided'
        res['reason'] = '%s: %s' % (type(ex).__name__, str(ex)[:300])
    except MemoryError:
        st = 'undecided'; res['reason'] = 'out of memory'
    res['status'] = st
    res['time'] = time.time() - t0
    res['solver_time'] = e.solver_time; res['solver_queries'] = e.solver_queries
    res['steps'] = e.steps
    res['used'] = sorted(e.used); res['executed'] = [d for d in e.executed if 'tachyon' in d][:400]
    return res

# -------------------------------------------------------------------- native check
class Native:
    def __init__(s, exe): s.exe = exe
    def run(s, reqs, tmo=30, total=600):
        """reqs: list of (fn, [bytes]); returns list of (status, ret, [bytes]); status 'crash' possible"""
        out = []
        i = 0
        crashes = 0
        while i < len(reqs):
            d = tempfile.mkdtemp(prefix='tvc')
            rq, rs = os.path.join(d, 'q'), os.path.join(d, 's')
            with open(rq, 'wb') as f:
                f.write(enc_req('tvc_init', []))
                for fn, bufs in reqs[i:]: f.write(enc_req(fn, bufs))
            try:
                p = subprocess.run([s.exe, rq, rs, 'q', str(tmo)], timeout=total, stdin=subprocess.DEVNULL, cwd=d)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            data = open(rs, 'rb').read() if os.path.exists(rs) else b''
            for nm in os.listdir(d): os.unlink(os.path.join(d, nm))
            os.rmdir(d)
            off = 0
            first = True
            n0 = len(out)
            seq = [('tvc_init', [])] + reqs[i:]
            for fn, bufs in seq:
                need = 12 + sum(len(b) for b in bufs)
                if off + need > len(data): break
                st, ret = struct.unpack_from('<IQ', data, off); off += 12
                bs = []
                for b in bufs:
                    bs.append(data[off:off+len(b)]); off += len(b)
                if first: first = False; continue
                out.append((st, ret, bs))
            i += len(out) - n0
            if i < len(reqs):
                if first: raise RuntimeError('native driver does not start (rc %s)' % rc)
                out.append(('crash' if rc != 'timeout' and rc != -signal.SIGALRM else 'timeout', rc, []))
                i += 1; crashes += 1
                if crashes > 8: break
        return out
def enc_req(fn, bufs):
    b = fn.encode()
    r = struct.pack('<I', len(b)) + b + struct.pack('<I', len(bufs))
    return r + b''.join(struct.pack('<I', len(x)) + x for x in bufs)

def edge_fe(m, rng):
    if m.ext: return (0, 0) if rng.random() < .1 else (edge_fe(m.base, rng), edge_fe(m.base, rng))
    k = rng.random()
    p = m.p
    if k < 0.45: return rng.randrange(p)
    if k < 0.75: return rng.choice([0, 1, p - 1, 2, p - 2, (p - 1)//2, (p + 1)//2, 3, p - 3])
    # structured raw representations
    n = m.size * 8
    raw = 0
    for i in range(0, n, 32): raw |= rng.choice([0, 2**32 - 1, 1, 2**31, rng.getrandbits(32)]) << i
    if k < 0.9: return m.dec(raw % p)
    return rng.choice([m.dec(p - 1 - rng.randrange(4)), m.dec(rng.randrange(4)), rng.randrange(1 << rng.randrange(1, p.bit_length())) % p])
def edge_int(w, rng):
    k = rng.random()
    if k < 0.4: return rng.getrandbits(w)
    if k < 0.6: return rng.choice([0, 1, 2, 3, (1 << w) - 1, (1 << w) - 2, 1 << (w-1), (1 << (w-1)) - 1])
    if k < 0.8: return rng.getrandbits(rng.randrange(1, w + 1))
    return ((1 << rng.randrange(w + 1)) - rng.randrange(3)) & ((1 << w) - 1)

def conc_inputs(con, rng, i):
    part = con.gen(rng, i) if con.gen else None
    part = part or {}
    vals = {}
    for a in con.ins:
        if con.zpre and a.name in con.zpre and a.name not in part:
            b = con.zpre[a.name]
            part[a.name] = rng.choice([0, 1, 2, b-1, b-2, b//2, b//2+1]) if rng.random() < .3 else rng.randrange(b) if rng.random() < .7 else rng.randrange(min(b, 1 << rng.randrange(1, 64)))
        if con.zpre and a.name in con.zpre and isinstance(part[a.name], int):
            part[a.name] = [(part[a.name] >> (a.w*j)) & ((1 << a.w) - 1) for j in range(a.n)]
        if a.name in part:
            v = part[a.name]
            v = [v] if a.scalar and not isinstance(v, (list, tuple)) else list(v)
            if len(v) != a.n: raise ValueError('%s: gen gave %d values for %s' % (con.name, len(v), a.name))
        elif a.name in con.fix: v = list(con.fix[a.name])
        else:
            v = [edge_fe(a.model, rng) if a.model else edge_int(a.w, rng) for _ in range(a.n)]
        v = [x.v if isinstance(x, (Fp, Fx)) else x for x in v]
        vals[a.name] = [a.model.fin(x) if a.model else x & ((1 << a.w) - 1) for x in v]
    return vals
def conc_bufs(con, vals):
    bufs = []
    for a in con.all:
        if a.name in vals:
            bufs.append(b''.join((a.model.enc(v) if a.model else v).to_bytes(a.size, 'little') for v in vals[a.name]))
        else: bufs.append((b'\0' if a.model else b'\x5a') * (a.size * a.n))
    return bufs

def check_concrete(con, vals, reply):
    """evaluate the contract on one native run; returns (holds_pre, ctx)"""
    x = ConcCtx(con)
    cv = {}
    for a in con.ins:
        l = [conc(a.model, v) if a.model else v for v in vals[a.name]]
        cv[a.name] = l[0] if a.scalar else l
        if con.zpre and a.name in con.zpre: cv[a.name] = joinw(l, a.w)
        setattr(x, a.name, cv[a.name]); setattr(x, a.name + '_raw', cv[a.name])
    if con.pre and con.pre(x) is False: return False, x
    st, ret, bufs = reply
    if st == 'timeout': x.nob += 1; x.fails.append(('terminates', 'no result within the time limit')); return True, x
    if st == 'crash': x.nob += 1; x.fails.append(('safe', 'process ended with %s' % ret)); return True, x
    if st == 1: raise RuntimeError('no such harness function ' + con.fn)
    if st == 2: x.nob += 1; x.fails.append(('safe', 'buffer overrun'))
    outs = {}
    for a, b in zip(con.all, bufs):
        if not any(o.name == a.name for o in con.outs): continue
        o = []
        for i in range(a.n):
            raw = int.from_bytes(b[i*a.size:(i+1)*a.size], 'little')
            if a.model:
                if not a.model.rawok(raw): x.nob += 1; x.fails.append(('canonical %s[%d]' % (a.name, i), hex(raw)))
                o.append(conc(a.model, a.model.dec(raw)))
            else: o.append(raw)
        outs[a.name] = o[0] if a.scalar else o
        if con.znum and a.name in con.znum: outs[a.name] = joinw(o, a.w)
    set_ctx(x, con, cv, outs, ret)
    con.post(x)
    return True, x

def joinw(l, w): return sum(v << (w*i) for i, v in enumerate(l))

def native(con, nat, n, seed):
    rng = random.Random('%s|%s|%d' % (con.name, con.fn, seed))
    t0 = time.time()
    ins = []
    tries = 0
    while len(ins) < n and tries < 4*n:
        tries += 1
        v = conc_inputs(con, rng, len(ins))
        if con.pre:
            x = ConcCtx(con)
            for a in con.ins:
                l = [conc(a.model, q) if a.model else q for q in v[a.name]]
                setattr(x, a.name, joinw(l, a.w) if con.zpre and a.name in con.zpre else l[0] if a.scalar else l)
            if con.pre(x) is False: continue
        ins.append(v)
    rep = nat.run([(con.fn, conc_bufs(con, v)) for v in ins], tmo=con.tmo)
    res = dict(name=con.name, runs=0, distinct=0, nob=0, fails=[])
    seen = set()
    for v, r in zip(ins, rep):
        ok, x = check_concrete(con, v, r)
        if not ok: continue
        res['runs'] += 1; res['nob'] += x.nob
        k = hashlib.sha1(repr(sorted(v.items())).encode()).digest()
        if k not in seen: seen.add(k); res['distinct'] += 1
        if x.fails and len(res['fails']) < 3: res['fails'].append(dict(inputs=v, fails=[list(map(str, f)) for f in x.fails[:6]], reply=[str(r[0]), str(r[1]), [b.hex() for b in r[2]]]))
    if ins: res['sample'] = {k: [hx(q) for q in v[:8]] for k, v in ins[0].items()}
    res['time'] = time.time() - t0
    return res
