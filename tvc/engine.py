"""Symbolic executor for the IR of the real code.

* pointers are concrete 64-bit numbers (object id << 32 | offset); every access is
  bounds- and liveness-checked;
* integers are Python ints or Terms;
* abstract values (field elements: class FE; other abstract sorts) live in memory as
  cells; copying them limb-wise yields fragments that recombine;
* symbolic branches are decided by path enumeration: the run is re-executed once per
  feasible decision sequence (complete: all sequences are enumerated or the contract is
  reported as not decided);
* calls to functions under contract are intercepted by (demangled) name: the callee's
  contract is applied, its body is not looked at.
"""
import sys, struct, re, random, time
from . import ir, terms as T
from .terms import Term
from .poly import Ring, Poly, Facts
sys.setrecursionlimit(100000)

class Unsupported(Exception): pass
class Infeasible(Exception): pass
class CheckFail(Exception):
    """an obligation violated on a path: memory safety, reachable abort, ..."""
    def __init__(s, kind, msg): Exception.__init__(s, kind + ': ' + msg); s.kind = kind; s.msg = msg
class PathLimit(Exception): pass

class Abs:
    """abstract cell value; subclasses have .size (bytes)"""
    __slots__ = ('size',)

class FE(Abs):
    """field element: model + polynomial"""
    __slots__ = ('m', 'f')
    def __init__(s, m, f): s.m = m; s.f = f; s.size = m.size
    def __repr__(s): return 'FE<%s>(%r)' % (s.m.name, s.f)

class Frag:
    __slots__ = ('a', 'off', 'n')
    def __init__(s, a, off, n): s.a = a; s.off = off; s.n = n
    def __repr__(s): return 'Frag(%r,%d,%d)' % (s.a, s.off, s.n)

UNDEF = 0

class Obj:
    __slots__ = ('size', 'data', 'sym', 'own', 'name', 'alive', 'ro', 'kind')
    def __init__(s, size, name='', kind='heap'):
        s.size = size; s.data = bytearray(size); s.sym = {}; s.own = {}; s.name = name; s.alive = True; s.ro = False; s.kind = kind
    def copy(s):
        o = Obj.__new__(Obj)
        o.size = s.size; o.data = bytearray(s.data); o.sym = dict(s.sym); o.own = dict(s.own); o.name = s.name; o.alive = s.alive; o.ro = s.ro; o.kind = s.kind
        return o

_DBG = __import__("os").environ.get("TVC_DBG")
def subval(v, size, off, n):
    """bytes off..off+n of cell value v of `size` bytes"""
    if off == 0 and n == size: return v
    if isinstance(v, Term): return T.extract(v, 8*(off+n)-1, 8*off)
    if isinstance(v, Frag): return Frag(v.a, v.off + off, n)
    return Frag(v, off, n)

class Memory:
    def __init__(s):
        s.objs = {}
        s.next = 0x1000
    def alloc(s, size, name='', kind='heap'):
        i = s.next; s.next += 1
        s.objs[i] = Obj(size, name, kind)
        return i << 32
    def obj(s, addr, n, what):
        if not isinstance(addr, int): raise Unsupported('non-concrete address %r' % (addr,))
        o = s.objs.get(addr >> 32)
        if o is None:
            raise CheckFail('memory', '%s of %d bytes at invalid address %#x' % (what, n, addr))
        off = addr & 0xffffffff
        if not o.alive: raise CheckFail('memory', '%s of freed/dead object %s' % (what, o.name))
        if off + n > o.size: raise CheckFail('memory', '%s of %d bytes at offset %d of %s (size %d)' % (what, n, off, o.name, o.size))
        return o, off
    def load(s, addr, n):
        o, off = s.obj(addr, n, 'load')
        if not o.sym: return int.from_bytes(o.data[off:off+n], 'little')
        c = o.sym.get(off)
        if c is not None and c[0] == n: return c[1]
        own = o.own
        for k in range(off, off + n):
            if k in own: break
        else:
            return int.from_bytes(o.data[off:off+n], 'little')
        return combine(s.pieces(o, off, n), n)
    def pieces(s, o, off, n):
        out = []
        k = off; end = off + n
        own = o.own
        while k < end:
            st = own.get(k)
            if st is None:
                j = k + 1
                while j < end and j not in own: j += 1
                out.append((k - off, j - k, bytes(o.data[k:j])))
                k = j
            else:
                sz, v = o.sym[st]
                j = min(end, st + sz)
                out.append((k - off, j - k, subval(v, sz, k - st, j - k)))
                k = j
        return out
    def clear(s, o, off, n):
        own = o.own
        k = off; end = off + n
        while k < end:
            st = own.get(k)
            if st is None: k += 1; continue
            sz, v = o.sym.pop(st)
            for b in range(st, st + sz): del own[b]
            if st < off: s._put(o, st, off - st, subval(v, sz, 0, off - st))
            if st + sz > end: s._put(o, end, st + sz - end, subval(v, sz, end - st, st + sz - end))
            k = st + sz
    def _put(s, o, off, n, v):
        if isinstance(v, int):
            o.data[off:off+n] = v.to_bytes(n, 'little'); return
        o.sym[off] = (n, v)
        own = o.own
        for b in range(off, off + n): own[b] = off
    def store(s, addr, n, v):
        o, off = s.obj(addr, n, 'store')
        if o.ro: raise CheckFail('memory', 'store to constant %s' % o.name)
        if o.sym: s.clear(o, off, n)
        if type(v) is int:
            o.data[off:off+n] = v.to_bytes(n, 'little')
        else:
            if isinstance(v, Term) and v.w != 8*n: raise Unsupported('store width %d vs %d' % (v.w, 8*n))
            o.sym[off] = (n, v)
            own = o.own
            for b in range(off, off + n): own[b] = off
    def memcpy(s, dst, src, n):
        if n == 0: return
        o, off = s.obj(src, n, 'memcpy read')
        if not o.sym:
            d = bytes(o.data[off:off+n])
            p, poff = s.obj(dst, n, 'memcpy write')
            if p.ro: raise CheckFail('memory', 'write to constant %s' % p.name)
            if p.sym: s.clear(p, poff, n)
            p.data[poff:poff+n] = d
            return
        pc = s.pieces(o, off, n)
        p, poff = s.obj(dst, n, 'memcpy write')
        if p.ro: raise CheckFail('memory', 'write to constant %s' % p.name)
        if p.sym: s.clear(p, poff, n)
        for k, m, v in pc:
            if isinstance(v, bytes): p.data[poff+k:poff+k+m] = v
            else: s._put(p, poff + k, m, v)
        s.heal(p, poff, n)
    def heal(s, p, off, n): pass
    def memset(s, dst, byte, n):
        if n == 0: return
        p, off = s.obj(dst, n, 'memset')
        if p.sym: s.clear(p, off, n)
        if isinstance(byte, int): p.data[off:off+n] = bytes([byte]) * n
        else:
            for k in range(n): s._put(p, off + k, 1, byte)
    def free(s, addr):
        if addr == 0: return
        o = s.objs.get(addr >> 32)
        if o is None or addr & 0xffffffff: raise CheckFail('memory', 'free of invalid pointer %#x' % addr)
        if not o.alive: raise CheckFail('memory', 'double free of %s' % o.name)
        if o.kind != 'heap': raise CheckFail('memory', 'free of non-heap object %s' % o.name)
        o.alive = False; o.data = bytearray(0); o.sym = {}; o.own = {}
    def cstr(s, addr):
        out = bytearray()
        while True:
            b = s.load(addr, 1)
            if b == 0: return bytes(out)
            out.append(b); addr += 1

def combine(pc, n):
    if len(pc) == 1 and not isinstance(pc[0][2], bytes): return pc[0][2]
    # all Term/bytes?
    if all(isinstance(v, (bytes, Term)) for _, _, v in pc):
        r = None; rw = 0
        for _, m, v in pc:
            x = int.from_bytes(v, 'little') if isinstance(v, bytes) else v
            r = x if r is None else T.concat(x, 8*m, r, rw)
            rw += 8*m
        return r
    # fragments of one abstract value
    f0 = pc[0][2]
    if isinstance(f0, Frag):
        a = f0.a; o = f0.off; ok = True
        for _, m, v in pc:
            if not isinstance(v, Frag) or not same_abs(v.a, a) or v.off != o: ok = False; break
            o += m
        if ok:
            if f0.off == 0 and n == a.size: return a
            return Frag(a, f0.off, n)
    return Tup(pc)

class Tup:
    """a register holding a mixture of pieces (only moved around)"""
    __slots__ = ('pc',)
    def __init__(s, pc): s.pc = pc

def same_abs(a, b):
    return a is b or (isinstance(a, FE) and isinstance(b, FE) and a.m is b.m and a.f == b.f)

CARRY = re.compile(r'llvm\.(uadd|usub|umul|sadd|ssub|smul)\.with\.overflow\.i(\d+)')

class Engine:
    def __init__(self, mod, handlers=(), log=None, max_steps=40_000_000, max_paths=4000, z3_timeout=4000):
        self.mod = mod
        self.handlers = list(handlers)   # (compiled regex on demangled name, fn)
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.z3_timeout = z3_timeout
        self.hcache = {}
        self.used = {}          # contract name -> count (functions applied by contract)
        self.executed = {}      # function executed -> count
        self.steps = 0
        self.solver_time = 0.0
        self.solver_queries = 0
        self.mem0 = None
        self.fid = {}
        self.rfid = {}
        self.ext = dict(EXT)
        self.prefix = []
        self.taken = []
        self.work = None
        self.path_hook = None
        self.globaddr = {}
        self.merge_ok = None
        self.reset_path()
        self._init_globals()

    # ------------------------------------------------------------ globals
    def _init_globals(self):
        mem = self.mem = Memory()
        m = self.mod
        for n in m.funcs:
            self.faddr(n)
        for n, (t, init, const) in m.globals.items():
            ir.layout(t)
            a = mem.alloc(max(t.size, 1), n, 'global')
            self.globaddr[n] = a
        for n, v in m.aliases.items():
            pass
        for n, (t, init, const) in m.globals.items():
            if init is None or n.startswith('@llvm.'): continue
            self.store_val(self.globaddr[n], t, self.const(init, t))
            if const: mem.objs[self.globaddr[n] >> 32].ro = True
    def faddr(self, n):
        a = self.fid.get(n)
        if a is None:
            a = self.mem.alloc(1, 'fn ' + n, 'func')
            self.fid[n] = a; self.rfid[a] = n
        return a
    def gaddr(self, n):
        if n in self.globaddr: return self.globaddr[n]
        if n in self.fid: return self.fid[n]
        if n in self.mod.aliases: return self.const(self.mod.aliases[n], ir.PTR)
        raise Unsupported('unknown global ' + n)
    def const(self, v, t):
        k = v[0]
        if k == 'c': return v[1]
        if k == 'g': return self.gaddr(v[1])
        if k == 'gep':
            _, bt, base, idx = v
            a = self.const(base, ir.PTR)
            return self.gep(a, bt, [(it, self.const(iv, it)) for it, iv in idx])
        if k == 'agg':
            if t.k in ('arr', 'vec'): return [self.const(e, t.el) for e in v[1]]
            return [self.const(e, f) for e, f in zip(v[1], t.fields)]
        if k == 'cast':
            _, op, ft, x, tt = v
            x = self.const(x, ft)
            if op in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast', 'zext'): return x
            return self.cast(op, ft, tt, x)
        if k == 'bin':
            _, op, t1, a, b = v
            return self.binop(op, self.const(a, t1), self.const(b, t1), t1.bits)
        if k == 'icmp':
            _, pr, t1, a, b = v
            return self.icmp(pr, t1, self.const(a, t1), self.const(b, t1))
        raise Unsupported('const ' + k)
    def store_val(self, addr, t, v):
        k = t.k
        if k == 'arr':
            es = t.el.size
            if t.el.k == 'i' and t.el.bits == 8 and all(type(x) is int for x in v):
                o, off = self.mem.obj(addr, len(v), 'store')
                if o.sym: self.mem.clear(o, off, len(v))
                o.data[off:off+len(v)] = bytes(v); return
            for i, x in enumerate(v): self.store_val(addr + i*es, t.el, x)
        elif k == 'vec':
            if t.el.k == 'i' and t.el.bits < 8: 
                x = 0
                for i, b in enumerate(v): x = T.or_(x, T.shl(T.zext(b, 1, t.size*8), i, t.size*8), t.size*8)
                self.mem.store(addr, t.size, x); return
            es = t.el.size
            for i, x in enumerate(v): self.store_val(addr + i*es, t.el, x)
        elif k == 'struct':
            ir.layout(t)
            for o, f, x in zip(t.offs, t.fields, v): self.store_val(addr + o, f, x)
        elif k == 'float':
            if isinstance(v, float): v = int.from_bytes(struct.pack('<f', v), 'little')
            self.mem.store(addr, 4, v)
        elif k == 'double':
            if isinstance(v, float): v = int.from_bytes(struct.pack('<d', v), 'little')
            self.mem.store(addr, 8, v)
        elif k == 'i':
            n = (t.bits + 7)//8
            if isinstance(v, Term) and v.w != 8*n: v = T.zext(v, v.w, 8*n)
            if type(v) is Tup:
                for o, m_, x in v.pc:
                    self.mem.store(addr + o, m_, int.from_bytes(x, 'little') if isinstance(x, bytes) else x)
                return
            self.mem.store(addr, n, v)
        elif k == 'ptr':
            self.mem.store(addr, 8, v)
        elif k == 'x86_fp80': self.mem.store(addr, 16, 0)
        else: raise Unsupported('store ' + k)
    def load_val(self, addr, t):
        k = t.k
        if k == 'i':
            n = (t.bits + 7)//8
            v = self.mem.load(addr, n)
            if t.bits != 8*n:
                if isinstance(v, (int, Term)): v = T.trunc(v, t.bits)
            return v
        if k == 'ptr': return self.mem.load(addr, 8)
        if k == 'vec':
            if t.el.k == 'i' and t.el.bits < 8:
                v = self.mem.load(addr, t.size)
                return [T.extract(v, i, i) for i in range(t.n)]
            es = t.el.size
            return [self.load_val(addr + i*es, t.el) for i in range(t.n)]
        if k == 'arr':
            es = t.el.size
            return [self.load_val(addr + i*es, t.el) for i in range(t.n)]
        if k == 'struct':
            ir.layout(t)
            return [self.load_val(addr + o, f) for o, f in zip(t.offs, t.fields)]
        if k == 'double':
            v = self.mem.load(addr, 8)
            if isinstance(v, int): return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
            return v
        if k == 'float':
            v = self.mem.load(addr, 4)
            if isinstance(v, int): return struct.unpack('<f', v.to_bytes(4, 'little'))[0]
            return v
        raise Unsupported('load ' + k)
    def gep(self, a, t, idx):
        first = True
        for it, i in idx:
            if first:
                ir.layout(t)
                sz = t.size; first = False
            elif t.k == 'struct':
                ir.layout(t)
                a = T.add(a, t.offs[i], 64)
                t = t.fields[i]
                continue
            else:
                t = t.el; ir.layout(t); sz = t.size
            if isinstance(i, int):
                if it.bits < 64: i = T.sgn(i, it.bits)
                a = T.add(a, (i * sz) & (2**64-1), 64)
            else:
                if it.bits < 64: i = T.sext(i, it.bits, 64)
                a = T.add(a, T.mul(i, sz, 64), 64)
        return a

    # ------------------------------------------------------------ paths
    def reset_path(self):
        self.pc = []           # list of (Term, bool)
        self.pcmap = {}
        self.facts = {}        # p -> Facts
        self.tidx = 0
        self.taken = []
        self.oblig = []        # obligations met on the way (kind, ok, text)
        self.z3s = None
        self.events = []
        self.fresh = 0
        self.invs = {}
    def facts_for(self, ring):
        f = self.facts.get(ring.key)
        if f is None: f = self.facts[ring.key] = Facts(ring)
        return f
    def assume(self, c, v=True):
        if not isinstance(c, Term):
            if bool(c) != v: raise Infeasible()
            return
        if c.op == 'not': return self.assume(c.args[0], not v)
        if c.op == 'and' and c.w == 1 and v:
            self.assume(c.args[0]); self.assume(c.args[1]); return
        if c.op == 'or' and c.w == 1 and not v:
            self.assume(c.args[0], False); self.assume(c.args[1], False); return
        k = self.pcmap.get(c.id)
        if k is not None:
            if k != v: raise Infeasible()
            return
        self.pcmap[c.id] = v
        self.pc.append((c, v))
        if c.op == 'fez':
            m, f = FEZ[c.args[0]]
            F = self.facts_for(m.ring)
            if v: F.add_zero(f)
            else: F.add_nonzero(f)
            if F.contr: raise Infeasible()
        elif self.z3s is not None and not has_fe(c):
            b = self.z3.boolean(c)
            self.z3s.add(b if v else self.z3.z3.Not(b))
    def solver(self):
        if self.z3s is None:
            self.z3 = getattr(self, 'z3', None) or T.Z3()
            self.z3s = self.z3.z3.SolverFor('QF_BV') if False else self.z3.z3.Solver()
            self.z3s.set('timeout', self.z3_timeout)
            for c, v in self.pc:
                if not has_fe(c):
                    b = self.z3.boolean(c)
                    self.z3s.add(b if v else self.z3.z3.Not(b))
        return self.z3s
    def check_sat(self, c, v):
        """'sat'/'unsat'/'unknown' of path & c==v"""
        s = self.solver()
        b = self.z3.boolean(c)
        t0 = time.time()
        r = str(s.check(b if v else self.z3.z3.Not(b)))
        self.solver_time += time.time() - t0; self.solver_queries += 1
        return r
    def check_bb(self, c, v, timeout=20000):
        """the same query once more, bit-blasted at once"""
        s = self.solver(); z3 = self.z3.z3
        q = z3.Then('simplify', 'solve-eqs', 'bit-blast', 'sat').solver(); q.set('timeout', timeout)
        for a in s.assertions(): q.add(a)
        b = self.z3.boolean(c); q.add(b if v else z3.Not(b))
        t0 = time.time(); r = str(q.check()); self.solver_time += time.time() - t0; self.solver_queries += 1
        return r if r == 'unsat' else 'unknown'
    def quick(self, c):
        """try to decide c without a solver; None if unknown"""
        if not isinstance(c, Term): return bool(c)
        if c.op == 'not':
            q = self.quick(c.args[0])
            return None if q is None else not q
        k = self.pcmap.get(c.id)
        if k is not None: return k
        if c.op == 'fez':
            m, f = FEZ[c.args[0]]
            return self.facts_for(m.ring).is_zero(f)
        if c.op == 'and' and c.w == 1:
            a, b = self.quick(c.args[0]), self.quick(c.args[1])
            if a is False or b is False: return False
            if a and b: return True
        if c.op == 'or' and c.w == 1:
            a, b = self.quick(c.args[0]), self.quick(c.args[1])
            if a or b: return True
            if a is False and b is False: return False
        if c.op == 'ite' and c.w == 1:
            q = self.quick(c.args[0])
            if q is not None: return self.quick(c.args[1] if q else c.args[2])
        if c.op == 'xor' and c.w == 1:
            a, b = self.quick(c.args[0]), self.quick(c.args[1])
            if a is not None and b is not None: return a != b
        if c.op == 'eq' and T.width(*c.args) == 1:
            a, b = self.quick(c.args[0]), self.quick(c.args[1])
            if a is not None and b is not None: return a == b
        return None
    def decide(self, c):
        if not isinstance(c, Term): return bool(c)
        q = self.quick(c)
        if q is not None: return q
        # compound conditions over abstract values: decide components one by one
        if c.op == 'not': return not self.decide(c.args[0])
        if has_fe(c) and c.op != 'fez':
            if c.op == 'and': return self.decide(c.args[0]) and self.decide(c.args[1])
            if c.op == 'or': return self.decide(c.args[0]) or self.decide(c.args[1])
            if c.op == 'xor': return self.decide(c.args[0]) != self.decide(c.args[1])
            if c.op == 'ite': return self.decide(c.args[1] if self.decide(c.args[0]) else c.args[2])
            if c.op == 'eq' and T.width(*c.args) == 1: return self.decide(c.args[0]) == self.decide(c.args[1])
            raise Unsupported('condition on abstract value: %r' % c)
        i = self.tidx
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = None
            if c.op != 'fez' and not self.no_solver:
                r1 = self.check_sat(c, True)
                if r1 == 'unsat': v = ('i', False)
                else:
                    r0 = self.check_sat(c, False)
                    if r0 == 'unsat': v = ('i', True)
            if v is None:
                v = True
                self.work.append(self.taken + [False])
        self.tidx += 1
        self.taken.append(v)
        b = v[1] if isinstance(v, tuple) else v
        self.assume(c, b)
        return b
    no_solver = False
    def paths(self, body):
        """run body() once per decision sequence; yields (result, engine state kept in self)"""
        self.work = [[]]
        n = 0
        base = self.snapshot()
        while self.work:
            self.prefix = self.work.pop()
            n += 1
            if n > self.max_paths: raise PathLimit('more than %d paths' % self.max_paths)
            self.restore(base)
            self.reset_path()
            try:
                r = body()
            except Infeasible:
                continue
            yield r
        self.restore(base)
    def snapshot(self):
        return ({k: o.copy() for k, o in self.mem.objs.items() if o.kind != 'func'}, self.mem.next)
    def restore(self, s):
        m = Memory()
        m.next = s[1]
        m.objs = {k: (o if o.ro else o.copy()) for k, o in s[0].items()}
        for k, o in self.mem.objs.items():
            if o.kind == 'func': m.objs[k] = o
        self.mem = m
    def concretize(self, t, what='value', limit=300):
        """enumerate the feasible values of a term by forking"""
        if not isinstance(t, Term): return t
        n = 0
        if t.hi - t.lo <= 64 or self.no_solver:
            rng = range(t.lo, t.hi + 1)
            if len(rng) > limit: raise Unsupported('too many values for %s' % what)
            for v in rng:
                if self.decide(T.eq(t, v)): return v
            raise Infeasible()
        while True:
            i = self.tidx
            if i < len(self.prefix) and isinstance(self.prefix[i], tuple) and self.prefix[i][0] == 'v':
                v = self.prefix[i][1]
            else:
                s = self.solver()
                r = s.check()
                self.solver_queries += 1
                if str(r) == 'unsat': raise Infeasible()
                if str(r) != 'sat': raise Unsupported('solver unknown while enumerating ' + what)
                v = s.model().eval(self.z3.conv(t), model_completion=True).as_long()
            self.tidx += 1; self.taken.append(('v', v))
            if self.decide(T.eq(t, v)): return v
            n += 1
            if n > limit: raise Unsupported('too many values for %s' % what)

    # ------------------------------------------------------------ execution
    def prep(self, f):
        if f.blocks is None:
            ir.parse_body(f)
            for b in f.blocks.values():
                for ins in b: self._prep_ins(ins)
        return f
    def _op(self, v, t=None):
        """operand -> register name (str) or constant"""
        if v[0] == 'r': return v[1]
        if v[0] == 'c': return v[1]
        if v[0] == 'agg' and any(e[0] == 'r' for e in v[1]): raise Unsupported('agg with regs')
        return self.const(v, t)
    def _prep_ins(self, ins):
        op = ins.op; a = ins.a
        O = self._op
        if op == 'bin': ins.a = (a[0], O(a[1], ins.ty), O(a[2], ins.ty), a[3])
        elif op == 'fneg' or op == 'freeze': ins.a = (O(a[0], ins.ty),)
        elif op == 'cast': ins.a = (a[0], a[1], O(a[2], a[1]))
        elif op in ('icmp', 'fcmp'): ins.a = (a[0], O(a[1], ins.ty), O(a[2], ins.ty))
        elif op == 'load': ins.a = (O(a[0]),)
        elif op == 'store': ins.a = (O(a[0], ins.ty), O(a[1]))
        elif op == 'gep': ins.a = (O(a[0], a[2]), [(it, O(iv, it)) for it, iv in a[1]], a[2])
        elif op == 'alloca': ins.a = (O(a[0]),)
        elif op == 'phi': ins.a = {b: O(v, ins.ty) for b, v in a.items()}
        elif op == 'select': ins.a = (O(a[0], a[3]), O(a[1], ins.ty), O(a[2], ins.ty), a[3])
        elif op == 'condbr': ins.a = (O(a[0]), a[1], a[2])
        elif op == 'switch': ins.a = (O(a[0]), a[1], a[2])
        elif op == 'ret': ins.a = (None if a[0] is None else O(a[0], ins.ty),)
        elif op == 'call':
            callee, args, normal = a
            cal = callee[1] if callee[0] == 'g' else ('reg', O(callee))
            ins.a = (cal, [(t, (0 if t.k == 'metadata' else O(v, t)), at) for t, v, at in args], normal)
        elif op == 'extractvalue': ins.a = (O(a[0], ins.ty), a[1])
        elif op == 'insertvalue': ins.a = (O(a[0], ins.ty), O(a[1]), a[2])
        elif op == 'extractelement': ins.a = (O(a[0], ins.ty), O(a[1]))
        elif op == 'insertelement': ins.a = (O(a[0], ins.ty), O(a[1], ins.ty.el), O(a[2]))
        elif op == 'shufflevector': ins.a = (O(a[0], ins.ty), O(a[1], ins.ty), O(a[2], a[3]), a[3])
        elif op == 'atomicrmw': ins.a = (a[0], O(a[1]), O(a[2], ins.ty))
        elif op == 'cmpxchg': ins.a = (O(a[0]), O(a[1], ins.ty), O(a[2], ins.ty))

    def find_handler(self, f):
        h = self.hcache.get(f.name)
        if h is None:
            h = False
            for rx, fn in self.handlers:
                mt = rx.match(f.dem)
                if mt:
                    g = fn(self, f, mt)
                    if g is not None:
                        h = g; break
            self.hcache[f.name] = h
        return h

    def call(self, name, args):
        f = self.mod.funcs.get(name)
        if f is None and name in self.mod.aliases:
            name = self.rfid[self.const(self.mod.aliases[name], ir.PTR)]
            f = self.mod.funcs.get(name)
        if f is None: raise Unsupported('call of unknown ' + name)
        h = self.find_handler(f)
        if h:
            self.used[f.dem] = self.used.get(f.dem, 0) + 1
            return h(self, args)
        if f.decl:
            return self.external(f, args)
        e = self.executed
        e[f.dem] = e.get(f.dem, 0) + 1
        return self.run(f, args)

    def external(self, f, args):
        if _DBG: print("EXT", f.dem[:90], [k[:70] for k in list(self.executed)[-6:]])
        n = f.name[1:]
        if n.startswith('"'): n = n[1:-1]
        h = self.ext.get(n)
        if h: return h(self, args)
        for pre, fn in EXTPRE:
            if n.startswith(pre): return fn(self, n, args, f)
        r = _dem_ext(self, f, args)
        if r is not NotImplemented: return r
        raise Unsupported('external function ' + f.dem)

    def run(self, f, args):
        self.prep(f)
        regs = {}
        for (t, nm, at), v in zip(f.params, args):
            regs[nm] = v
        allocas = []
        blocks = f.blocks
        cur = f.order[0]; prev = None
        depth_guard = None
        mem = self.mem
        try:
            while True:
                blk = blocks[cur]
                i = 0
                n = len(blk)
                self.steps += n
                if self.steps > self.max_steps: raise PathLimit('step limit')
                # phis simultaneously
                if blk and blk[0].op == 'phi':
                    vals = []
                    while blk[i].op == 'phi':
                        v = blk[i].a[prev]
                        vals.append((blk[i].dst, regs[v] if type(v) is str else v))
                        i += 1
                    for d, v in vals: regs[d] = v
                nxt = None
                while i < n:
                    ins = blk[i]; i += 1
                    op = ins.op
                    if op == 'load':
                        a = ins.a[0]
                        if type(a) is str: a = regs[a]
                        if type(a) is not int: a = self.addr(a)
                        regs[ins.dst] = self.load_val(a, ins.ty)
                    elif op == 'store':
                        v, a = ins.a
                        if type(v) is str: v = regs[v]
                        if type(a) is str: a = regs[a]
                        if type(a) is not int: a = self.addr(a)
                        self.store_val(a, ins.ty, v)
                    elif op == 'gep':
                        a, idx, pt = ins.a
                        if type(a) is str: a = regs[a]
                        ix = [(it, regs[v] if type(v) is str else v) for it, v in idx]
                        if type(a) is list or any(type(v) is list for _, v in ix): raise Unsupported('vector gep')
                        regs[ins.dst] = self.gep(a, ins.ty, ix)
                    elif op == 'call':
                        callee, cargs, normal = ins.a
                        if type(callee) is tuple:
                            fp = callee[1]
                            if type(fp) is str: fp = regs[fp]
                            if not isinstance(fp, int): fp = self.concretize(fp, 'function pointer')
                            callee = self.rfid.get(fp)
                            if callee is None: raise CheckFail('memory', 'call through bad function pointer %#x' % fp)
                        av = []
                        for t, v, at in cargs:
                            if type(v) is str: v = regs[v]
                            if 'byval' in at:
                                bt = ir.layout(at['byval'])
                                c = self.mem.alloc(bt.size, 'byval', 'stack'); allocas.append(c)
                                self.mem.memcpy(c, v, bt.size); v = c
                            av.append(v)
                        if callee.startswith('@llvm.') or callee.startswith('@"llvm.'):
                            r = self.intrinsic(callee[1:].strip('"'), av, ins, cargs)
                        else:
                            r = self.call(callee, av)
                        if ins.dst is not None: regs[ins.dst] = r
                        if normal is not None: nxt = normal; break
                    elif op == 'bin':
                        o, a, b, fl = ins.a
                        if type(a) is str: a = regs[a]
                        if type(b) is str: b = regs[b]
                        t = ins.ty
                        if t.k == 'i':
                            regs[ins.dst] = self.binop(o, a, b, t.bits)
                        elif t.k == 'vec':
                            if t.el.k == 'i':
                                w = t.el.bits
                                regs[ins.dst] = [self.binop(o, x, y, w) for x, y in zip(a, b)]
                            else: regs[ins.dst] = [self.fbin(o, x, y, t.el) for x, y in zip(a, b)]
                        else:
                            regs[ins.dst] = self.fbin(o, a, b, t)
                    elif op == 'icmp':
                        pr, a, b = ins.a
                        if type(a) is str: a = regs[a]
                        if type(b) is str: b = regs[b]
                        t = ins.ty
                        if t.k == 'vec': regs[ins.dst] = [self.icmp(pr, t.el, x, y) for x, y in zip(a, b)]
                        else: regs[ins.dst] = self.icmp(pr, t, a, b)
                    elif op == 'condbr':
                        c, a, b = ins.a
                        if type(c) is str: c = regs[c]
                        if type(c) is not int:
                            if not isinstance(c, Term): raise Unsupported('branch on %r' % (c,))
                            c = self.decide(c)
                        nxt = a if c else b
                        break
                    elif op == 'br':
                        nxt = ins.a[0]; break
                    elif op == 'ret':
                        v = ins.a[0]
                        if type(v) is str: v = regs[v]
                        return v
                    elif op == 'cast':
                        o, ft, v = ins.a
                        if type(v) is str: v = regs[v]
                        if ins.ty.k == 'vec' and o != 'bitcast':
                            regs[ins.dst] = [self.cast(o, ft.el, ins.ty.el, x) for x in v]
                        else:
                            regs[ins.dst] = self.cast(o, ft, ins.ty, v)
                    elif op == 'alloca':
                        c = ins.a[0]
                        if type(c) is str: c = regs[c]
                        if not isinstance(c, int): c = self.concretize(c, 'alloca size')
                        a = mem.alloc(max(1, ins.ty.size * c), 'local %s of %s' % (ins.dst, f.dem[:80]), 'stack') if self.mem is mem else self.mem.alloc(max(1, ins.ty.size*c), 'local', 'stack')
                        allocas.append(a)
                        regs[ins.dst] = a
                    elif op == 'select':
                        c, a, b, ct = ins.a
                        if type(c) is str: c = regs[c]
                        if type(a) is str: a = regs[a]
                        if type(b) is str: b = regs[b]
                        if type(c) is list:
                            regs[ins.dst] = [self.select(x, y, z, ins.ty.el) for x, y, z in zip(c, a, b)]
                        else: regs[ins.dst] = self.select(c, a, b, ins.ty)
                    elif op == 'switch':
                        v, d, cases = ins.a
                        if type(v) is str: v = regs[v]
                        if type(v) is int:
                            nxt = d
                            for cv, l in cases:
                                if cv == v: nxt = l; break
                        else:
                            nxt = d
                            for cv, l in cases:
                                if self.decide(T.eq(v, cv)): nxt = l; break
                        break
                    elif op == 'extractvalue':
                        v, ix = ins.a
                        if type(v) is str: v = regs[v]
                        for k in ix: v = v[k]
                        regs[ins.dst] = v
                    elif op == 'insertvalue':
                        v, w, ix = ins.a
                        if type(v) is str: v = regs[v]
                        if type(w) is str: w = regs[w]
                        regs[ins.dst] = _insert(v, w, ix)
                    elif op == 'extractelement':
                        v, k = ins.a
                        if type(v) is str: v = regs[v]
                        if type(k) is str: k = regs[k]
                        if not isinstance(k, int): k = self.concretize(k, 'vector index')
                        regs[ins.dst] = v[k]
                    elif op == 'insertelement':
                        v, e, k = ins.a
                        if type(v) is str: v = regs[v]
                        if type(e) is str: e = regs[e]
                        if type(k) is str: k = regs[k]
                        v = list(v); v[k] = e
                        regs[ins.dst] = v
                    elif op == 'shufflevector':
                        a, b, mk, mt = ins.a
                        if type(a) is str: a = regs[a]
                        if type(b) is str: b = regs[b]
                        c = list(a) + list(b)
                        regs[ins.dst] = [c[k] if k < len(c) else 0 for k in mk]
                    elif op == 'freeze':
                        v = ins.a[0]
                        regs[ins.dst] = regs[v] if type(v) is str else v
                    elif op == 'fcmp':
                        pr, a, b = ins.a
                        if type(a) is str: a = regs[a]
                        if type(b) is str: b = regs[b]
                        regs[ins.dst] = self.fcmp(pr, a, b)
                    elif op == 'fneg':
                        v = ins.a[0]
                        if type(v) is str: v = regs[v]
                        regs[ins.dst] = -v
                    elif op == 'unreachable':
                        raise CheckFail('abort', 'unreachable executed in %s' % f.dem)
                    elif op == 'atomicrmw':
                        o, a, v = ins.a
                        if type(a) is str: a = regs[a]
                        if type(v) is str: v = regs[v]
                        old = self.load_val(a, ins.ty)
                        if o == 'xchg': nv = v
                        else: nv = self.binop(o, old, v, ins.ty.bits)
                        self.store_val(a, ins.ty, nv)
                        regs[ins.dst] = old
                    elif op == 'cmpxchg':
                        a, c, v = [regs[x] if type(x) is str else x for x in ins.a]
                        old = self.load_val(a, ins.ty)
                        e = self.decide(T.eq(old, c))
                        if e: self.store_val(a, ins.ty, v)
                        regs[ins.dst] = [old, int(e)]
                    elif op == 'nop':
                        pass
                    elif op == 'landingpad':
                        regs[ins.dst] = [0, 0]
                    else:
                        raise Unsupported('instruction ' + ins.txt[:100])
                prev = cur
                cur = nxt
        finally:
            objs = self.mem.objs
            for a in allocas:
                o = objs.pop(a >> 32, None)

    _os = None
    def ostream(self):
        o = self.mem.alloc(512, 'ostream', 'global')
        vt = self.mem.alloc(512, 'ostream vtable', 'global')
        self.mem.store(o, 8, vt + 256)
        return o
    def addr(self, a):
        if isinstance(a, int): return a
        return self.concretize(a, 'address')

    def select(self, c, a, b, t):
        if type(c) is int: return a if c else b
        if t.k == 'i' and isinstance(a, (int, Term)) and isinstance(b, (int, Term)) and not has_fe(c):
            return T.ite(c, a, b, t.bits)
        if t.k == 'i' and t.bits == 1 and isinstance(a, (int, Term)) and isinstance(b, (int, Term)):
            return T.ite(c, a, b, 1)
        return a if self.decide(c) else b

    def binop(self, o, a, b, w):
        if type(a) is int and type(b) is int:
            m = (1 << w) - 1
            if o == 'add': return (a + b) & m
            if o == 'sub': return (a - b) & m
            if o == 'mul': return (a * b) & m
            if o == 'and': return a & b
            if o == 'or': return a | b
            if o == 'xor': return a ^ b
            if o == 'shl': return (a << b) & m if b < w else 0
            if o == 'lshr': return a >> b
        if o in ('udiv', 'urem', 'sdiv', 'srem'):
            z = T.eq(b, 0)
            if isinstance(z, Term):
                if self.decide(z): raise CheckFail('arith', 'division by zero reachable')
            elif z: raise CheckFail('arith', 'division by zero')
        if isinstance(a, (int, Term)) and isinstance(b, (int, Term)):
            return getattr(T, {'and': 'and_', 'or': 'or_'}.get(o, o))(a, b, w)
        # moving abstract values around
        if type(b) is int and b == 0 and o in ('add', 'or', 'xor', 'shl', 'lshr'): return a
        if o == 'lshr' and isinstance(b, int) and b % 8 == 0 and isinstance(a, (Abs, Frag, Tup)):
            return ShrAbs(a, b, w)
        r = bytewise(o, a, b, w)
        if r is not None: return r
        raise Unsupported('%s on abstract value %r %r' % (o, a, b))
    def icmp(self, pr, t, a, b):
        w = 64 if t.k == 'ptr' else t.bits
        if type(a) is int and type(b) is int:
            if pr == 'eq': return int(a == b)
            if pr == 'ne': return int(a != b)
            if pr == 'ult': return int(a < b)
            if pr == 'ugt': return int(a > b)
            if pr == 'ule': return int(a <= b)
            if pr == 'uge': return int(a >= b)
        elif not (isinstance(a, (int, Term)) and isinstance(b, (int, Term))):
            r = self.abs_cmp(pr, a, b)
            if r is not None: return r
            raise Unsupported('icmp %s on abstract value %r %r' % (pr, a, b))
        if pr == 'eq': return T.eq(a, b)
        if pr == 'ne': return T.not_(T.eq(a, b))
        if pr == 'ult': return T.ult(a, b)
        if pr == 'ugt': return T.ult(b, a)
        if pr == 'ule': return T.ule(a, b)
        if pr == 'uge': return T.ule(b, a)
        if pr == 'slt': return T.slt(a, b, w)
        if pr == 'sgt': return T.slt(b, a, w)
        if pr == 'sle': return T.sle(a, b, w)
        if pr == 'sge': return T.sle(b, a, w)
        raise Unsupported(pr)
    def abs_cmp(self, pr, a, b): return None
    def cast(self, o, ft, tt, v):
        if o in ('ptrtoint', 'inttoptr'):
            if isinstance(v, (int, Term)):
                fw = 64 if ft.k == 'ptr' else ft.bits; tw = 64 if tt.k == 'ptr' else tt.bits
                if tw < fw: return T.trunc(v, tw)
                return T.zext(v, fw, tw)
            return v
        if o == 'zext':
            if not isinstance(v, (int, Term)): return ZextAbs(v, ft.bits, tt.bits)
            return T.zext(v, ft.bits, tt.bits)
        if o == 'sext': return T.sext(v, ft.bits, tt.bits)
        if o == 'trunc':
            if isinstance(v, (Abs, Frag)) and tt.bits % 8 == 0:
                return subval(v, ft.bits//8, 0, tt.bits//8)
            if isinstance(v, ShrAbs):
                return v.trunc(tt.bits)
            if isinstance(v, ZextAbs) and tt.bits == v.fw: return v.a
            if isinstance(v, (ZextAbs, Tup)) and tt.bits % 8 == 0 and ft.bits % 8 == 0:
                return combine(pslice(vpieces(v, ft.bits//8), 0, tt.bits//8), tt.bits//8)
            return T.trunc(v, tt.bits)
        if o == 'bitcast':
            if ft.k == tt.k and ft.k != 'vec': return v
            # through bytes
            if ft.k == 'ptr' or tt.k == 'ptr': return v
            ir.layout(ft); ir.layout(tt)
            a = self.mem.alloc(max(ft.size, tt.size), 'bitcast', 'stack')
            self.store_val(a, ft, v)
            r = self.load_val(a, tt)
            self.mem.objs.pop(a >> 32)
            return r
        if o in ('uitofp', 'sitofp'):
            if isinstance(v, int):
                x = float(T.sgn(v, ft.bits) if o == 'sitofp' else v)
                return f32(x) if tt.k == 'float' else x
            raise Unsupported('symbolic int to float')
        if o in ('fptoui', 'fptosi'):
            if isinstance(v, float): return int(v) & ((1 << tt.bits) - 1)
            raise Unsupported('symbolic float')
        if o == 'fpext': return v
        if o == 'fptrunc': return f32(v)
        raise Unsupported('cast ' + o)
    def fbin(self, o, a, b, t):
        if not (isinstance(a, float) and isinstance(b, float)): raise Unsupported('symbolic float')
        if o == 'fadd': r = a + b
        elif o == 'fsub': r = a - b
        elif o == 'fmul': r = a * b
        elif o == 'fdiv':
            if b == 0.0: r = float('nan') if a == 0 or a != a else float('inf') * (1 if (a > 0) == (str(b)[0] != '-') else -1)
            else: r = a / b
        else: raise Unsupported(o)
        return f32(r) if t.k == 'float' else r
    def fcmp(self, pr, a, b):
        if not (isinstance(a, float) and isinstance(b, float)): raise Unsupported('symbolic float')
        un = a != a or b != b
        if pr == 'ord': return int(not un)
        if pr == 'uno': return int(un)
        r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[pr[1:]]
        if pr[0] == 'o': return int(r and not un)
        return int(r or un)

    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, n, a, ins, cargs):
        mem = self.mem
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            k = a[2]
            if not isinstance(k, int): k = self.concretize(k, 'memcpy size')
            mem.memcpy(self.addr(a[0]), self.addr(a[1]), k); return None
        if n.startswith('llvm.memset'):
            k = a[2]
            if not isinstance(k, int): k = self.concretize(k, 'memset size')
            mem.memset(self.addr(a[0]), a[1], k); return None
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.stackrestore', 'llvm.prefetch', 'llvm.invariant', 'llvm.donothing')): return None
        if n.startswith('llvm.stacksave'): return 0
        if n.startswith('llvm.assume'): return None
        if n.startswith('llvm.expect'): return a[0]
        if n.startswith('llvm.is.constant'): return 0
        if n.startswith('llvm.objectsize'): return (1 << 64) - 1 if not a[1] else 0
        if n.startswith('llvm.launder') or n.startswith('llvm.strip'): return a[0]
        if n == 'llvm.trap' or n == 'llvm.debugtrap' or n == 'llvm.ubsantrap': raise CheckFail('abort', n)
        if n == 'llvm.x86.addcarry.64' or n == 'llvm.x86.addcarry.32':
            w = int(n[-2:])
            c, x, y = a
            ww = w + 1
            s = T.add(T.add(T.zext(x, w, ww), T.zext(y, w, ww), ww), T.zext(T.trunc(c, 1), 1, ww) if not (isinstance(c, Term) and False) else 0, ww)
            return [T.zext(T.extract(s, w, w), 1, 8), T.trunc(s, w)]
        if n == 'llvm.x86.subborrow.64' or n == 'llvm.x86.subborrow.32':
            w = int(n[-2:])
            c, x, y = a
            ww = w + 1
            rhs = T.add(T.zext(y, w, ww), T.zext(T.trunc(c, 1), 1, ww), ww)
            lt = T.ult(T.zext(x, w, ww), rhs)
            d = T.trunc(T.sub(T.zext(x, w, ww), rhs, ww), w)
            if isinstance(d, Term) and isinstance(lt, Term):
                SUBB[d.id] = (x, y, c, lt, w)
            return [T.zext(lt, 1, 8), d]
        m = CARRY.match(n)
        if m:
            o, w = m.group(1), int(m.group(2))
            x, y = a
            if o == 'uadd':
                s = T.add(T.zext(x, w, w+1), T.zext(y, w, w+1), w+1)
                return [T.trunc(s, w), T.extract(s, w, w)]
            if o == 'usub':
                return [T.sub(x, y, w), T.ult(x, y)]
            if o == 'umul':
                s = T.mul(T.zext(x, w, 2*w), T.zext(y, w, 2*w), 2*w)
                return [T.trunc(s, w), T.not_(T.eq(T.extract(s, 2*w-1, w), 0))]
            W = w + 1 if o != 'smul' else 2*w
            X, Y = T.sext(x, w, W), T.sext(y, w, W)
            s = {'sadd': T.add, 'ssub': T.sub, 'smul': T.mul}[o](X, Y, W)
            r = T.trunc(s, w)
            return [r, T.not_(T.eq(T.sext(r, w, W), s))]
        base = re.match(r'llvm\.([a-z.0-9]*?)\.(v\d+)?i(\d+)', n)
        if base:
            o, vec, w = base.group(1), base.group(2), int(base.group(3))
            if vec:
                if o.startswith('vector.reduce.'):
                    r = a[0][0]
                    oo = o.split('.')[2]
                    for x in a[0][1:]:
                        r = self.int_intr(oo, [r, x], w) if oo in ('umin', 'umax', 'smin', 'smax') else self.binop(oo, r, x, w)
                    return r
                k = len(a[0])
                return [self.int_intr(o, [(x[i] if type(x) is list else x) for x in a], w) for i in range(k)]
            return self.int_intr(o, a, w)
        mf = re.match(r'llvm\.(\w+)\.f(32|64)', n)
        if mf:
            import math
            o = mf.group(1)
            if all(isinstance(x, float) for x in a):
                if o == 'fabs': return abs(a[0])
                if o == 'floor': return float(math.floor(a[0]))
                if o == 'ceil': return float(math.ceil(a[0]))
                if o == 'trunc': return float(math.trunc(a[0]))
                if o == 'fmuladd': return a[0]*a[1] + a[2]
                if o == 'sqrt': return math.sqrt(a[0])
                if o == 'pow': return math.pow(a[0], a[1])
                if o == 'log2': return math.log2(a[0])
                if o == 'log': return math.log(a[0])
                if o == 'copysign': return math.copysign(a[0], a[1])
        mx = X86.get(n)
        if mx: return mx(self, a)
        raise Unsupported('intrinsic ' + n)
    def int_intr(self, o, a, w):
        if o == 'umin': return T.ite(T.ult(a[0], a[1]), a[0], a[1], w)
        if o == 'umax': return T.ite(T.ult(a[0], a[1]), a[1], a[0], w)
        if o == 'smin': return T.ite(T.slt(a[0], a[1], w), a[0], a[1], w)
        if o == 'smax': return T.ite(T.slt(a[0], a[1], w), a[1], a[0], w)
        if o == 'abs': return T.ite(T.slt(a[0], 0, w), T.sub(0, a[0], w), a[0], w)
        if o == 'bswap': return T.bswap(a[0], w)
        if o == 'ctpop':
            x = a[0]
            if isinstance(x, int): return bin(x).count('1')
            r = 0
            for i in range(w): r = T.add(r, T.zext(T.extract(x, i, i), 1, w), w)
            return r
        if o == 'ctlz':
            x = a[0]
            if isinstance(x, int): return w - x.bit_length()
            r = w
            for i in range(w): r = T.ite(T.extract(x, i, i), w-1-i, r, w)
            return r
        if o == 'cttz':
            x = a[0]
            if isinstance(x, int): return w if x == 0 else (x & -x).bit_length() - 1
            r = w
            for i in reversed(range(w)): r = T.ite(T.extract(x, i, i), i, r, w)
            return r
        if o == 'fshl' or o == 'fshr':
            x, y, s = a
            if not isinstance(s, int): raise Unsupported('fshl sym')
            s %= w
            if o == 'fshr': s = (w - s) % w if s else 0
            if o == 'fshr' and s == 0: return y
            if s == 0: return x
            return T.or_(T.shl(x, s, w), T.lshr(y, w - s, w), w)
        if o == 'bitreverse':
            x = a[0]
            r = 0; rw = 0
            for i in range(w):
                b = T.extract(x, i, i)
                r = b if rw == 0 else T.concat(r, rw, b, 1)
                rw += 1
            return r
        if o == 'uadd.sat':
            s = T.add(T.zext(a[0], w, w+1), T.zext(a[1], w, w+1), w+1)
            return T.ite(T.extract(s, w, w), (1 << w) - 1, T.trunc(s, w), w)
        if o == 'usub.sat': return T.ite(T.ult(a[0], a[1]), 0, T.sub(a[0], a[1], w), w)
        raise Unsupported('int intrinsic ' + o)

SUBB = {}
def _psign(e, a):
    def one(x, y): return T.ite(T.eq(y, 0), 0, T.ite(T.slt(y, 0, 32), T.sub(0, x, 32), x, 32), 32)
    return [one(x, y) for x, y in zip(*a)]
def _vshift(op, w):
    def f(e, a):
        k = a[1]
        if isinstance(k, Term): raise Unsupported('vector shift by a variable')
        return [0 if k >= w else op(x, k, w) for x in a[0]]
    return f
X86 = {'llvm.x86.avx2.psign.d': _psign}
for _v in ('llvm.x86.avx2.%s', 'llvm.x86.avx512.%s.512'):
    for _w, _c in ((32, 'd'), (64, 'q')): X86[_v % ('psrli.' + _c)] = _vshift(T.lshr, _w); X86[_v % ('pslli.' + _c)] = _vshift(T.shl, _w)

class ZextAbs:
    __slots__ = ('a', 'fw', 'w')
    def __init__(s, a, fw, w): s.a = a; s.fw = fw; s.w = w
class ShrAbs:
    __slots__ = ('a', 'k', 'w')
    def __init__(s, a, k, w): s.a = a; s.k = k; s.w = w
    def trunc(s, n):
        if isinstance(s.a, (Abs, Frag)): return subval(s.a, s.w//8, s.k//8, n//8)
        raise Unsupported('shr of mixture')

def vpieces(v, n):
    if isinstance(v, int): return [(0, n, v.to_bytes(n, 'little'))]
    if isinstance(v, Tup): return v.pc
    if isinstance(v, ZextAbs):
        if v.fw % 8 or v.w != 8*n: raise Unsupported('zero extension of %d bits' % v.fw)
        k = v.fw//8
        return vpieces(v.a, k) + [(k, n - k, bytes(n - k))]
    if isinstance(v, ShrAbs):
        k = v.k//8; m = v.w//8
        return pslice(vpieces(v.a, m), k, m - k) + [(m - k, k, bytes(k))]
    if isinstance(v, (Term, FE, Frag)) or isinstance(v, Abs): return [(0, n, v)]
    raise Unsupported('bytes of %r' % (v,))
def pslice(pc, off, n):
    out = []
    for o, m, v in pc:
        a = max(o, off); b = min(o + m, off + n)
        if a >= b: continue
        if a == o and b == o + m: out.append((a - off, b - a, v))
        else: out.append((a - off, b - a, v[a-o:b-o] if isinstance(v, bytes) else subval(v, m, a - o, b - a)))
    return out
def bytewise(o, a, b, w):
    if w % 8: return None
    n = w//8
    if o in ('shl', 'lshr') and isinstance(b, int) and b % 8 == 0 and b < w:
        k = b//8
        p = vpieces(a, n)
        if o == 'shl': pc = [(0, k, bytes(k))] + [(x + k, m, v) for x, m, v in pslice(p, 0, n - k)]
        else: pc = pslice(p, k, n - k) + [(n - k, k, bytes(k))]
        return combine(pc, n)
    if o in ('or', 'add', 'xor', 'and') :
        A, B = vpieces(a, n), vpieces(b, n)
        cuts = sorted({x for x, m, v in A + B} | {n})
        pc = []
        for lo, hi in zip(cuts, cuts[1:]):
            # split at the boundaries of either side
            pa = pslice(A, lo, hi - lo); pb = pslice(B, lo, hi - lo)
            if len(pa) != 1 or len(pb) != 1: return None
            x, y = pa[0][2], pb[0][2]
            zx = isinstance(x, bytes) and not any(x); zy = isinstance(y, bytes) and not any(y)
            if o == 'and':
                if zx or zy: r = bytes(hi - lo)
                elif isinstance(x, bytes) and all(c == 255 for c in x): r = y
                elif isinstance(y, bytes) and all(c == 255 for c in y): r = x
                else: return None
            elif zy: r = x
            elif zx: r = y
            else: return None
            pc.append((lo, hi - lo, r))
        # merge neighbouring byte strings
        m2 = []
        for q in pc:
            if m2 and isinstance(q[2], bytes) and isinstance(m2[-1][2], bytes): m2[-1] = (m2[-1][0], m2[-1][1] + q[1], m2[-1][2] + q[2])
            else: m2.append(q)
        return combine(m2, n)
    return None

def f32(x):
    try: return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError: return float('inf') if x > 0 else float('-inf')

def _insert(v, w, ix):
    v = list(v) if isinstance(v, list) else [0, 0]
    if len(ix) == 1: v[ix[0]] = w
    else: v[ix[0]] = _insert(v[ix[0]], w, ix[1:])
    return v

FEZ = []      # fe-conditions: index -> (model, poly)
_fezmap = {}
_hasfe = {}
def has_fe(t):
    if not isinstance(t, Term): return False
    r = _hasfe.get(t.id)
    if r is None:
        r = t.op in ('fez',) or any(has_fe(a) for a in t.args if isinstance(a, Term))
        _hasfe[t.id] = r
    return r
def fez(m, f):
    """condition term: poly f == 0"""
    if m.ext: f = m.kpoly(m.kconst(f)) if m.kconst(f) is not None else f
    c = m.kconst(f)
    if c is not None: return 1 if f.iszero() else 0
    f = f.monic()
    k = (m.rk, f)
    i = _fezmap.get(k)
    if i is None:
        i = _fezmap[k] = len(FEZ); FEZ.append((m, f))
    return T.mk('fez', (i,), 1)

def reset_all():
    FEZ.clear(); _fezmap.clear(); _hasfe.clear(); T.reset(); SUBB.clear(); Ring.clear()

# ---------------------------------------------------------------- externals
def _malloc(e, a):
    n = a[0]
    if not isinstance(n, int): n = e.concretize(n, 'allocation size')
    if n > (1 << 31): raise CheckFail('memory', 'allocation of %d bytes' % n)
    return e.mem.alloc(n, 'heap[%d]' % n)
def _free(e, a): e.mem.free(a[0]); return None
def _abort(name):
    def h(e, a): raise CheckFail('abort', name)
    return h
def _memcmp(e, a):
    n = a[2] if isinstance(a[2], int) else e.concretize(a[2], 'memcmp size')
    for i in range(n):
        x, y = e.mem.load(a[0]+i, 1), e.mem.load(a[1]+i, 1)
        if not isinstance(x, (int, Term)) or not isinstance(y, (int, Term)): raise Unsupported('memcmp of abstract values')
        if e.decide(T.eq(x, y)): continue
        return 0xffffffff if e.decide(T.ult(x, y)) else 1
    return 0
def _strlen(e, a): return len(e.mem.cstr(a[0]))
def _memcpy(e, a):
    n = a[2] if isinstance(a[2], int) else e.concretize(a[2], 'size')
    e.mem.memcpy(a[0], a[1], n); return a[0]
def _memset(e, a):
    n = a[2] if isinstance(a[2], int) else e.concretize(a[2], 'size')
    e.mem.memset(a[0], T.trunc(a[1], 8), n); return a[0]
def _memchr(e, a):
    n = a[2] if isinstance(a[2], int) else e.concretize(a[2], 'size')
    for i in range(n):
        if e.decide(T.eq(e.mem.load(a[0]+i, 1), T.trunc(a[1], 8))): return a[0]+i
    return 0
def _guard_acq(e, a):
    v = e.mem.load(a[0], 1)
    return 0 if v else 1
def _guard_rel(e, a): e.mem.store(a[0], 1, 1)
def _zero(e, a): return 0
def _none(e, a): return None
def _pow(e, a):
    if not all(isinstance(v, float) for v in a): raise Unsupported('symbolic float')
    return a[0] ** a[1]
def _str_create(e, a):
    n = e.mem.load(a[1], 8)
    if not isinstance(n, int): raise Unsupported('string capacity')
    return _malloc(e, [n + 1])
def _str_replace(e, a):
    """std::string::_M_mutate / _M_append / _M_assign ... of libstdc++ by their contract: s[0:pos] + n bytes + s[pos+len:] (concrete lengths)"""
    th, pos, ln, src, n, fill = a
    m = e.mem; p, sz = m.load(th, 8), m.load(th + 8, 8)
    if not all(isinstance(v, int) for v in (p, sz, pos, ln, n)): raise Unsupported('symbolic string length')
    sso = p == th + 16; cap = 15 if sso else m.load(th + 16, 8); new = sz - ln + n
    q = _malloc(e, [max(new, 2*cap) + 1]); e_copy = lambda d, s_, k: m.memcpy(d, s_, k) if k else None
    e_copy(q, p, pos)
    if src is not None: e_copy(q + pos, src, n)
    elif fill is not None:
        for j in range(n): m.store(q + pos + j, 1, fill)
    e_copy(q + pos + n, p + pos + ln, sz - pos - ln)
    m.store(q + new, 1, 0)
    if not sso: _free(e, [p])
    m.store(th, 8, q); m.store(th + 8, 8, new); m.store(th + 16, 8, max(new, 2*cap))
    return th
def _str_append(e, a): return _str_replace(e, [a[0], e.mem.load(a[0] + 8, 8), 0, a[1], a[2], None])
def _str_assign(e, a):
    if a[0] == a[1]: return None
    _str_replace(e, [a[0], 0, e.mem.load(a[0] + 8, 8), e.mem.load(a[1], 8), e.mem.load(a[1] + 8, 8), None])
def _str_mutate(e, a):
    sz = e.mem.load(a[0] + 8, 8); _str_replace(e, [a[0], a[1], a[2], a[3] or None, a[4], None]); e.mem.store(a[0] + 8, 8, sz)
def _str_fill(e, a): e.mem.store(a[0], 8, a[0] + 16); e.mem.store(a[0] + 8, 8, 0); _str_replace(e, [a[0], 0, 0, None, a[1], a[2]])
_STR = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
EXT = {
 _STR + '9_M_appendEPKcm': _str_append, _STR + '9_M_assignERKS4_': _str_assign, _STR + '9_M_mutateEmmPKcm': _str_mutate, _STR + '12_M_constructEmc': _str_fill,
 '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm': _str_create,
 'pow': _pow,
 '_Znwm': _malloc, '_Znam': _malloc, 'malloc': _malloc, '_ZdlPv': _free, '_ZdaPv': _free, '_ZdlPvm': _free, '_ZdaPvm': _free, 'free': _free,
 '_ZnwmSt11align_val_t': _malloc, '_ZdlPvmSt11align_val_t': _free, '_ZdlPvSt11align_val_t': _free,
 '_ZnwmRKSt9nothrow_t': _malloc,
 'memcmp': _memcmp, 'bcmp': _memcmp, 'strlen': _strlen, 'memcpy': _memcpy, 'memmove': _memcpy, 'memset': _memset, 'memchr': _memchr,
 '__cxa_guard_acquire': _guard_acq, '__cxa_guard_release': _guard_rel, '__cxa_atexit': _zero,
 'abort': _abort('abort'), '_ZSt17__throw_bad_allocv': _abort('bad_alloc'), '_ZSt20__throw_length_errorPKc': _abort('length_error'),
 '__cxa_throw': _abort('throw'), '_ZSt28__throw_bad_array_new_lengthv': _abort('bad_array_new_length'), '_ZSt24__throw_out_of_range_fmtPKcz': _abort('out_of_range'),
 '_ZSt25__throw_bad_function_callv': _abort('bad_function_call'), '__cxa_pure_virtual': _abort('pure virtual'),
 '_ZSt19__throw_logic_errorPKc': _abort('logic_error'), '__assert_fail': _abort('assert'), '_ZSt9terminatev': _abort('terminate'),
 '_ZSt27__throw_bad_optional_accessv': _abort('bad_optional_access'), '_ZSt26__throw_bad_variant_accessPKc': _abort('bad variant'),
 '__cxa_begin_catch': _zero, '__cxa_end_catch': _none,
}
PARSE = re.compile(r'tachyon::math::internal::(Hex)?StringToLimbs\(')
PARSE64 = re.compile(r'tachyon::base::(Hex)?StringToUint64\(')
def _dem_ext(e, f, a):
    d = f.dem
    if d.startswith('google::InitVLOG3__'): return 0
    if d.startswith('google::LogMessageFatal::~') or 'MakeCheckOpValueString' in d: raise CheckFail('abort', 'CHECK/LOG(FATAL) reached')
    mm = PARSE.match(d)
    if mm:
        n, ptr, limbs, k = a
        txt = bytes(e.mem.load(ptr + i, 1) for i in range(n)).decode()
        try: v = int(txt, 16 if mm.group(1) else 10)
        except ValueError: return 0
        if v < 0 or v >> (64*k): return 0
        L = max(1, (v.bit_length() + 63)//64) if v else 0
        for i in range(L): e.mem.store(limbs + 8*i, 8, (v >> (64*i)) & (2**64-1))
        return 1
    mm = PARSE64.match(d)
    if mm:
        if len(a) != 3: raise Unsupported(d)
        n, ptr, out = a
        txt = bytes(e.mem.load(ptr + i, 1) for i in range(n)).decode()
        try: v = int(txt, 16 if mm.group(1) else 10)
        except ValueError: return 0
        if v < 0 or v >> 64: return 0
        e.mem.store(out, 8, v)
        return 1
    if d.startswith('google::LogMessage') or d.startswith('google::ErrnoLogMessage') or d.startswith('google::base::'):
        if f.ret.k == 'ptr': return e.ostream()
        return None
    if d.startswith('std::ostream::operator<<') or d.startswith('std::basic_ostream') or d.startswith('std::ostream& std::') or ' std::operator<< <' in d or d.startswith('std::ostream::') or d.startswith('std::ios_base::'):
        return a[0] if f.ret.k == 'ptr' else None
    return NotImplemented
def _calloc(e, a): return _malloc(e, [a[0]*a[1]])
EXT['calloc'] = _calloc
EXTPRE = []
