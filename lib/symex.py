"""Symbolic executor for LLVM IR over the term DAG of terms.py.

Values: T (scalar bit pattern), list of values (vector lanes), tuple (aggregate), Ptr, PtrIte, Fn.
Branches on symbolic conditions are forked and merged at the immediate post-dominator.
Every assertion, out-of-bounds / misaligned / read-only access, reached `unreachable` is recorded as an
obligation (path condition + bad condition).
"""
import re, sys
import terms as T
import ir
sys.setrecursionlimit(100000)

class Unsupported(Exception):
    pass

class Obj(object):
    __slots__ = ('id', 'name', 'size', 'align', 'kind', 'elem', 'ro', 'gran', 'init', 'base')
    _n = 0
    def __init__(self, name, size, align=16, kind='alloca', elem=4, ro=False, init=None):
        Obj._n += 1
        self.id = Obj._n; self.name = name; self.size = size; self.align = align; self.kind = kind
        self.elem = elem; self.ro = ro; self.gran = 0; self.init = init; self.base = None
    def __repr__(self): return 'Obj(%s)' % self.name

class Ptr(object):
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return 'Ptr(%s+%s)' % (self.obj.name if self.obj else 'null', self.off)
class PtrIte(object):
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
class Fn(object):
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
NULL = Ptr(None, 0)

class State(object):
    __slots__ = ('mem', 'owned', 'pc')
    def __init__(self):
        self.mem = {}; self.owned = set(); self.pc = T.true()
    def fork(self, c):
        s = State(); s.mem = dict(self.mem); self.owned = set(); s.pc = T.and_(self.pc, c)
        return s
    def cells(self, obj):
        c = self.mem.get(obj.id)
        if c is None:
            c = self.mem[obj.id] = {}; self.owned.add(obj.id)
        elif obj.id not in self.owned:
            c = self.mem[obj.id] = dict(c); self.owned.add(obj.id)
        return c

class Obligation(object):
    __slots__ = ('kind', 'pc', 'info', 'obj', 'off', 'size')
    def __init__(self, kind, pc, info, obj=None, off=None, size=None):
        self.kind = kind; self.pc = pc; self.info = info; self.obj = obj; self.off = off; self.size = size
    def __repr__(self): return '%s: %s' % (self.kind, self.info)

def tysize(t):
    k = t[0]
    if k == 'i': return max(1, (t[1] + 7) // 8)
    if k == 'f': return 16 if t[1] == 80 else t[1] // 8
    if k == 'p': return 8
    if k == 'v':
        b = t[1] * (t[2][1] if t[2][0] in 'if' else 64)
        return b // 8 if b >= 8 else 1
    if k == 'a': return t[1] * tysize(t[2])
    if k == 's':
        o = 0
        for e in t[1]:
            if not t[2]: o = -(-o // tyalign(e)) * tyalign(e)
            o += tysize(e)
        if not t[2]:
            a = tyalign(t); o = -(-o // a) * a
        return o
    raise Unsupported('sizeof %s' % (t,))
def tyalign(t):
    k = t[0]
    if k == 's': return 1 if t[2] else max([tyalign(e) for e in t[1]] or [1])
    if k == 'a': return tyalign(t[2])
    if k == 'v':
        s = tysize(t); a = 1
        while a < s: a *= 2
        return a
    return tysize(t)
def field_off(t, i):
    o = 0
    for j, e in enumerate(t[1]):
        if not t[2]: o = -(-o // tyalign(e)) * tyalign(e)
        if j == i: return o
        o += tysize(e)
    raise Unsupported('field')
def bitw(t): return t[1] if t[0] in ('i', 'f') else 64

def merge_val(c, a, b):
    if a is b: return a
    if isinstance(a, T.T) and isinstance(b, T.T):
        if a.w != b.w: raise Unsupported('merge width')
        return T.ite(c, a, b)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [merge_val(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (Ptr, PtrIte, Fn)) and isinstance(b, (Ptr, PtrIte, Fn)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off: return a
        if isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name: return a
        return PtrIte(c, a, b)
    raise Unsupported('merge kinds')

ICMP = {'eq': T.eq, 'ne': T.ne, 'ult': T.ult, 'ule': T.ule, 'ugt': lambda a, b: T.ult(b, a), 'uge': lambda a, b: T.ule(b, a),
        'slt': T.slt, 'sle': T.sle, 'sgt': lambda a, b: T.slt(b, a), 'sge': lambda a, b: T.sle(b, a)}
BIN = {'add': T.add, 'sub': T.sub, 'mul': T.mul, 'udiv': T.udiv, 'sdiv': T.sdiv, 'urem': T.urem, 'srem': T.srem, 'shl': T.shl,
       'lshr': T.lshr, 'ashr': T.ashr, 'and': T.and_, 'or': T.or_, 'xor': T.xor,
       'fadd': lambda a, b: T.fop('fadd', a, b), 'fsub': lambda a, b: T.fop('fsub', a, b), 'fmul': lambda a, b: T.fop('fmul', a, b),
       'fdiv': lambda a, b: T.fop('fdiv', a, b), 'frem': lambda a, b: T.fop('frem', a, b)}
AVXCMP = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord', 'ueq', 'ult', 'ule', 'false', 'one', 'oge', 'ogt', 'true']
RND = {0: 'rne', 1: 'floor', 2: 'ceil', 3: 'trunc', 4: 'rne'}

LIBM1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'tanh', 'sinh', 'cosh', 'log', 'log2', 'log10', 'exp', 'exp2', 'exp10', 'expm1', 'log1p', 'cbrt', 'asinh', 'acosh', 'atanh'}
LIBM2 = {'pow', 'atan2', 'fmod', 'hypot', 'ldexp'}
ROUND = {'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'round': 'rna', 'rint': 'rne', 'nearbyint': 'rne', 'roundeven': 'rne'}

def fminnum(a, b): return T.ite(T.fisnan(a), b, T.ite(T.fisnan(b), a, T.ite(T.fcmp('flt', a, b), a, b)))
def fmaxnum(a, b): return T.ite(T.fisnan(a), b, T.ite(T.fisnan(b), a, T.ite(T.fcmp('flt', b, a), a, b)))
def copysign(a, b):
    s = T.sgnbit(a.w)
    return T.or_(T.fabs(a), T.and_(T.const(a.w, s), b))
def sgn(a): return T.extract(a, a.w - 1, a.w - 1)

def flat_bits(v):
    """value -> single T (little endian, lane 0 lowest)"""
    if isinstance(v, T.T): return v
    r = None
    for x in v:
        x = flat_bits(x)
        r = x if r is None else T.concat(x, r)
    return r
def split_bits(t, n, w):
    return [T.extract(t, (i + 1) * w - 1, i * w) for i in range(n)]

def relane(v, w2):
    """list of lanes -> list of lanes of width w2 with the same bits"""
    w = v[0].w
    if w == w2: return list(v)
    if w2 > w:
        k = w2 // w; out = []
        for i in range(0, len(v), k): out.append(flat_bits(v[i:i + k]))
        return out
    k = w // w2; out = []
    for x in v: out.extend(split_bits(x, k, w2))
    return out

class Exec(object):
    def __init__(self, mod, max_steps=3000000, max_forks=4000):
        self.m = mod; self.obl = []; self.steps = 0; self.max_steps = max_steps; self.forks = 0; self.max_forks = max_forks
        self.globs = {}; self.kc = {}; self.funcs = set(); self.reads = None; self.gwrites = []
        self.bases = {}
        self.static_var = None          # hook: symbolic initial value of mutable globals
        self.on_branch = None; self.on_edge = None
        self.symoff = None              # hook for symbolic-offset accesses (loop summaries)
    # ------------------------------------------------------------ objects
    def buffer(self, name, size, elem, align=None, ro=False):
        return Obj(name, size, align or elem, 'buf', elem, ro)
    def run_ctors(self, st):
        """the module's namespace-scope dynamic initialisers, in their order; one that is outside the executor is left out"""
        if '@llvm.global_ctors' not in self.m.gtext: return st
        if self.m.ctors is None: self.m.ctors = re.findall(r'\{ i32 \d+, ptr (@[\w.$"-]+), ptr', self.m.gtext['@llvm.global_ctors'])
        for f in self.m.ctors:
            keep = st.fork(T.true())
            try:
                r = self.call_function(st, f, [])
                if r is not None: st = r[0]; continue
            except Unsupported: pass
            st = keep
        self.gwrites = []; self.obl = []; self.steps = 0; self.forks = 0; self.funcs = set()
        if self.reads is not None: self.reads = []
        return st
    def global_obj(self, n):
        o = self.globs.get(n)
        if o is None:
            t, init, isc, al = self.m.glob(n)
            o = Obj(n, tysize(t), max(al, tyalign(t)), 'global', 1, isc)
            o.init = (t, init)
            self.globs[n] = o; self.objs[o.id] = o
        return o
    # ------------------------------------------------------------ constants
    def const(self, k):
        key = id(k)
        r = self.kc.get(key)
        if r is not None: return r[1]
        v = self._const(k[1], k[2])
        if not (isinstance(k[2], str) and k[2] == 'undef'): self.kc[key] = (k, v)
        return v
    def _const(self, t, c):
        if isinstance(c, int): return T.const(bitw(t), c)
        if c == 'undef': return self.undef_of(t)
        if c == 'zero': return self.zero_of(t)
        if c == 'null': return NULL
        if c[0] in ('vec', 'agg'):
            l = [self.const(x) for x in c[1]]
            return l if c[0] == 'vec' else tuple(l)
        if c[0] == 'bytes': return tuple(T.const(8, b) for b in c[1])
        if c[0] == 'g':
            n = c[1]
            if n in self.m.ftext or n in self.m.decl: return Fn(n)
            return Ptr(self.global_obj(n), 0)
        if c[0] == 'gep':
            base = self.const(c[2][0][1]); return self.gep(c[1], base, [(x[0], self.const(x[1])) for x in c[2][1:]])
        if c[0] == 'cast':
            v = self.const(c[3])
            if c[1] in ('bitcast', 'addrspacecast'): return v
            if c[1] == 'ptrtoint': return self.p2i(v)
        raise Unsupported('const %s' % (c,))
    def undef_of(self, t):
        if t[0] in ('i', 'f'): return T.undef(t[1])
        if t[0] == 'v': return [self.undef_of(t[2]) for _ in range(t[1])]
        if t[0] == 'a': return tuple(self.undef_of(t[2]) for _ in range(t[1]))
        if t[0] == 's': return tuple(self.undef_of(x) for x in t[1])
        if t[0] == 'p': return NULL
        raise Unsupported('undef')
    def zero_of(self, t):
        if t[0] in ('i', 'f'): return T.const(t[1], 0)
        if t[0] == 'v': return [self.zero_of(t[2])] * t[1]
        if t[0] == 'a': return tuple([self.zero_of(t[2])] * t[1])
        if t[0] == 's': return tuple(self.zero_of(x) for x in t[1])
        if t[0] == 'p': return NULL
        raise Unsupported('zero')
    # ------------------------------------------------------------ pointers
    def p2i(self, p):
        if isinstance(p, PtrIte): return T.ite(p.c, self.p2i(p.a), self.p2i(p.b))
        if isinstance(p, Fn): return T.var('addr.fn.' + p.name, 64)
        if p.obj is None: return T.const(64, p.off) if isinstance(p.off, int) else p.off
        o = p.obj
        if o.base is None:
            a = max(1, o.align).bit_length() - 1
            o.base = T.var('addr.%s.%d' % (o.name, o.id), 64)
            if a: o.base = T.concat(T.var('addr.%s.%d' % (o.name, o.id), 64 - a), T.const(a, 0))
            self.bases[o.base.id] = o
        return T.add(o.base, T.const(64, p.off) if isinstance(p.off, int) else p.off)
    def i2p(self, t):
        if T.is_c(t): return Ptr(None, t.p)
        b, c = T._affine(t)
        o = self.bases.get(b.id)
        if o is not None: return Ptr(o, T._s(64, c))
        if t.op == 'ite': return PtrIte(t.args[0], self.i2p(t.args[1]), self.i2p(t.args[2]))
        # (base + off) & ~mask with base aligned
        for x in T.postorder([t]):
            o = self.bases.get(x.id)
            if o is not None:
                r = T.substitute(T.sub(t, x), {x: T.const(64, 0)})
                # only valid for masks below the alignment of the base
                if t.op == 'and' and T.is_c(t.args[0]):
                    inv = (~t.args[0].p) & T.mask(64)
                    if inv < o.align:
                        bb, cc = T._affine(t.args[1])
                        if bb is x: return Ptr(o, T._s(64, cc & t.args[0].p))
                if T.is_c(r) and t.op in ('add', 'sub'): return Ptr(o, T._s(64, r.p))
        raise Unsupported('inttoptr')
    def padd(self, p, d):
        if isinstance(d, int) and d == 0: return p
        if isinstance(p, PtrIte): return PtrIte(p.c, self.padd(p.a, d), self.padd(p.b, d))
        if isinstance(p, Fn): raise Unsupported('fn ptr arithmetic')
        if isinstance(d, T.T):
            if T.is_c(d): d = T._s(64, d.p)
            else:
                o = T.const(64, p.off) if isinstance(p.off, int) else p.off
                return self._mkptr(p.obj, T.add(o, d))
        if isinstance(p.off, int): return Ptr(p.obj, p.off + d)
        return self._mkptr(p.obj, T.add(p.off, T.const(64, d)))
    def _mkptr(self, obj, off):
        if T.is_c(off): return Ptr(obj, T._s(64, off.p))
        return Ptr(obj, off)
    def gep(self, et, base, idx):
        if isinstance(base, list):
            raise Unsupported('vector gep')
        off = 0; symb = None
        def addi(v, sc):
            nonlocal off, symb
            if T.is_c(v): off += T._s(v.w, v.p) * sc
            else:
                if v.w < 64: v = T.sext(v, 64)
                x = T.mul(v, T.const(64, sc)); symb = x if symb is None else T.add(symb, x)
        addi(idx[0][1], tysize(et))
        t = et
        for it, v in idx[1:]:
            if t[0] == 's':
                i = v.p; off += field_off(t, i); t = t[1][i]
            elif t[0] in ('a', 'v'):
                addi(v, tysize(t[2])); t = t[2]
            else: raise Unsupported('gep type')
        p = self.padd(base, off)
        if symb is not None: p = self.padd(p, symb)
        return p
    # ------------------------------------------------------------ memory
    def bad(self, st, kind, info, obj=None, off=None, size=None, cond=None):
        pc = st.pc if cond is None else T.and_(st.pc, cond)
        if T.is_c(pc) and pc.p == 0: return
        self.obl.append(Obligation(kind, pc, info, obj, off, size))
    def check(self, st, obj, off, size, al, wr):
        if obj.size is not None and (off < 0 or off + size > obj.size):
            self.bad(st, 'oob-write' if wr else 'oob-read', '%s of %d bytes at %s%+d (size %s)' % ('write' if wr else 'read', size, obj.name, off, obj.size), obj, off, size)
            return False
        if wr and obj.ro:
            self.bad(st, 'ro-write', 'write to read-only %s%+d' % (obj.name, off), obj, off, size)
        if al > 1 and (off % al or obj.align % al):
            if off % al == 0 and obj.align < al or off % al:
                self.bad(st, 'align', 'access to %s%+d needs %d-byte alignment, has %d' % (obj.name, off, al, obj.align), obj, off, size)
        return True
    def init_read(self, obj, off, size):
        """value of memory never written"""
        if obj.kind == 'buf':
            e = obj.elem
            i = off // e
            if off % e == 0 and size == e: return T.var('%s[%d]' % (obj.name, i), 8 * e)
            t = T.var('%s[%d]' % (obj.name, i), 8 * e)
            lo = off - i * e
            if lo + size <= e: return T.extract(t, 8 * (lo + size) - 1, 8 * lo)
            k = e - lo
            return T.concat(self.init_read(obj, off + k, size - k), self.init_read(obj, off, k))
        if obj.kind == 'global':
            t, init = obj.init
            if self.static_var and not obj.ro: return self.static_var(obj, off, size)
            if init is None: return T.var('%s@%d' % (obj.name, off), 8 * size)
            v = self.glob_bytes(obj)
            return flat_bits(v[off:off + size])
        if obj.kind == 'sym': return obj.init(off, size)
        return T.mk('undef', (), 8 * size, '%s#%d@%d' % (obj.name, obj.id, off))
    def glob_bytes(self, obj):
        if obj.base is not None and isinstance(obj.base, list): return obj.base
        t, init = obj.init
        out = [T.const(8, 0)] * tysize(t)
        def put(t, v, o):
            if isinstance(v, T.T):
                s = tysize(t)
                for i in range(s): out[o + i] = T.extract(T.zext(v, 8 * s), 8 * i + 7, 8 * i)
            elif isinstance(v, list):
                for i, x in enumerate(v): put(t[2], x, o + i * tysize(t[2]))
            elif isinstance(v, tuple):
                if t[0] == 'a':
                    for i, x in enumerate(v): put(t[2], x, o + i * tysize(t[2]))
                else:
                    for i, x in enumerate(v): put(t[1][i], x, o + field_off(t, i))
            else:
                raise Unsupported('pointer in global')
        put(t, self._const(t, init), 0)
        self_bytes = out
        obj.gran = -1
        return out
    def read_raw(self, st, obj, off, size):
        cells = st.mem.get(obj.id)
        if cells:
            c = cells.get(off)
            if c is not None and c[0] == size: return c[1]
            if obj.gran == size and off % size == 0:
                return self.init_read(obj, off, size) if c is None else c[1]
            return self.read_slow(cells, obj, off, size)
        return self.init_read(obj, off, size)
    def read_slow(self, cells, obj, off, size):
        parts = []; pos = off; end = off + size
        while pos < end:
            hit = None
            for s in range(pos, pos - 16, -1):
                c = cells.get(s)
                if c is not None:
                    if s + c[0] > pos: hit = (s, c)
                    break
            if hit:
                s, c = hit
                if not isinstance(c[1], T.T):
                    if s == off and c[0] == size: return c[1]
                    v = self.p2i(c[1])
                else: v = c[1]
                e = min(end, s + c[0])
                parts.append(T.extract(v, 8 * (e - s) - 1, 8 * (pos - s))); pos = e
            else:
                e = pos + 1
                # extend over unwritten bytes up to the next cell / element boundary
                g = obj.elem if obj.kind == 'buf' else size
                lim = min(end, (pos // g + 1) * g if obj.kind == 'buf' else end)
                while e < lim and e not in cells: e += 1
                parts.append(self.init_read(obj, pos, e - pos)); pos = e
        r = parts[0]
        for x in parts[1:]: r = T.concat(x, r)
        return r
    def write_raw(self, st, obj, off, size, v):
        cells = st.cells(obj)
        if obj.gran == 0: obj.gran = size if off % size == 0 else -1
        elif obj.gran != size or off % size: obj.gran = -1
        if obj.gran == -1 and not (off in cells and cells[off][0] == size):
            # remove overlapping cells
            for s in range(off - 15, off + size):
                c = cells.get(s)
                if c is None or s + c[0] <= off: continue
                del cells[s]
                val = c[1] if isinstance(c[1], T.T) else self.p2i(c[1])
                if s < off: cells[s] = (off - s, T.extract(val, 8 * (off - s) - 1, 0))
                if s + c[0] > off + size:
                    k = off + size - s
                    cells[off + size] = (c[0] - k, T.extract(val, 8 * c[0] - 1, 8 * k))
        cells[off] = (size, v)
    def load(self, st, t, p, al):
        if isinstance(p, PtrIte):
            return merge_val(p.c, self.load_g(st, t, p.a, al, p.c), self.load_g(st, t, p.b, al, T.bnot(p.c)))
        if isinstance(p, T.T): p = self.i2p(p)
        if isinstance(p, Fn) or p.obj is None:
            self.bad(st, 'oob-read', 'load through null or function pointer'); return self.undef_of(t)
        if not isinstance(p.off, int): return self.load_sym(st, t, p, al)
        size = tysize(t)
        if not self.check(st, p.obj, p.off, size, al, False):
            return self.undef_of(t)
        if self.reads is not None: self.reads.append((p.obj, p.off, size))
        return self.load_at(st, t, p.obj, p.off)
    def load_g(self, st, t, p, al, c):
        if T.is_c(c) and c.p == 0:
            return self.undef_of(t)
        pc = st.pc; st.pc = T.and_(pc, c)
        r = self.load(st, t, p, al)
        st.pc = pc
        return r
    def load_at(self, st, t, obj, off):
        k = t[0]
        if k in ('i', 'f'):
            s = tysize(t); v = self.read_raw(st, obj, off, s)
            if not isinstance(v, T.T): v = self.p2i(v)
            return T.extract(v, t[1] - 1, 0) if v.w != t[1] else v
        if k == 'v':
            if t[2][0] == 'i' and t[2][1] < 8:
                v = self.read_raw(st, obj, off, tysize(t)); return split_bits(v, t[1], t[2][1])
            s = tysize(t[2])
            return [self.load_at(st, t[2], obj, off + i * s) for i in range(t[1])]
        if k == 'p':
            v = self.read_raw(st, obj, off, 8)
            if isinstance(v, T.T):
                if v.op == 'undef': return NULL
                v = self.i2p(v)
            return v
        if k == 'a':
            s = tysize(t[2])
            return tuple(self.load_at(st, t[2], obj, off + i * s) for i in range(t[1]))
        if k == 's':
            return tuple(self.load_at(st, e, obj, off + field_off(t, i)) for i, e in enumerate(t[1]))
        raise Unsupported('load type')
    def sym_cands(self, obj, size, p):
        step = size
        if obj.size is None or obj.size // step > 512: raise Unsupported('symbolic offset in large object')
        return range(0, obj.size - size + 1, step)
    def load_sym(self, st, t, p, al):
        if self.symoff is not None: return self.symoff(st, t, p, al, None)
        size = tysize(t); res = None; ok = T.false()
        for o in self.sym_cands(p.obj, size, p):
            c = T.eq(p.off, T.const(64, o)); ok = T.or_(ok, c)
            v = self.load_at(st, t, p.obj, o)
            res = v if res is None else merge_val(c, v, res)
        self.bad(st, 'oob-read', 'read at symbolic offset of %s' % p.obj.name, p.obj, None, size, T.bnot(ok))
        return res
    def store(self, st, t, v, p, al):
        if isinstance(p, PtrIte):
            # conditional store to each candidate
            for q, c in ((p.a, p.c), (p.b, T.bnot(p.c))):
                pc = st.pc; n = len(self.obl)
                old = self.load_g(st, t, q, 1, c)
                del self.obl[n:]
                st.pc = T.and_(pc, c)
                self.store(st, t, merge_val(c, v, old), q, al)
                st.pc = pc
            return
        if isinstance(p, T.T): p = self.i2p(p)
        if isinstance(p, Fn) or p.obj is None:
            self.bad(st, 'oob-write', 'store through null or function pointer'); return
        if not isinstance(p.off, int): return self.store_sym(st, t, v, p, al)
        if not self.check(st, p.obj, p.off, tysize(t), al, True): return
        if p.obj.kind == 'global': self.gwrites.append((p.obj, p.off, st.pc))
        self.store_at(st, t, v, p.obj, p.off)
    def store_sym(self, st, t, v, p, al):
        if self.symoff is not None: return self.symoff(st, t, p, al, v)
        size = tysize(t); ok = T.false()
        for o in self.sym_cands(p.obj, size, p):
            c = T.eq(p.off, T.const(64, o)); ok = T.or_(ok, c)
            self.store_at(st, t, merge_val(c, v, self.load_at(st, t, p.obj, o)), p.obj, o)
        self.bad(st, 'oob-write', 'write at symbolic offset of %s' % p.obj.name, p.obj, None, size, T.bnot(ok))
    def store_at(self, st, t, v, obj, off):
        k = t[0]
        if k in ('i', 'f'):
            s = tysize(t)
            if v.w != 8 * s: v = T.zext(v, 8 * s)
            self.write_raw(st, obj, off, s, v)
        elif k == 'v':
            if t[2][0] == 'i' and t[2][1] < 8:
                b = flat_bits(v); self.write_raw(st, obj, off, tysize(t), T.zext(b, 8 * tysize(t))); return
            s = tysize(t[2])
            for i in range(t[1]): self.store_at(st, t[2], v[i], obj, off + i * s)
        elif k == 'p': self.write_raw(st, obj, off, 8, v)
        elif k == 'a':
            s = tysize(t[2])
            for i in range(t[1]): self.store_at(st, t[2], v[i], obj, off + i * s)
        elif k == 's':
            for i, e in enumerate(t[1]): self.store_at(st, e, v[i], obj, off + field_off(t, i))
        else: raise Unsupported('store type')
    def merge_mem(self, c, a, b):
        """a where c else b -> new State"""
        r = State()
        ids = set(a.mem) | set(b.mem)
        for i in ids:
            x = a.mem.get(i); y = b.mem.get(i)
            if x is y: r.mem[i] = x; continue
            if x is None or y is None:
                ob = self.objs.get(i)
                if ob is None: raise Unsupported('merge of an unknown object')
                x = x or {}; y = y or {}
            ob = self.objs.get(i)
            out = {}
            mixed = False
            for k in set(x) | set(y):
                u = x.get(k); v = y.get(k)
                if u is v: out[k] = u; continue
                if u is not None and v is not None and u[0] == v[0]:
                    out[k] = (u[0], merge_val(c, u[1], v[1])); continue
                if ob is None or ob.gran != (u or v)[0]: mixed = True; break
                s = (u or v)[0]
                d = self.init_read(ob, k, s)
                uu = u[1] if u else d; vv = v[1] if v else d
                try: out[k] = (s, merge_val(c, uu, vv))
                except Unsupported: out[k] = u or v
            if mixed:
                cuts = set()
                for z in (x, y):
                    for k, cc in z.items(): cuts.add(k); cuts.add(k + cc[0])
                cuts = sorted(cuts); out = {}
                def cov(z, lo):
                    for s in range(lo, lo - 16, -1):
                        q = z.get(s)
                        if q is not None: return s + q[0] > lo
                    return False
                for lo, hi in zip(cuts, cuts[1:]):
                    if not (cov(x, lo) or cov(y, lo)): continue
                    u = self.read_slow(x, ob, lo, hi - lo); v = self.read_slow(y, ob, lo, hi - lo)
                    out[lo] = (hi - lo, merge_val(c, u, v))
                ob.gran = -1
            r.mem[i] = out; r.owned.add(i)
        return r
    # ------------------------------------------------------------ execution
    objs = {}
    def new_obj(self, *a, **k):
        o = Obj(*a, **k); self.objs[o.id] = o; return o
    def val(self, regs, o):
        if o[0] == 'r': return regs[o[1]]
        return self.const(o)
    def call_function(self, st, name, args):
        f = self.m.func(name); self.funcs.add(name)
        regs = {}
        for (t, n), v in zip(f.params, args): regs[n] = v
        allocs = []
        r = self.run(f, regs, st, f.entry, None, None, allocs)
        if r is None: return None
        kind, st2, val = r[0], r[1], r[2]
        for o in allocs:
            st2.mem.pop(o.id, None)
        return st2, val
    def phis(self, f, regs, blk, prev):
        ins = f.blocks[blk]
        upd = []
        for i in ins:
            if i[0] != 'phi': break
            for v, b in i[3]:
                if b == prev:
                    upd.append((i[1], self.val(regs, v))); break
            else: raise Unsupported('phi')
        for k, v in upd: regs[k] = v
        return len(upd)
    def run(self, f, regs, st, blk, prev, stop, allocs):
        while True:
            ins = f.blocks[blk]
            nxt = None
            for i in ins:
                op = i[0]
                if op == 'phi': continue
                self.steps += 1
                if op == 'br': nxt = i[2]; break
                if op == 'cbr':
                    c = self.val(regs, i[2])
                    if i[3] == i[4]: nxt = i[3]; break
                    if T.is_c(c): nxt = i[3] if c.p else i[4]; break
                    if self.on_branch is not None:
                        nxt = self.on_branch(f, regs, st, blk, c, i[3], i[4])
                        if nxt is not None: break
                    r = self.fork(f, regs, st, blk, [(c, i[3]), (T.bnot(c), i[4])], allocs)
                elif op == 'switch':
                    v = self.val(regs, i[3])
                    if T.is_c(v):
                        nxt = i[4]
                        for cv, b in i[5]:
                            if self.const(cv).p == v.p: nxt = b; break
                        break
                    alts = []; rest = T.true()
                    tg = {}
                    for cv, b in i[5]:
                        c = T.eq(v, self.const(cv)); alts.append((T.and_(rest, c), b)); rest = T.and_(rest, T.bnot(c))
                    alts.append((rest, i[4]))
                    r = self.fork(f, regs, st, blk, alts, allocs)
                elif op == 'ret':
                    return ('ret', st, None if i[3] is None else self.val(regs, i[3]))
                elif op == 'unreachable':
                    self.bad(st, 'unreachable', 'unreachable reached in %s' % f.name)
                    return None
                elif op == 'call':
                    res = self.call(st, regs, i, allocs)
                    if res is None: return None
                    st, v = res
                    if i[1] is not None: regs[i[1]] = v
                    if i[5]: nxt = i[5]; break
                    continue
                else:
                    self.step(st, regs, i, allocs)
                    continue
                # a fork happened
                if r is None: return None
                if r[0] == 'ret': return r
                _, st, regs2, blk2 = r
                regs.clear(); regs.update(regs2)
                if blk2 == stop: return ('stop', st, regs, blk2)
                blk = blk2; nxt = None
                break
            else:
                raise Unsupported('fallthrough')
            if nxt is None: continue
            if self.steps > self.max_steps: raise Unsupported('step limit')
            if self.on_edge is not None:
                r = self.on_edge(f, regs, st, blk, nxt, allocs)
                if r is not None:
                    st, regs2, prev, blk = r
                    if regs2 is not regs: regs.clear(); regs.update(regs2)
                    if blk == stop: return ('stop', st, regs, blk)
                    continue
            self.phis(f, regs, nxt, blk)
            prev, blk = blk, nxt
            if blk == stop: return ('stop', st, regs, blk)
    def fork(self, f, regs, st, blk, alts, allocs):
        self.forks += 1
        if self.forks > self.max_forks: raise Unsupported('fork limit')
        ipd = f.ipdom.get(blk, '<exit>')
        outs = []
        for c, b in alts:
            if T.is_c(c) and c.p == 0: continue
            s = st.fork(c)
            if T.is_c(s.pc) and s.pc.p == 0: continue
            rg = dict(regs)
            self.phis(f, rg, b, blk)
            if b == ipd: r = ('stop', s, rg, b)
            else: r = self.run(f, rg, s, b, blk, ipd if ipd != '<exit>' else None, allocs)
            if r is not None: outs.append((c, r))
        if not outs: return None
        c0, acc = outs[-1]
        pcs = acc[1].pc
        for c, r in reversed(outs[:-1]):
            m = self.merge_mem(c, r[1], acc[1])
            pcs = T.or_(pcs, r[1].pc)
            if r[0] == 'ret':
                v = None if r[2] is None else merge_val(c, r[2], acc[2])
                acc = ('ret', m, v)
            else:
                ra, rb = r[2], acc[2]
                out = {}
                for k, x in ra.items():
                    y = rb.get(k)
                    if y is None: continue
                    if x is y: out[k] = x
                    else:
                        try: out[k] = merge_val(c, x, y)
                        except Unsupported: pass
                acc = ('stop', m, out, r[3])
        if len(outs) == 1:
            acc[1].owned = set()
        acc[1].pc = pcs if len(outs) < len(alts) else st.pc
        return acc
    def step(self, st, regs, i, allocs):
        op = i[0]; d = i[1]
        if op == 'load': regs[d] = self.load(st, i[2], self.val(regs, i[3]), i[4])
        elif op == 'atomicrmw':
            a = self.val(regs, i[4]); v = self.val(regs, i[5]); old = self.load(st, i[3], a, 1)
            f = {'xchg': lambda x, y: y, 'add': T.add, 'sub': T.sub, 'and': T.and_, 'or': T.or_, 'xor': T.xor, 'fadd': lambda x, y: T.fop('fadd', x, y), 'fsub': lambda x, y: T.fop('fsub', x, y)}.get(i[2])
            if f is None: raise Unsupported('atomicrmw ' + i[2])
            self.store(st, i[3], f(old, v), a, 1); regs[i[1]] = old
        elif op == 'store': self.store(st, i[2], self.val(regs, i[3]), self.val(regs, i[4]), i[5])
        elif op == 'gep':
            regs[d] = self.gep(i[2], self.val(regs, i[3]), [(t, self.val(regs, v)) for t, v in i[4]])
        elif op == 'bin':
            a = self.val(regs, i[4]); b = self.val(regs, i[5]); fn = BIN[i[2]]
            if i[2] in ('udiv', 'sdiv', 'urem', 'srem') and isinstance(b, T.T):
                z = T.eq(b, T.const(b.w, 0))
                if not (T.is_c(z) and z.p == 0): self.bad(st, 'div0', 'division by zero', cond=z)
            if isinstance(a, list): regs[d] = [fn(x, y) for x, y in zip(a, b)]
            else: regs[d] = fn(a, b)
        elif op == 'alloca':
            n = i[3]
            if n != 1:
                n = self.val(regs, n)
                if not T.is_c(n): raise Unsupported('alloca size')
                n = n.p
            o = self.new_obj(d, tysize(i[2]) * n, i[4]); allocs.append(o)
            regs[d] = Ptr(o, 0)
        elif op == 'icmp':
            a = self.val(regs, i[4]); b = self.val(regs, i[5])
            if isinstance(a, list): regs[d] = [self.icmp(i[2], x, y) for x, y in zip(a, b)]
            else: regs[d] = self.icmp(i[2], a, b)
        elif op == 'fcmp':
            a = self.val(regs, i[4]); b = self.val(regs, i[5])
            if isinstance(a, list): regs[d] = [T.fcmp_pred(i[2], x, y) for x, y in zip(a, b)]
            else: regs[d] = T.fcmp_pred(i[2], a, b)
        elif op == 'select':
            c = self.val(regs, i[3]); a = self.val(regs, i[5]); b = self.val(regs, i[6])
            if isinstance(c, list): regs[d] = [merge_val(x, y, z) for x, y, z in zip(c, a, b)]
            elif T.is_c(c): regs[d] = a if c.p else b
            else: regs[d] = merge_val(c, a, b)
        elif op == 'cast':
            regs[d] = self.cast(st, i[2], i[3], self.val(regs, i[4]), i[5])
        elif op == 'extractelement':
            v = self.val(regs, i[3]); k = self.val(regs, i[4])
            if T.is_c(k): regs[d] = v[k.p] if k.p < len(v) else T.undef(v[0].w)
            else:
                r = v[-1]
                for j in range(len(v) - 2, -1, -1): r = merge_val(T.eq(k, T.const(k.w, j)), v[j], r)
                regs[d] = r
        elif op == 'insertelement':
            v = list(self.val(regs, i[3])); e = self.val(regs, i[4]); k = self.val(regs, i[5])
            if T.is_c(k): v[k.p] = e
            else: v = [merge_val(T.eq(k, T.const(k.w, j)), e, v[j]) for j in range(len(v))]
            regs[d] = v
        elif op == 'shufflevector':
            a = self.val(regs, i[3]); b = self.val(regs, i[4]); m = i[6][2]; n = i[5][1]
            if m == 'zero': idx = [0] * n
            elif m == 'undef': idx = [None] * n
            else: idx = [x[2] if isinstance(x[2], int) else None for x in m[1]]
            ab = list(a) + list(b)
            regs[d] = [T.undef(a[0].w, 'shuf') if j is None else ab[j] for j in idx]
        elif op == 'extractvalue':
            v = self.val(regs, i[3])
            for k in i[4]: v = v[k]
            regs[d] = v
        elif op == 'insertvalue':
            v = self.val(regs, i[3]); e = self.val(regs, i[5])
            def ins(v, idx):
                l = list(v); l[idx[0]] = e if len(idx) == 1 else ins(l[idx[0]], idx[1:])
                return tuple(l)
            regs[d] = ins(v, i[6])
        elif op == 'fneg':
            a = self.val(regs, i[3])
            regs[d] = [T.fneg(x) for x in a] if isinstance(a, list) else T.fneg(a)
        elif op == 'freeze': regs[d] = self.val(regs, i[3])
        elif op == 'nop': pass
        elif op == 'asm': raise Unsupported('asm')
        else: raise Unsupported('instr %s' % (i,))
    def icmp(self, pred, a, b):
        if isinstance(a, T.T) and isinstance(b, T.T): return ICMP[pred](a, b)
        if isinstance(a, PtrIte): return T.ite(a.c, self.icmp(pred, a.a, b), self.icmp(pred, a.b, b))
        if isinstance(b, PtrIte): return T.ite(b.c, self.icmp(pred, a, b.a), self.icmp(pred, a, b.b))
        if isinstance(a, Fn) or isinstance(b, Fn):
            same = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            return T.const(1, int(same == (pred == 'eq')))
        if a.obj is b.obj:
            x = T.const(64, a.off) if isinstance(a.off, int) else a.off
            y = T.const(64, b.off) if isinstance(b.off, int) else b.off
            return ICMP[{'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred)](x, y)
        if pred == 'eq': return T.false()
        if pred == 'ne': return T.true()
        return ICMP[pred](self.p2i(a), self.p2i(b))
    def cast(self, st, op, t1, v, t2):
        if op == 'bitcast':
            if t1[0] == 'p' or t2[0] == 'p': return v
            if t2[0] == 'v':
                w = bitw(t2[2])
                if isinstance(v, list): return relane(v, w)
                return split_bits(v, t2[1], w)
            return flat_bits(v) if isinstance(v, list) else v
        if isinstance(v, list):
            return [self.cast(st, op, t1[2], x, t2[2]) for x in v]
        if op == 'ptrtoint':
            r = self.p2i(v); return T.extract(r, t2[1] - 1, 0) if t2[1] < 64 else T.zext(r, t2[1])
        if op == 'inttoptr': return self.i2p(T.zext(v, 64))
        w = t2[1]
        if op == 'trunc': return T.extract(v, w - 1, 0)
        if op == 'zext': return T.zext(v, w)
        if op == 'sext': return T.sext(v, w)
        if op == 'fpext': return T.fpext(v, w)
        if op == 'fptrunc': return T.fptrunc(v, w)
        if op == 'sitofp': return T.sitofp(v, w)
        if op == 'uitofp': return T.uitofp(v, w)
        if op == 'fptosi':
            if w < 32: return T.extract(T.cvtt(v, 32), w - 1, 0)
            return T.cvtt(v, w)
        if op == 'fptoui':
            if w <= 32: return T.extract(T.cvtt(v, 64), w - 1, 0)
            raise Unsupported('fptoui64')
        raise Unsupported('cast ' + op)
    # ------------------------------------------------------------ calls
    def call(self, st, regs, i, allocs):
        cal = self.val(regs, i[3])
        if not isinstance(cal, Fn): raise Unsupported('indirect call')
        n = cal.name
        args = [None if a[1] is None else self.val(regs, a[1]) for a in i[4]]
        if n in self.m.ftext:
            return self.call_function(st, n, args)
        if n.startswith('@llvm.'):
            return st, self.intrinsic(st, n[6:], i[2], args, i[4])
        return self.external(st, n[1:].strip('"'), i[2], args)
    def external(self, st, n, rt, a):
        if n in ('__assert_fail', 'abort', '__assert', '_ZSt9terminatev', '__cxa_pure_virtual'):
            self.bad(st, 'assert', 'assertion fails (%s)' % n)
            return None
        if n in ('memcpy', 'memmove', 'memset'):
            self.memop(st, n, a); return st, a[0]
        # one-time initialisation of function-local statics
        if n == '__cxa_guard_acquire':
            return st, T.zext(T.eq(self.load(st, ('i', 8), a[0], 1), T.const(8, 0)), 32)
        if n in ('__cxa_guard_release', '__cxa_guard_abort'):
            if n.endswith('release'): self.store(st, ('i', 8), T.const(8, 1), a[0], 1)
            return st, None
        if n in ('__cxa_atexit', '__cxa_thread_atexit'): return st, T.const(32, 0)
        if n in ('lrint', 'lrintf', 'llrint', 'llrintf'): return st, T.cvtr(a[0], rt[1])
        if n in ('lround', 'lroundf', 'llround', 'llroundf'): return st, T.cvtt(T.frint('rna', a[0]), rt[1])
        if n in ('ldexp', 'ldexpf', 'scalbn', 'scalbnf') and T.is_c(a[1]):
            k = a[1].p - (1 << 32 if a[1].p >> 31 else 0)
            if abs(k) <= (126 if a[0].w == 32 else 1022): return st, T.fop('fmul', a[0], T.fconst(a[0].w, 2.0 ** k))
        if rt[0] == 'f':
            w = rt[1]; b = n[:-1] if (w == 32 and n.endswith('f') and n != 'erf') else n
            r = self.mathfn(b, w, a)
            if r is not None: return st, r
        raise Unsupported('external ' + n)
    def mathfn(self, b, w, a):
        if b in ROUND: return T.frint(ROUND[b], a[0])
        if b == 'fabs': return T.fabs(a[0])
        if b == 'sqrt': return T.fop('fsqrt', a[0])
        if b in LIBM1:
            if T.is_c(a[0]): return T.const(w, T.fe.libm(b, w, [a[0].p]))
            return T.libm(b, (a[0],), w)
        if b in ('fmin',): return fminnum(a[0], a[1])
        if b in ('fmax',): return fmaxnum(a[0], a[1])
        if b == 'copysign': return copysign(a[0], a[1])
        if b == 'fma': return T.fop('ffma', *a)
        if b == 'fmod': return T.fop('frem', a[0], a[1])
        if b in ('pow', 'atan2', 'hypot'):
            if T.is_c(a[0]) and T.is_c(a[1]): return T.const(w, T.fe.libm(b, w, [a[0].p, a[1].p]))
            return T.libm(b, tuple(a), w)
        return None
    def memop(self, st, op, a):
        n = a[2]
        if isinstance(n, T.T):
            if not T.is_c(n):
                if self.symoff is not None: return self.symoff(st, op, a, None, None)
                raise Unsupported('memop size')
            n = n.p
        if n == 0: return
        d = a[0]
        if not isinstance(d, Ptr) or not isinstance(d.off, int) or d.obj is None: raise Unsupported('memop dest')
        if n > 1 << 20: raise Unsupported('memop huge')
        if op == 'memset':
            if not self.check(st, d.obj, d.off, n, 1, True): return
            b = T.extract(a[1], 7, 0)
            g = d.obj.elem if d.obj.kind == 'buf' else (8 if n % 8 == 0 and d.off % 8 == 0 else 4 if n % 4 == 0 and d.off % 4 == 0 else 1)
            if d.obj.gran > 0 and n % d.obj.gran == 0 and d.off % d.obj.gran == 0: g = d.obj.gran
            if n % g or d.off % g: g = 1
            v = b
            for _ in range(g - 1): v = T.concat(b, v)
            for o in range(0, n, g): self.write_raw(st, d.obj, d.off + o, g, v)
            if d.obj.kind == 'global': self.gwrites.append((d.obj, d.off, st.pc))
            return
        s = a[1]
        if isinstance(s, PtrIte): raise Unsupported('memcpy guarded src')
        if not isinstance(s.off, int) or s.obj is None: raise Unsupported('memcpy src')
        ok = self.check(st, s.obj, s.off, n, 1, False)
        ok2 = self.check(st, d.obj, d.off, n, 1, True)
        if not (ok and ok2): return
        if self.reads is not None: self.reads.append((s.obj, s.off, n))
        if d.obj.kind == 'global': self.gwrites.append((d.obj, d.off, st.pc))
        if op == 'memcpy' and s.obj is d.obj and s.off != d.off and abs(s.off - d.off) < n:
            self.bad(st, 'overlap', 'memcpy with overlapping buffers')
        cells = st.mem.get(s.obj.id, {})
        items = []
        pos = s.off; end = s.off + n
        while pos < end:
            c = cells.get(pos)
            if c is not None and pos + c[0] <= end: items.append((pos, c[0], c[1])); pos += c[0]; continue
            g = s.obj.elem if s.obj.kind == 'buf' else (s.obj.gran if s.obj.gran > 0 else 4)
            if pos % g or pos + g > end: g = 1
            items.append((pos, g, self.read_raw(st, s.obj, pos, g))); pos += g
        for p, sz, v in items: self.write_raw(st, d.obj, d.off + p - s.off, sz, v)
    NOPS = ('lifetime.', 'assume', 'experimental.noalias', 'dbg.', 'donothing', 'invariant.', 'x86.avx.vzero', 'x86.sse.sfence', 'x86.sse2.mfence', 'x86.sse2.lfence', 'prefetch', 'stackrestore', 'x86.mmx.emms')
    def intrinsic(self, st, n, rt, a, at):
        for p in self.NOPS:
            if n.startswith(p): return None
        if n.startswith('memcpy') or n.startswith('memmove') or n.startswith('memset'):
            return self.memop(st, n.split('.')[0], a)
        if n.startswith('x86.'): return self.x86(st, n[4:], rt, a)
        b = n.split('.')[0]
        def lanes(f):
            if isinstance(a[0], list): return [f(*x) for x in zip(*[y if isinstance(y, list) else [y] * len(a[0]) for y in a])]
            return f(*a)
        w = None
        if b in ROUND: return lanes(lambda x: T.frint(ROUND[b], x))
        if b in ('fabs', 'sqrt', 'fma', 'copysign'):
            return lanes(lambda *x: self.mathfn(b, x[0].w, x))
        if b == 'fmuladd': return lanes(lambda x, y, z: T.fop('fadd', T.fop('fmul', x, y), z))
        if b == 'minnum': return lanes(fminnum)
        if b == 'maxnum': return lanes(fmaxnum)
        if b in LIBM1 or b in ('pow',): return lanes(lambda *x: self.mathfn(b, x[0].w, x))
        if b == 'umin': return lanes(lambda x, y: T.ite(T.ult(x, y), x, y))
        if b == 'umax': return lanes(lambda x, y: T.ite(T.ult(x, y), y, x))
        if b == 'smin': return lanes(lambda x, y: T.ite(T.slt(x, y), x, y))
        if b == 'smax': return lanes(lambda x, y: T.ite(T.slt(x, y), y, x))
        if b == 'abs': return lanes(lambda x, *_: T.ite(sgn(x), T.sub(T.const(x.w, 0), x), x))
        if b in ('lrint', 'llrint'): return lanes(lambda x: T.cvtr(x, rt[1] if rt[0] == 'i' else rt[2][1]))
        if b in ('lround', 'llround'): return lanes(lambda x: T.cvtt(T.frint('rna', x), rt[1]))
        if b == 'threadlocal': return a[0]
        if b == 'expect': return a[0]
        if b == 'objectsize': return T.const(rt[1], T.mask(rt[1]))
        if b == 'is':       # is.constant / is.fpclass
            if n.startswith('is.constant'): return T.false()
            if n.startswith('is.fpclass'):
                m = a[1].p; x = a[0]
                def cls(x):
                    w = x.w; r = T.false()
                    ax = T.fabs(x); inf = T.const(w, T.fe.INF[w])
                    if m & 3 == 3: r = T.or_(r, T.fisnan(x))
                    elif m & 3: raise Unsupported('fpclass snan')
                    neg = sgn(x)
                    mn = T.const(w, 1 << T.fe.MANT[w])
                    C = [(4, T.and_(neg, T.eq(ax, inf))), (512, T.and_(T.bnot(neg), T.eq(ax, inf)))]
                    isn = T.and_(T.ule(mn, ax), T.ult(ax, inf)); sub = T.and_(T.ult(ax, mn), T.ne(ax, T.const(w, 0))); z = T.eq(ax, T.const(w, 0))
                    C += [(8, T.and_(neg, isn)), (256, T.and_(T.bnot(neg), isn)), (16, T.and_(neg, sub)), (128, T.and_(T.bnot(neg), sub)),
                          (32, T.and_(neg, z)), (64, T.and_(T.bnot(neg), z))]
                    for bit, c in C:
                        if m & bit: r = T.or_(r, c)
                    return r
                return [cls(y) for y in x] if isinstance(x, list) else cls(x)
        if n.startswith('vector.reduce.'):
            k = n.split('.')[2]
            if k in ('fadd', 'fmul'):
                r = a[0]
                for x in a[1]: r = T.fop(k, r, x)
                return r
            f = {'add': T.add, 'and': T.and_, 'or': T.or_, 'xor': T.xor, 'fmax': fmaxnum, 'fmin': fminnum}.get(k)
            if f:
                r = a[0][0]
                for x in a[0][1:]: r = f(r, x)
                return r
        if b == 'masked':
            raise Unsupported(n)
        if b in ('uadd', 'usub', 'sadd', 'ssub') and '.sat.' in n:
            x, y = a
            if b == 'usub': return lanes(lambda x, y: T.ite(T.ult(x, y), T.const(x.w, 0), T.sub(x, y)))
            if b == 'uadd': return lanes(lambda x, y: T.ite(T.ult(T.add(x, y), x), T.const(x.w, T.mask(x.w)), T.add(x, y)))
        if b in ('fshl', 'fshr'):
            def fsh(x, y, s):
                w = x.w; s = T.and_(s, T.const(w, w - 1)); c = T.concat(x, y); s2 = T.zext(s, 2 * w)
                if b == 'fshl': return T.extract(T.shl(c, s2), 2 * w - 1, w)
                return T.extract(T.lshr(c, s2), w - 1, 0)
            return lanes(fsh)
        if b == 'ctpop' or b == 'ctlz' or b == 'cttz':
            def cnt(x, *_):
                w = x.w
                if b == 'ctpop':
                    r = T.const(w, 0)
                    for i in range(w): r = T.add(r, T.zext(T.extract(x, i, i), w))
                    return r
                r = T.const(w, w)
                rng = range(w - 1, -1, -1) if b == 'cttz' else range(w)
                for i in rng:
                    r = T.ite(T.extract(x, i, i), T.const(w, i if b == 'cttz' else w - 1 - i), r)
                return r
            return lanes(cnt)
        if b == 'trap' or b == 'ubsantrap':
            self.bad(st, 'assert', 'trap'); return None
        if b == 'ldexp':
            raise Unsupported('ldexp')
        raise Unsupported('intrinsic ' + n)
    def x86(self, st, n, rt, a):
        p = n.split('.'); isa = p[0]; op = p[1]; ty = p[2] if len(p) > 2 else ''
        sc = ty in ('ss', 'sd')
        def bin2(f):
            if sc: return [f(a[0][0], a[1][0])] + list(a[0][1:])
            return [f(x, y) for x, y in zip(a[0], a[1])]
        if op in ('stmxcsr', 'ldmxcsr'):
            o = self.globs.get('@mxcsr')
            if o is None: o = self.globs['@mxcsr'] = Obj('@mxcsr', 4, 4, 'global', 1, False); o.init = (('i', 32), None); o.mx = True
            if op == 'stmxcsr': self.store(st, ('i', 32), self.load(st, ('i', 32), Ptr(o, 0), 1), a[0], 1)
            else: self.store(st, ('i', 32), self.load(st, ('i', 32), a[0], 1), Ptr(o, 0), 1)
            return None
        if op == 'min': return bin2(T.fmin_x86)
        if op == 'max': return bin2(T.fmax_x86)
        if op == 'cmp':
            pr = AVXCMP[a[2].p & 15]
            def f(x, y): return T.ite(T.fcmp_pred(pr, x, y), T.const(x.w, T.mask(x.w)), T.const(x.w, 0))
            return bin2(f)
        if op in ('comieq', 'comilt', 'comile', 'comigt', 'comige', 'comineq', 'ucomieq', 'ucomilt', 'ucomile', 'ucomigt', 'ucomige', 'ucomineq'):
            pr = {'eq': 'oeq', 'lt': 'olt', 'le': 'ole', 'gt': 'ogt', 'ge': 'oge', 'neq': 'une'}[re.sub('^u?comi', '', op)]
            return T.zext(T.fcmp_pred(pr, a[0][0], a[1][0]), 32)
        if op == 'rcp':
            if sc: return [T.rcp(a[0][0])] + list(a[0][1:])
            return [T.rcp(x) for x in a[0]]
        if op == 'rsqrt': raise Unsupported('rsqrt')
        if op == 'round':
            if sc: return [T.frint(RND[a[2].p & 7], a[1][0])] + list(a[0][1:])
            return [T.frint(RND[a[1].p & 7], x) for x in a[0]]
        if op in ('blendvps', 'blendvpd', 'blendv'):
            return [T.ite(sgn(m), y, x) for x, y, m in zip(a[0], a[1], a[2])]
        if op == 'pblendvb':
            return [T.ite(sgn(m), y, x) for x, y, m in zip(a[0], a[1], a[2])]
        if op == 'sqrt':
            if sc: return [T.fop('fsqrt', a[0][0])] + list(a[0][1:])
            return [T.fop('fsqrt', x) for x in a[0]]
        if op == 'cvttps2dq' or (op == 'cvtt' and ty == 'ps2dq'): return [T.cvtt(x, 32) for x in a[0]]
        if op == 'cvtps2dq' or (op == 'cvt' and ty == 'ps2dq'): return [T.cvtr(x, 32) for x in a[0]]
        if op == 'cvttpd2dq' or (op == 'cvtt' and ty == 'pd2dq'):
            r = [T.cvtt(x, 32) for x in a[0]]
            return r + [T.const(32, 0)] * (4 - len(r))
        if op == 'cvtpd2dq' or (op == 'cvt' and ty == 'pd2dq'):
            r = [T.cvtr(x, 32) for x in a[0]]
            return r + [T.const(32, 0)] * (4 - len(r))
        if op in ('cvttss2si', 'cvttsd2si'): return T.cvtt(a[0][0], 32)
        if op in ('cvttss2si64', 'cvttsd2si64'): return T.cvtt(a[0][0], 64)
        if op in ('cvtss2si', 'cvtsd2si'): return T.cvtr(a[0][0], 32)
        if op in ('cvtss2si64', 'cvtsd2si64'): return T.cvtr(a[0][0], 64)
        if op in ('pslli', 'psrli', 'psrai', 'psll', 'psrl', 'psra'):
            w = {'w': 16, 'd': 32, 'q': 64}[ty]
            c = a[1] if isinstance(a[1], T.T) else relane(a[1], 64)[0]
            f = {'psl': T.shl, 'psr': T.lshr}[op[:3]] if not op.startswith('psra') else T.ashr
            v = relane(a[0], w)
            if T.is_c(c):
                k = c.p
                if k >= w:
                    if f is T.ashr: k = w - 1
                    else: return relane([T.const(w, 0)] * len(v), bitw(rt[2]))
                r = [f(x, T.const(w, k)) for x in v]
            else:
                c64 = T.zext(c, 64); big = T.ule(T.const(64, w), c64)
                cw = T.extract(c64, w - 1, 0) if w < 64 else c64
                if f is T.ashr: r = [f(x, T.ite(big, T.const(w, w - 1), cw)) for x in v]
                else: r = [T.ite(big, T.const(w, 0), f(x, cw)) for x in v]
            return relane(r, bitw(rt[2]))
        if op in ('hadd', 'hsub'):
            o = 'fadd' if op == 'hadd' else 'fsub'
            x, y = a[0], a[1]; n = len(x); half = 128 // x[0].w
            out = []
            for L in range(0, n, half):
                for v in (x, y):
                    for k in range(0, half, 2): out.append(T.fop(o, v[L + k], v[L + k + 1]))
            return out
        if op == 'addsub':
            return [T.fop('fsub' if k % 2 == 0 else 'fadd', x, y) for k, (x, y) in enumerate(zip(a[0], a[1]))]
        if op == 'insertps':
            imm = a[2].p; s = a[1][(imm >> 6) & 3]; r = list(a[0]); r[(imm >> 4) & 3] = s
            return [T.const(32, 0) if (imm >> k) & 1 else r[k] for k in range(4)]
        if op == 'dpps' or op == 'dppd' or op == 'dp':
            imm = a[2].p; w = a[0][0].w; half = 128 // w; out = []
            for L in range(0, len(a[0]), half):
                t = [T.fop('fmul', a[0][L + k], a[1][L + k]) if (imm >> (4 + k)) & 1 else T.const(w, 0) for k in range(half)]
                s = T.fop('fadd', T.fop('fadd', t[0], t[1]), T.fop('fadd', t[2], t[3])) if half == 4 else T.fop('fadd', t[0], t[1])
                out += [s if (imm >> k) & 1 else T.const(w, 0) for k in range(half)]
            return out
        if op == 'pmovmskb':
            r = T.const(32, 0)
            for k, x in enumerate(relane(a[0], 8)): r = T.or_(r, T.ite(sgn(x), T.const(32, 1 << k), T.const(32, 0)))
            return r
        if op == 'movmsk':
            r = T.const(32, 0)
            for k, x in enumerate(a[0]): r = T.or_(r, T.ite(sgn(x), T.const(32, 1 << k), T.const(32, 0)))
            return r
        if op in ('ptestz', 'ptestc', 'ptestnzc') or op.startswith('vtest') or op == 'ptestz':
            def allz(v):
                r = T.true()
                for x in v: r = T.and_(r, T.eq(x, T.const(x.w, 0)))
                return r
            pa = [T.and_(x, y) for x, y in zip(a[0], a[1])]; pn = [T.and_(T.bnot(x), y) for x, y in zip(a[0], a[1])]
            if op.startswith('vtest'):
                s = lambda v: [T.and_(x, T.const(x.w, T.sgnbit(x.w))) for x in v]
                pa, pn = s(pa), s(pn); op = 'ptest' + op[5:]
            z, c = allz(pa), allz(pn)
            if op.startswith('ptestnzc'): return T.zext(T.and_(T.bnot(z), T.bnot(c)), 32)
            if op.startswith('ptestz'): return T.zext(z, 32)
            return T.zext(c, 32)
        if op == 'ptestz' or (isa == 'avx' and op == 'ptestz'): pass
        if op in ('maskload', 'maskstore'): raise Unsupported(n)
        if op in ('vfmadd',):
            return [T.fop('ffma', x, y, z) for x, y, z in zip(*a[:3])]
        raise Unsupported('x86 ' + n)
