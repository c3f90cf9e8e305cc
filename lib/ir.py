"""Parser for the textual LLVM IR produced by clang 18 (the subset C++ header code compiles to).

Functions are parsed lazily.  Types: ('i',w) ('f',w) ('p',) ('v',n,t) ('a',n,t) ('s',(t..),packed) ('void',).
Operands: ('r', name) for registers, or ('k', type, constant) where constant is
  int (integer/float bit pattern) | 'undef' | 'zero' | 'null' | ('vec',[operands]) | ('agg',[operands]) | ('g', name)
  | ('gep', type, [operands]) | ('bytes', b'...')
"""
import re, struct

TOK = re.compile(r'\s*(?:(%"[^"]*"|@"[^"]*"|%[\w.$-]+|@[\w.$-]+|![\w.]*|c"(?:[^"\\]|\\.)*"|"[^"]*"|#\d+|0x[HKLMR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[=,()\[\]{}<>*:|]))')

class ParseError(Exception):
    pass

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            if s[i] in ' \t': i += 1; continue
            raise ParseError('tok: ' + s[i:i + 60])
        out.append(m.group(1)); i = m.end()
    return out

ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext', 'returned',
         'inreg', 'nofree', 'noinline', 'immarg', 'dead_on_unwind', 'writable', 'swiftself', 'nest', 'allocptr', 'inrange'}
PATTRS = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'memory', 'range', 'nofpclass', 'byref', 'preallocated', 'inalloca', 'captures'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'nuw', 'nsw', 'exact', 'inbounds', 'disjoint', 'nneg', 'samesign'}
LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak', 'linkonce_odr', 'weak_odr', 'external',
        'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected', 'unnamed_addr', 'local_unnamed_addr', 'dllimport', 'dllexport',
        'fastcc', 'ccc', 'coldcc', 'cc', 'tail', 'musttail', 'notail', 'thread_local', 'externally_initialized', 'x86_vectorcallcc'}

class P(object):
    def __init__(self, mod, toks):
        self.m = mod; self.t = toks; self.i = 0
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        if not self.accept(x): raise ParseError('expected %s at %s' % (x, ' '.join(self.t[self.i:self.i + 8])))
    def skip_attrs(self):
        al = None
        while True:
            x = self.peek()
            if x in ATTRS: self.i += 1
            elif x == 'align':
                self.i += 1
                if self.accept('('): al = int(self.next()); self.expect(')')
                else: al = int(self.next())
            elif x in PATTRS:
                self.i += 1
                if self.accept('('):
                    d = 1
                    while d:
                        y = self.next()
                        if y == '(': d += 1
                        elif y == ')': d -= 1
            elif x is not None and (x.startswith('#') or x.startswith('"')):
                self.i += 1
                if self.accept('='): self.i += 1
            else: return al
    def ty(self):
        x = self.next()
        if x == 'void': t = ('void',)
        elif x == 'ptr':
            t = ('p',)
            if self.accept('addrspace'):
                self.expect('('); self.next(); self.expect(')')
        elif x == 'float': t = ('f', 32)
        elif x == 'double': t = ('f', 64)
        elif x == 'half': t = ('f', 16)
        elif x == 'x86_fp80': t = ('f', 80)
        elif x == 'label' or x == 'metadata' or x == 'token': t = (x,)
        elif x[0] == 'i' and x[1:].isdigit(): t = ('i', int(x[1:]))
        elif x == '<':
            if self.accept('{'):
                l = self.tlist('}'); self.expect('>'); t = ('s', tuple(l), True)
            else:
                n = int(self.next()); self.expect('x'); e = self.ty(); self.expect('>')
                t = ('v', n, e)
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.ty(); self.expect(']')
            t = ('a', n, e)
        elif x == '{': t = ('s', tuple(self.tlist('}')), False)
        elif x == 'opaque': t = ('opaque',)
        elif x[0] == '%': t = self.m.named(x)
        else: raise ParseError('type ' + x)
        while True:
            if self.accept('*'): t = ('p',)
            elif self.peek() == '(' and t == ('fnp',): pass
            else: break
        return t
    def tlist(self, end):
        l = []
        if self.accept(end): return l
        while True:
            l.append(self.ty())
            if self.accept(end): return l
            self.expect(',')
    def value(self, t):
        x = self.next()
        if x[0] == '%': return ('r', x)
        return ('k', t, self.const(t, x))
    def const(self, t, x):
        if x[0] == '@': return ('g', x)
        if x in ('true', 'false'): return 1 if x == 'true' else 0
        if x in ('undef', 'poison'): return 'undef'
        if x == 'zeroinitializer': return 'zero'
        if x == 'null': return 'null'
        if x == 'none': return 'zero'
        if t[0] == 'i': return int(x) & ((1 << t[1]) - 1)
        if t[0] == 'f':
            if x.startswith('0x'):
                d = struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0]; bits64 = int(x, 16)
            else:
                d = float(x); bits64 = struct.unpack('<Q', struct.pack('<d', d))[0]
            if t[1] == 64: return bits64
            if t[1] == 32:
                if d != d:
                    return ((bits64 >> 63) << 31) | 0x7f800000 | ((bits64 >> 29) & 0x7fffff)
                return struct.unpack('<I', struct.pack('<f', d))[0]
            return ('ext', x)
        if x == '<':
            if self.accept('{'):
                l = self.vlist('}'); self.expect('>'); return ('agg', l)
            return ('vec', self.vlist('>'))
        if x == '[': return ('agg', self.vlist(']'))
        if x == '{': return ('agg', self.vlist('}'))
        if x.startswith('c"'):
            b = bytearray(); s = x[2:-1]; i = 0
            while i < len(s):
                if s[i] == '\\': b.append(int(s[i + 1:i + 3], 16)); i += 3
                else: b.append(ord(s[i])); i += 1
            return ('bytes', bytes(b))
        if x == 'splat':
            self.expect('('); et = self.ty(); v = self.value(et); self.expect(')')
            return ('vec', [v] * t[1])
        if x == 'getelementptr':
            while self.peek() in FMF: self.i += 1
            if self.accept('inrange'):
                self.expect('(');
                while not self.accept(')'): self.i += 1
            self.expect('('); et = self.ty(); ops = []
            while self.accept(','):
                self.accept('inrange')
                vt = self.ty(); ops.append((vt, self.value(vt)))
            self.expect(')')
            return ('gep', et, ops)
        if x in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext'):
            self.expect('('); st = self.ty(); v = self.value(st); self.expect('to'); self.ty(); self.expect(')')
            return ('cast', x, st, v, t)
        raise ParseError('const %s of %s' % (x, t))
    def vlist(self, end):
        l = []
        if self.accept(end): return l
        while True:
            t = self.ty(); l.append(self.value(t))
            if self.accept(end): return l
            self.expect(',')

class Function(object):
    __slots__ = ('name', 'params', 'ret', 'blocks', 'entry', 'order', 'ipdom', 'src', 'preds', 'loops')

class Module(object):
    def __init__(self, text):
        self.types = {}; self._tt = {}; self.ftext = {}; self.gtext = {}; self._f = {}; self._g = {}; self.ctors = None; self.decl = set()
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i
                while lines[j] != '}': j += 1
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                self.ftext['@' + m.group(1)] = lines[i:j]
                i = j
            elif l.startswith('%'):
                k, _, v = l.partition(' = type ')
                self._tt[k.strip()] = v
            elif l.startswith('@'):
                k, _, v = l.partition(' = ')
                self.gtext[k.strip()] = v
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                if m: self.decl.add('@' + m.group(1))
            i += 1
    def named(self, n):
        t = self.types.get(n)
        if t is None:
            s = self._tt.get(n)
            if s is None: raise ParseError('type ' + n)
            t = P(self, tokenize(s)).ty()
            self.types[n] = t
        return t
    def glob(self, n):
        """(type, initializer constant or None, is_constant, align)"""
        g = self._g.get(n)
        if g is None:
            p = P(self, tokenize(self.gtext[n].split(', comdat')[0].split(', !')[0]))
            isc = False; ext = False
            while True:
                x = p.peek()
                if x in ('external', 'extern_weak'): ext = True
                if x in LINK:
                    p.i += 1
                    if p.peek() == '(':
                        while not p.accept(')'): p.i += 1
                elif x == 'addrspace': p.i += 4
                elif x == 'constant': isc = True; p.i += 1; break
                elif x == 'global': p.i += 1; break
                else: raise ParseError('global ' + n + ' ' + str(x))
            t = p.ty()
            init = None
            if not ext and p.peek() not in (None, ','): init = p.const(t, p.next())
            al = 0
            while p.accept(','):
                if p.accept('align'): al = int(p.next())
                else:
                    while p.peek() not in (None, ','): p.i += 1
            g = self._g[n] = (t, init, isc, al)
        return g
    def func(self, n):
        f = self._f.get(n)
        if f is None: f = self._f[n] = self.parse(n)
        return f
    def parse(self, n):
        L = self.ftext[n]
        f = Function(); f.name = n; f.src = len(L)
        p = P(self, tokenize(L[0][6:].rstrip('{ ').split(' !dbg')[0]))
        while p.peek() in LINK or p.peek() in ATTRS or p.peek() in PATTRS or p.peek() == 'align':
            if p.peek() in LINK: p.i += 1
            else: p.skip_attrs()
        f.ret = p.ty(); p.next(); p.expect('(')
        f.params = []; cnt = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'): p.expect(')'); break
                t = p.ty(); p.skip_attrs()
                if p.peek() and p.peek()[0] == '%': nm = p.next()
                else: nm = '%' + str(cnt)
                cnt += 1
                f.params.append((t, nm))
                if p.accept(')'): break
                p.expect(',')
        f.blocks = {}; f.order = []
        cur = None
        buf = None
        body = []
        for l in L[1:]:     # instructions that continue on the next line (invoke, landingpad)
            x = l.strip()
            if body and l[:10] == '          ' and (x.startswith('to label') or x.split(' ')[0] in ('cleanup', 'catch', 'filter')): body[-1] += ' ' + x
            else: body.append(l)
        for l in body:
            if not l.strip(): continue
            if l[0] not in ' \t':
                m = re.match(r'("[^"]*"|[\w.$-]+):', l)
                if not m: continue
                cur = '%' + m.group(1); f.blocks[cur] = []; f.order.append(cur)
                continue
            if cur is None:
                cur = '%' + str(len(f.params)); f.blocks[cur] = []; f.order.append(cur)
            if buf is not None:
                buf += ' ' + l.strip()
                if l.strip().startswith(']'):
                    f.blocks[cur].append(self.instr(buf)); buf = None
                continue
            s = l.strip()
            if s.startswith(';'): continue
            if s.startswith('switch ') and not s.rstrip().endswith(']'):
                buf = s; continue
            f.blocks[cur].append(self.instr(s))
        f.entry = f.order[0]
        self.cfg(f)
        return f
    def instr(self, s):
        k = s.find(', !')
        if k >= 0 and '"' not in s[k:k+3]: s = s[:k]
        k = s.find(' !')
        t = tokenize(s)
        p = P(self, t)
        dest = None
        if len(t) > 1 and t[1] == '=':
            dest = t[0]; p.i = 2
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        if op == 'ret':
            ty = p.ty()
            return ('ret', None, ty, None if ty[0] == 'void' else p.value(ty))
        if op == 'br':
            if p.accept('label'): return ('br', None, p.next())
            p.ty(); c = p.value(('i', 1)); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
            return ('cbr', None, c, a, b)
        if op == 'switch':
            ty = p.ty(); v = p.value(ty); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.ty(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv, p.next()))
            return ('switch', None, ty, v, d, cases)
        if op == 'unreachable': return ('unreachable', None)
        if op == 'phi':
            while p.peek() in FMF: p.i += 1
            ty = p.ty(); inc = []
            while True:
                p.expect('['); v = p.value(ty); p.expect(','); b = p.next(); p.expect(']'); inc.append((v, b))
                if not p.accept(','): break
            return ('phi', dest, ty, inc)
        if op == 'alloca':
            p.accept('inalloca')
            ty = p.ty(); n = 1; al = 1
            while p.accept(','):
                if p.accept('align'): al = int(p.next())
                else:
                    tt = p.ty(); n = p.value(tt)
            return ('alloca', dest, ty, n, al)
        if op == 'load':
            p.accept('atomic'); p.accept('volatile')
            ty = p.ty(); p.expect(','); p.ty(); a = p.value(('p',)); al = 1
            while p.accept(','):
                if p.accept('align'): al = int(p.next())
            return ('load', dest, ty, a, al)
        if op == 'store':
            p.accept('atomic'); p.accept('volatile')
            ty = p.ty(); v = p.value(ty); p.expect(','); p.ty(); a = p.value(('p',)); al = 1
            while p.peek() in ('monotonic', 'release', 'seq_cst', 'unordered', 'syncscope'):
                if p.next() == 'syncscope':
                    while not p.accept(')'): p.i += 1
            if p.accept(','):
                if p.accept('align'): al = int(p.next())
            return ('store', None, ty, v, a, al)
        if op == 'getelementptr':
            while p.peek() in FMF: p.i += 1
            et = p.ty(); p.expect(','); bt = p.ty(); b = p.value(bt); idx = []
            while p.accept(','):
                it = p.ty(); idx.append((it, p.value(it)))
            return ('gep', dest, et, b, idx, bt)
        if op in ('icmp', 'fcmp'):
            while p.peek() in FMF: p.i += 1
            pred = p.next(); ty = p.ty(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return (op, dest, pred, ty, a, b)
        if op == 'select':
            while p.peek() in FMF: p.i += 1
            ct = p.ty(); c = p.value(ct); p.expect(','); ty = p.ty(); a = p.value(ty); p.expect(','); p.ty(); b = p.value(ty)
            return ('select', dest, ct, c, ty, a, b)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in FMF: p.i += 1
            ty = p.ty(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return ('bin', dest, op, ty, a, b)
        if op == 'fneg':
            while p.peek() in FMF: p.i += 1
            ty = p.ty(); return ('fneg', dest, ty, p.value(ty))
        if op == 'freeze':
            ty = p.ty(); return ('freeze', dest, ty, p.value(ty))
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            while p.peek() in FMF: p.i += 1
            st = p.ty(); v = p.value(st); p.expect('to'); dt = p.ty()
            return ('cast', dest, op, st, v, dt)
        if op == 'extractelement':
            ty = p.ty(); v = p.value(ty); p.expect(','); it = p.ty(); return ('extractelement', dest, ty, v, p.value(it))
        if op == 'insertelement':
            ty = p.ty(); v = p.value(ty); p.expect(','); et = p.ty(); e = p.value(et); p.expect(','); it = p.ty()
            return ('insertelement', dest, ty, v, e, p.value(it))
        if op == 'shufflevector':
            ty = p.ty(); a = p.value(ty); p.expect(','); p.ty(); b = p.value(ty); p.expect(','); mt = p.ty(); mk = p.value(mt)
            return ('shufflevector', dest, ty, a, b, mt, mk)
        if op == 'extractvalue':
            ty = p.ty(); v = p.value(ty); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return ('extractvalue', dest, ty, v, idx)
        if op == 'insertvalue':
            ty = p.ty(); v = p.value(ty); p.expect(','); et = p.ty(); e = p.value(et); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return ('insertvalue', dest, ty, v, et, e, idx)
        if op in ('call', 'invoke'):
            while p.peek() in FMF or p.peek() in LINK: p.i += 1
            p.skip_attrs()
            while p.peek() in LINK: p.i += 1
            rt = p.ty(); p.skip_attrs()
            if p.peek() == '(':                       # function type (varargs)
                d = 0
                while True:
                    x = p.next()
                    if x == '(': d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0: break
            callee = p.next()
            if callee == 'asm':
                return ('asm', dest, s)
            cal = ('r', callee) if callee[0] == '%' else ('k', ('p',), ('g', callee))
            p.expect('('); args = []
            if not p.accept(')'):
                while True:
                    t2 = p.ty()
                    if t2 == ('metadata',):
                        while p.peek() not in (',', ')'): p.i += 1
                        args.append((t2, None))
                    else:
                        p.skip_attrs(); args.append((t2, p.value(t2)))
                    if p.accept(')'): break
                    p.expect(',')
            nrm = None
            if op == 'invoke':
                while p.peek() not in ('to', None): p.i += 1
                p.expect('to'); p.expect('label'); nrm = p.next()
            return ('call', dest, rt, cal, args, nrm)
        if op == 'fence': return ('nop', None)
        if op == 'atomicrmw':
            p.accept('volatile'); o = p.next(); p.ty(); a = p.value(('p',)); p.expect(','); ty = p.ty(); v = p.value(ty)
            return ('atomicrmw', dest, o, ty, a, v)
        return ('unsupported', dest, s)
    # ------------------------------------------------ control flow: immediate post-dominators
    def cfg(self, f):
        succ = {b: self.succs(f.blocks[b]) for b in f.order}
        EX = '<exit>'
        for b in f.order:
            if not succ[b]: succ[b] = [EX]
        # blocks that end in unreachable are ignored for post-dominance (they never rejoin)
        dead = {b for b in f.order if f.blocks[b] and f.blocks[b][-1][0] == 'unreachable'}
        preds = {b: [] for b in f.order}; preds[EX] = []
        for b in f.order:
            if b in dead: continue
            for s in succ[b]:
                if s not in dead: preds[s].append(b)
        # reverse postorder from EX on the reversed graph
        order = []; seen = {EX}
        st = [(EX, iter(preds[EX]))]
        while st:
            b, it = st[-1]
            for q in it:
                if q not in seen:
                    seen.add(q); st.append((q, iter(preds[q]))); break
            else:
                order.append(b); st.pop()
        num = {b: i for i, b in enumerate(order)}
        rpo = order[::-1]
        ip = {EX: EX}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == EX: continue
                new = None
                for s in succ[b]:
                    if s in dead or s not in ip: continue
                    if new is None: new = s
                    else:
                        x, y = s, new
                        while x != y:
                            while num[x] < num[y]: x = ip[x]
                            while num[y] < num[x]: y = ip[y]
                        new = x
                if new is not None and ip.get(b) != new: ip[b] = new; ch = True
        f.ipdom = ip
        f.preds = preds
    @staticmethod
    def succs(ins):
        if not ins: return []
        t = ins[-1]
        if t[0] == 'br': return [t[2]]
        if t[0] == 'cbr': return [t[3], t[4]]
        if t[0] == 'switch': return [t[4]] + [c[1] for c in t[5]]
        if t[0] == 'call' and t[5]: return [t[5]]
        return []
