"""Buffer functions at symbolic length: every loop whose trip count depends on n is replaced by one arbitrary iteration k.
Induction variables become init + k*step, the trip count is a term over n that z3 verifies, memory accesses are taken relative to
the part of the buffers that belongs to iteration k.  n-dependent branches outside loops are enumerated path by path (re-execution)."""
import time, random, os
import terms as T, fpeval as fe, solve, symex, engine as E, build, rel
from symex import Ptr, PtrIte, Obj, Unsupported

def c64(v): return T.const(64, v)
def natural_loops(m, f):
    """{header: set of blocks}"""
    succ = {b: m.succs(f.blocks[b]) for b in f.order}
    idx = {}; order = []; seen = {f.entry}; st = [(f.entry, iter(succ[f.entry]))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen: seen.add(s); st.append((s, iter(succ[s]))); break
        else: order.append(b); st.pop()
    rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]: preds[s].append(b)
    dom = {f.entry: f.entry}; ch = True
    def inter(a, b):
        while a != b:
            while num[a] > num[b]: a = dom[a]
            while num[b] > num[a]: b = dom[b]
        return a
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in dom]
            if not ps: continue
            d = ps[0]
            for p in ps[1:]: d = inter(d, p)
            if dom.get(b) != d: dom[b] = d; ch = True
    def dominates(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = dom[b]
    L = {}
    for b in rpo:
        for h in succ[b]:
            if dominates(h, b):
                body = L.setdefault(h, {h}); todo = [b]
                while todo:
                    x = todo.pop()
                    if x in body: continue
                    body.add(x); todo += preds[x]
    return L
def operands(i):
    out = []
    def go(x):
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] == 'r' and isinstance(x[1], str): out.append(x[1])
            else:
                for y in x: go(y)
        elif isinstance(x, list):
            for y in x: go(y)
    for x in i[2:]: go(x)
    return out
def tainted_loops(m, f, pname):
    """headers of the loops whose exit test depends on the parameter"""
    L = natural_loops(m, f)
    t = {pname}; ch = True
    ins = [(b, i) for b in f.order for i in f.blocks[b]]
    mem = False
    while ch:
        ch = False
        for b, i in ins:
            d = i[1] if len(i) > 1 and isinstance(i[1], str) else None
            ops = operands(i)
            if i[0] == 'store' and any(o in t for o in ops) and not mem: mem = True; ch = True
            if d is None or d in t: continue
            if any(o in t for o in ops) or (i[0] == 'load' and mem and i[2][0] in ('i', 'p')): t.add(d); ch = True
    out = {}
    for h, body in L.items():
        for b in body:
            x = f.blocks[b][-1]
            if x[0] == 'cbr' and (x[3] not in body or x[4] not in body) and any(o in t for o in operands(x)): out[h] = body
    return out

class Ctx(object):
    """accesses of one iteration (or of straight-line code), relative to one reference offset"""
    def __init__(self, lid, k):
        self.lid = lid; self.k = k; self.ref = None; self.win = {}; self.acc = []; self.exits = []; self.nst = 0; self.nld = 0
        self.stores = {}; self.loads = {}; self.align = []; self.trial = False; self.start = None; self.count = None; self.step = None

PROBE = [(0x12340, 5), (0x77770, 12), (0x10, 0)]
class LExec(symex.Exec):
    def __init__(self, mod, prefix, pre, nterm, **k):
        symex.Exec.__init__(self, mod, **k)
        self.prefix = list(prefix); self.idx = 0; self.alts = []; self.pc = list(pre); self.n = nterm
        self.ctx = None; self.seg = None; self.done = []; self.nl = 0; self.fl = {}; self.cur = None; self.data = set(); self.decisions = 0
        self.on_branch = self._branch; self.on_edge = self._edge; self.symoff = self._sym
    # ---------------------------------------------------------------- decisions on n
    def feasible(self, c):
        if T.is_c(c): return bool(c.p)
        return solve.check('uf', self.pc + [c], 8000, False)[0] != 'unsat'
    def decide(self, c):
        a, b = self.feasible(c), self.feasible(T.bnot(c))
        if a and b:
            if self.idx < len(self.prefix): v = self.prefix[self.idx]
            else:
                v = True; self.alts.append(self.prefix[:self.idx] + [False]); self.prefix.append(True)
            self.idx += 1; self.decisions += 1
            if self.decisions > 40: raise Unsupported('too many length-dependent choices')
        else: v = a
        self.pc.append(c if v else T.bnot(c))
        return v
    def _branch(self, f, regs, st, blk, c, t, e):
        if self.cur is not None:
            body = self.cur[0]
            if (t in body) != (e in body):
                ex, stay = (e, t) if t in body else (t, e)
                cond = T.bnot(c) if t in body else c
                self.ctx.exits.append((cond, ex, blk, dict(regs), st.fork(T.true()), self.ctx.nst, self.ctx.nld))
                return stay
        lv = [v.p for v in T.leaves([c], ('var', 'undef'))]
        if any(not (x == 'n' or x.startswith('k!') or x.startswith('phi!') or x.startswith('addr.')) for x in lv): return None
        if any(x.startswith('phi!') for x in lv): return t if t != blk else e
        return t if self.decide(c) else e
    # ---------------------------------------------------------------- memory
    def window(self, ctx, obj):
        w = ctx.win.get(obj.id)
        if w is None:
            w = ctx.win[obj.id] = Obj('L%d~%s' % (ctx.lid, obj.name), None, max(obj.align, 4096), 'buf', obj.elem, obj.ro)
            self.objs[w.id] = w
        return w
    def delta(self, ctx, off):
        """off - reference as a constant (to be verified later unless it is one syntactically)"""
        if ctx.ref is None: ctx.ref = off
        d = T.sub(off, ctx.ref)
        if T.is_c(d): return T._s(64, d.p)
        vals = set()
        for nn, kk in PROBE:
            env = {}
            for v in T.leaves([d], ('var', 'undef')):
                env[v.p] = nn if v.p == 'n' else kk if v.p.startswith('k!') else 0
            try: vals.add(T._s(64, T.evaluate([d], env)[0]))
            except Exception: raise Unsupported('offset')
        if len(vals) != 1: raise Unsupported('accesses that do not move together')
        v = vals.pop()
        if all(x is not off for x, _ in ctx.acc): ctx.acc.append((off, v))
        return v
    def _sym(self, st, t, p, al, v):
        ctx = self.ctx
        if ctx is None:
            if self.seg is None: self.seg = Ctx(self.newid(), None)
            ctx = self.seg
        if p.obj.kind != 'buf': raise Unsupported('symbolic offset in %s' % p.obj.kind)
        size = symex.tysize(t)
        if ctx.trial:
            if v is None: return self.fresh(t, 'ld')
            return
        d = self.delta(ctx, p.off); w = self.window(ctx, p.obj)
        if al > 1:
            if p.obj.align % al: self.bad(st, 'align', 'access to %s needs %d-byte alignment' % (p.obj.name, al))
            ctx.align.append((p.off, al))
        if v is None:
            ctx.nld += 1; ctx.loads.setdefault(p.obj, set()).add((d, size))
            return self.load_at(st, t, w, d)
        if p.obj.ro: self.bad(st, 'ro-write', 'write to an input buffer')
        ctx.nst += 1; ctx.stores.setdefault(p.obj, set()).add((d, size))
        self.store_at(st, t, v, w, d)
    def memop(self, st, op, a):
        if T.is_c(a[2]) and all(not isinstance(x, Ptr) or isinstance(x.off, int) for x in a[:2]): return symex.Exec.memop(self, st, op, a)
        d = a[0]; ln = T.zext(a[2], 64) if a[2].w < 64 else a[2]
        if self.ctx is not None or not isinstance(d, Ptr) or d.obj.kind != 'buf': raise Unsupported('memory block operation of symbolic length')
        off = c64(d.off) if isinstance(d.off, int) else d.off
        c = Ctx(self.newid(), None); c.start = {d.obj: off}; c.len = {d.obj: ln}; c.block = (op, a)
        self.closeseg(); self.done.append(c)
    def fresh(self, t, why):
        if t[0] in ('i', 'f'): return T.var('h!%d.%s' % (self.newid(), why), t[1])
        if t[0] == 'v': return [self.fresh(t[2], why) for _ in range(t[1])]
        raise Unsupported('havoc type')
    def newid(self): self.nl += 1; return self.nl
    def closeseg(self):
        if self.seg is not None:
            c = self.seg; self.seg = None
            c.count = c64(1); self.done.append(c)
    # ---------------------------------------------------------------- loops
    def loops_of(self, f):
        r = self.fl.get(f.name)
        if r is None: r = self.fl[f.name] = tainted_loops(self.m, f, self.pname) if self.pname is not None else {}
        return r
    def _edge(self, f, regs, st, blk, nxt, allocs):
        body = self.loops_of(f).get(nxt)
        if body is None or blk in body: return None
        if self.cur is not None: raise Unsupported('nested length-dependent loops')
        self.closeseg()
        return self.summarise(f, regs, st, blk, nxt, body, allocs)
    def carried(self, f, h, init, cells, mode, k, step, tag):
        """values of the loop-carried locations at iteration k"""
        out = {}
        for key, (ty, v) in list(init.items()) + list(cells.items()):
            s = step.get(key) if step else None
            if isinstance(v, Ptr):
                if v.obj is None: out[key] = v; continue
                o = c64(v.off) if isinstance(v.off, int) else v.off
                if mode == 'trial': x = Ptr(v.obj, T.add(o, T.var('phi!%s' % (key,), 64)))
                elif s == 0: x = v
                else: x = self._mkptr(v.obj, T.add(o, T.mul(c64(s), k)))
                out[key] = x
            elif isinstance(v, T.T) and (ty is None or ty[0] == 'i'):
                w = v.w
                if mode == 'trial': out[key] = T.var('phi!%s' % (key,), w)
                elif s == 'data': out[key] = T.var('h!%d.%s' % (self.newid(), key), w); self.data.add(out[key].p)
                elif s == 0: out[key] = v
                else: out[key] = T.add(v, T.mul(T.const(w, s), T.extract(k, w - 1, 0) if w <= 64 else None))
            elif isinstance(v, (T.T, list)):
                if mode != 'trial' and s == 0: out[key] = v
                else:
                    mkv = lambda x, j: T.var('%s!%d.%s.%s' % ('phi' if mode == 'trial' else 'h', tag, key, j), x.w)
                    out[key] = mkv(v, 0) if isinstance(v, T.T) else [mkv(x, j) for j, x in enumerate(v)]
            else: raise Unsupported('loop-carried %s' % type(v).__name__)
        return out
    def step_of(self, ty, a, b):
        """b - a if constant; 'data' when it is not"""
        if isinstance(a, Ptr):
            if not isinstance(b, Ptr) or a.obj is not b.obj: raise Unsupported('pointer changes its buffer')
            if a.obj is None: return 0
            x = c64(a.off) if isinstance(a.off, int) else a.off; y = c64(b.off) if isinstance(b.off, int) else b.off
            d = T.sub(y, x)
            if not T.is_c(d): raise Unsupported('pointer step')
            return T._s(64, d.p)
        if isinstance(a, T.T) and (ty is None or ty[0] == 'i'):
            if not isinstance(b, T.T): raise Unsupported('carried type')
            d = T.sub(b, a)
            if T.is_c(d): return T._s(a.w, d.p)
            if ty is None: return 'data'
            raise Unsupported('counter step')
        if a is b or isinstance(a, list) and isinstance(b, list) and all(x is y for x, y in zip(a, b)): return 0
        return 'data'
    def summarise(self, f, regs, st, prev, h, body, allocs):
        self.phis(f, regs, h, prev)
        names = [(i[1], i[2]) for i in f.blocks[h] if i[0] == 'phi']
        for p, ty in names:
            while isinstance(regs[p], PtrIte):
                c = regs[p].c
                if any(not (v.p == 'n' or v.p.startswith('k!')) for v in T.leaves([c], ('var', 'undef'))): raise Unsupported('pointer choice depends on data')
                regs[p] = regs[p].a if self.decide(c) else regs[p].b
        init = {p: (ty, regs[p]) for p, ty in names}
        cells = {}
        lid = self.newid(); k = T.var('k!%d' % lid, 64)
        def go(mode, step, ctx):
            s2 = st.fork(T.true()); r2 = dict(regs)
            vals = self.carried(f, h, init, cells, mode, k, step, lid)
            for p, _ in names: r2[p] = vals[p]
            for (oid, off, sz) in cells: s2.cells(self.objs[oid])[off] = (sz, vals[(oid, off, sz)])
            self.ctx = ctx; self.cur = (body, h)
            try: r = self.run(f, r2, s2, h, None, h, allocs)
            finally: self.ctx = None; self.cur = None
            if r is None or r[0] != 'stop': raise Unsupported('loop body does not come back')
            nx = {p: r[2][p] for p, _ in names}
            for key in cells:
                c = r[1].mem.get(key[0], {}).get(key[1])
                if c is None or c[0] != key[2]: raise Unsupported('carried cell')
                nx[key] = c[1]
            return vals, nx, r
        for rnd in range(4):
            ctx = Ctx(lid, k); ctx.trial = True
            npc, nidx, npre, nalt = len(self.pc), self.idx, list(self.prefix), len(self.alts)
            vals, nx, r = go('trial', None, ctx)
            del self.pc[npc:]; self.idx = nidx; self.prefix = npre; del self.alts[nalt:]
            new = {}
            for oid, cs in r[1].mem.items():
                o = self.objs.get(oid)
                if o is None or o.kind != 'alloca': continue
                old = st.mem.get(oid) or {}
                for off, c in cs.items():
                    p = old.get(off)
                    if p is not None and p[0] == c[0] and p[1] is not c[1] and (oid, off, c[0]) not in cells: new[(oid, off, c[0])] = (None, p[1])
            if not new: break
            cells.update(new)
        tys = {**{p: ty for p, ty in names}, **{c: None for c in cells}}
        step = {key: self.step_of(tys[key], vals[key], nx[key]) for key in vals}
        ctx = Ctx(lid, k)
        vals, nx, r = go('real', step, ctx)
        goals = []
        for key in vals:
            s = step[key]
            if s == 'data': continue
            d = self.step_of(tys[key], vals[key], nx[key])
            if d != s: raise Unsupported('step of %s' % (key,))
        # exit
        if len(ctx.exits) != 1: raise Unsupported('%d exits' % len(ctx.exits))
        E_, target, eb, eregs, est, nst, nld = ctx.exits[0]
        if any(not (v.p == 'n' or v.p.startswith('k!')) for v in T.leaves([E_], ('var', 'undef'))): raise Unsupported('exit depends on data')
        top = (nst, nld) == (0, 0) and (ctx.nst or ctx.nld); bottom = (nst, nld) == (ctx.nst, ctx.nld)
        if not (top or bottom): raise Unsupported('exit in the middle of an iteration')
        K = self.trips(E_, k)
        total = K if top else T.add(K, c64(1))
        if top and self.decide(T.eq(K, c64(0))):
            # no iteration: values at k = 0
            sub = {k: c64(0)}
        else:
            self.pc.append(T.ult(k, total)); sub = {k: K}
            ctx.count = total
            if ctx.ref is not None:
                nxt = T.substitute(ctx.ref, {k: T.add(k, c64(1))}); S = T.sub(nxt, ctx.ref)
                if not T.is_c(S):
                    v = {T._s(64, T.evaluate([S], {x.p: nn if x.p == 'n' else kk for x in T.leaves([S])})[0]) for nn, kk in PROBE}
                    if len(v) != 1: raise Unsupported('advance')
                    S = c64(v.pop()); ctx.acc.append((T.sub(nxt, S), 0))
                ctx.step = T._s(64, S.p)
            ctx.regs = r[2]; ctx.st = r[1]; ctx.datastep = {key: (vals[key], nx[key], init[key][1] if key in init else cells[key][1]) for key in vals if step[key] == 'data'}
            self.done.append(ctx)
        def sb(v):
            if isinstance(v, T.T): return T.substitute(v, sub)
            if isinstance(v, Ptr): return v if isinstance(v.off, int) else self._mkptr(v.obj, T.substitute(v.off, sub))
            if isinstance(v, list): return [sb(x) for x in v] if v and v[0].w <= 64 and any('k!%d' % lid == y.p for x in v for y in T.leaves([x])) else v
            return v
        out = {}
        for q, v in eregs.items(): out[q] = v if q in regs and regs[q] is v else sb(v)
        for key in cells:
            c = est.mem.get(key[0], {}).get(key[1])
            if c is not None: est.cells(self.objs[key[0]])[key[1]] = (c[0], sb(c[1]))
        est.pc = st.pc
        self.phis(f, out, target, eb)
        return est, out, eb, target
    def trips(self, E_, k):
        """term for the first k at which the loop leaves"""
        neg = False; e = E_
        while e.op == 'xor' and T.is_c(e.args[0]): neg = not neg; e = e.args[1]
        cands = []
        z = {k: c64(0)}; one = {k: c64(1)}
        w = e.args[0].w if e.args else 0
        def coef(t):
            a = T.substitute(t, z); d = T.sub(T.substitute(t, one), a)
            vs = {T._s(w, T.evaluate([d], {v.p: nn for v in T.leaves([d])})[0]) for nn, _ in PROBE}
            if len(vs) != 1: return a, None
            return a, vs.pop()
        if e.op == 'eq' and not neg:
            x, y = e.args; a, b = coef(T.sub(x, y))
            if b: 
                num = a if b < 0 else T.sub(T.const(w, 0), a)
                cands.append(T.zext(num if abs(b) == 1 else T.udiv(num, T.const(w, abs(b))), 64) if w < 64 else (num if abs(b) == 1 else T.udiv(num, T.const(w, abs(b)))))
        if e.op in ('ult', 'slt'):
            ext = (lambda t: T.zext(t, 64) if w < 64 else t) if e.op == 'ult' else (lambda t: T.sext(t, 64) if w < 64 else t)
            lt = T.ult if e.op == 'ult' else T.slt
            x, y = e.args; (a, b), (c, d) = coef(x), coef(y)
            up = lambda m: c64(m - 1)
            if b is not None and d is not None:
                A, C = ext(a), ext(c)
                if neg and b > 0 and d == 0: cands.append(T.ite(lt(a, c), T.udiv(T.add(T.sub(C, A), up(b)), c64(b)), c64(0)))             # stay while x < y
                if not neg and b < 0 and d == 0: cands.append(T.ite(lt(a, c), c64(0), T.add(T.udiv(T.sub(A, C), c64(-b)), c64(1))))       # stay while x >= y
                if not neg and d > 0 and b == 0: cands.append(T.ite(lt(a, c), c64(0), T.add(T.udiv(T.sub(A, C), c64(d)), c64(1))))        # stay while y <= x
                if neg and d < 0 and b == 0: cands.append(T.ite(lt(a, c), T.udiv(T.add(T.sub(C, A), up(-d)), c64(-d)), c64(0)))           # stay while x < y, y falls
        for K in cands:
            a = solve.check('uf', self.pc + [T.ult(k, K), E_], 10000, True)
            b = solve.check('uf', self.pc + [T.bnot(T.substitute(E_, {k: K}))], 10000, True)
            if a[0] == 'unsat' and b[0] == 'unsat': return K
            for q in (a, b):
                if q[1]: self.hints.add(q[1].get('n', 0))
        raise Unsupported('trip count')
    hints = None

def spans(acc):
    """sorted disjoint intervals of a set of (offset, size)"""
    out = []
    for o, s in sorted(acc):
        if out and o <= out[-1][1]: out[-1][1] = max(out[-1][1], o + s)
        else: out.append([o, o + s])
    return out

class Path(object): pass
def run_paths(call, cfg, pre_of, maxpaths=24, kind='light', alias=None):
    """all length-dependent paths of the function; yields Path objects"""
    mod = E.module(call.chunk.ll[cfg][kind])
    todo = [[]]; es = E.ESZ[call.F]; out = []
    n = T.var('n', 32)
    while todo:
        if len(out) >= maxpaths: raise Unsupported('too many paths')
        pre = todo.pop()
        P = Path(); out.append(P)
        e = P.e = LExec(mod, pre, pre_of(n), n, max_steps=400000); e.hints = set(); e.reads = []
        fn = mod.func('@' + call.id); e.pname = fn.params[-1][1]
        objs = P.objs = {}
        for b in call.bufs:
            if alias and b.name in alias: continue
            o = e.buffer(b.name, None if b.length == 'n' else b.len(1) * es, es, call.align(cfg, b.name) if b.length == 'n' else es, b.role == 'in')
            e.objs[o.id] = o; objs[b.name] = o
        for b in call.bufs:
            if alias and b.name in alias: objs[b.name] = objs[alias[b.name]]
        args = [Ptr(objs[b.name], 0) for b in call.bufs] + [T.var(s, call.w) for s in call.scalars] + [n]
        st = symex.State()
        if '@llvm.global_ctors' in mod.gtext:
            e0 = symex.Exec(mod); st = e0.run_ctors(st); e.globs.update(e0.globs); e.objs.update(e0.objs)
        P.err = None; P.ret = None
        try:
            r = e.call_function(st, '@' + call.id, args)
            e.closeseg()
            if r is None: P.err = 'no normal return'
            else: P.st, P.ret = r
        except Unsupported as ex: P.err = str(ex)
        todo += e.alts
        P.pc = list(e.pc); P.ctxs = e.done; P.hints = e.hints
    return out

def model_n(pc, limit_list=(64, 4096, 1 << 17, 1 << 21, 1 << 25, 1 << 29, 1 << 31, 0xfffffffe)):
    """lengths that satisfy the condition, small ones first"""
    n = T.var('n', 32); out = []
    for l in limit_list:
        s, env = solve.check('uf', pc + [T.ult(n, T.const(32, l + 1))], 8000)
        if s == 'sat':
            out.append(env.get('n', 0)); break
    return out

def outside(P, o, es, n64):
    """condition under which a read of the object lies outside the first n elements (None: never)"""
    end = T.mul(c64(es), n64); bad = []
    for c in P.ctxs:
        if getattr(c, 'block', None):
            if c.block[0] != 'memset' and isinstance(c.block[1][1], Ptr) and c.block[1][1].obj is o:
                x = c.block[1][1].off; x = c64(x) if isinstance(x, int) else x; l = list(c.len.values())[0]
                bad.append(T.bnot(T.and_(T.ule(x, end), T.ule(l, T.sub(end, x)))))
            continue
        acc = c.loads.get(o)
        if acc:
            a, b = min(d for d, _ in acc), max(d + z for d, z in acc); x = T.add(c.ref, c64(a))
            bad.append(T.bnot(T.and_(T.ule(x, end), T.ule(c64(b - a), T.sub(end, x)))))
    r = [q + z for ob, q, z in (P.e.reads or []) if ob is o and isinstance(q, int)]
    if r: bad.append(T.ult(end, c64(max(r))))
    q = T.disj(bad) if bad else T.false()
    if T.is_c(q) and not q.p: return None
    return None if solve.check('uf', P.pc + [q], 20000, False)[0] == 'unsat' else q
def check_path(call, cfg, P, es, alias=None):
    """('proved', None) or (reason, [candidate lengths])"""
    e = P.e; pc = P.pc; n64 = T.zext(T.var('n', 32), 64)
    def fail(why, extra=None):
        ns = model_n(pc + ([extra] if extra is not None else [])) if not P.err else model_n(pc)
        return why, ns + [h for h in P.hints if h]
    if P.err: return fail(P.err)
    if any(o.kind in ('assert', 'oob-read', 'oob-write', 'ro-write', 'align') for o in e.obl): return fail('obligation: %s' % e.obl[0])
    # 1. the relative positions hold for every n and k
    g = []
    for c in P.ctxs:
        if c.ref is None: continue
        g += [T.eq(off, T.add(c.ref, c64(d))) for off, d in c.acc]
        seen = set()
        for off, al in c.align:
            if (off.id, al) in seen: continue
            seen.add((off.id, al)); g.append(T.eq(T.and_(c64(al - 1), off), c64(0)))
    g = [x for x in g if not (T.is_c(x) and x.p)]
    if g:
        s, env = solve.check('uf', pc + [T.bnot(T.conj(g))], 20000)
        if s != 'unsat': return fail('positions: %s' % s, T.bnot(T.conj(g)))
    # 2. every element of every output belongs to exactly one iteration; reads cover the inputs of pure reductions
    for b in call.bufs:
        if b.length != 'n': continue
        o = P.objs[b.name]; R = []
        reading = b.role == 'in'
        if b.role != 'out' or any(b.name == x for x in (alias or {})):
            bad = outside(P, o, es, n64)
            if bad: return fail('%s: reads outside' % b.name, bad)
        if reading and any(x.role != 'in' and x.length == 'n' for x in call.bufs): continue
        for c in P.ctxs:
            if getattr(c, 'block', None):
                if o in c.start: R.append((c.start[o], c.len[o]))
                continue
            acc = (c.loads if reading else c.stores).get(o)
            if not acc: continue
            sp = spans(acc)
            if len(sp) != 1 or (c.k is not None and (c.step is None or sp[0][1] - sp[0][0] != c.step)):
                if not (reading and len(sp) == 1): return fail('%s: iteration covers %s, advances by %s' % (b.name, sp, c.step))
            if not reading and sum(s for _, s in acc) != sp[0][1] - sp[0][0]: return fail('%s: overlapping stores' % b.name)
            base = c.ref if c.k is None else T.substitute(c.ref, {c.k: c64(0)})
            ln = T.mul(c.count, c64(c.step)) if c.k is not None else c64(sp[0][1] - sp[0][0])
            if c.k is not None and sp[0][1] - sp[0][0] != c.step: ln = T.add(ln, c64(sp[0][1] - sp[0][0] - c.step))
            R.append((T.add(base, c64(sp[0][0])), ln))
        for off, sz in spans({(q, cc[0]) for q, cc in (P.st.mem.get(o.id) or {}).items()}) if not reading else []: R.append((c64(off), c64(sz - off)))
        if reading:
            for off, end in spans({(q, s) for ob, q, s in (e.reads or []) if ob is o}): R.append((c64(off), c64(end - off)))
        if not R: return fail('%s: nothing accessed' % b.name)
        s, env = solve.check('uf', pc, 8000)
        if s == 'sat':
            ev = {v.p: env.get(v.p, 0) for v in T.leaves([x for p in R for x in p])}
            R.sort(key=lambda p: T.evaluate([p[0]], ev)[0])
        goals = []; pos = c64(0)
        for a, l in R:
            goals.append(T.eq(a, pos) if not reading else T.ule(a, pos)); pos = T.add(a, l)
        goals.append(T.eq(pos, T.mul(c64(es), n64)))
        gl = T.conj(goals)
        if T.is_c(gl) and gl.p:
            solve.STATS['queries'] += 0
            continue
        s, env = solve.check('uf', pc + [T.bnot(gl)], 30000)
        if s != 'unsat': return fail('%s: coverage %s' % (b.name, s), T.bnot(gl))
    return 'proved', None

def window_values(call, P, c, es):
    """{buffer: {index: term}} stored by one iteration, indices counted from the first element of the iteration"""
    lo = None
    for o, acc in c.stores.items():
        l = min(d for d, _ in acc); lo = l if lo is None or l < lo else lo
    out = {}; st = c.st if c.k is not None else P.st
    for o, acc in c.stores.items():
        w = c.win[o.id]; sp = spans(acc)[0]
        out[o.name] = {(q - lo) // es: P.e.load_at(st, ('f', 8 * es), w, q) for q in range(sp[0], sp[1], es)}
    ren = {}
    for oid, w in c.win.items():
        nm = w.name.split('~', 1)[1]
        ren[w.name] = (nm, lo // es)
    return out, ren, lo

def rename(t, ren):
    m = {}
    for v in T.leaves([t], ('var',)):
        h = v.p.rsplit('[', 1)
        if len(h) == 2 and h[0] in ren:
            nm, lo = ren[h[0]]; j = int(h[1][:-1]) - lo
            m[v] = T.var('%s[%d]' % (nm, j), v.w)
    return T.substitute(t, m) if m else t

# ------------------------------------------------------------------------------------------ task
def multiple(call, cfg):
    import math
    if call.form != 'simd': return 1
    v = E.VSIZE[call.F][cfg]
    return v if call.fam == 'horiz' else 2 * v if call.fam == 'meter' else E.BLOCK[call.F]
def pre_of(call, cfg):
    m = multiple(call, cfg)
    def f(n):
        p = [T.bnot(T.eq(n, T.const(32, 0)))]
        if m > 1: p.append(T.eq(T.and_(n, T.const(32, m - 1)), T.const(32, 0)))
        return p
    return f
def slopes(call):
    """{scalar: value at which the ramp stands still}"""
    if call.fam == 'set_exp': return {'d': 1.0}
    if call.fam == 'set_slope' or call.id.startswith('m_addramp'): return {'d': 0.0}
    if call.fam == 'pan': return {'d': 0.0, 'e': 0.0} if 'd' in call.scalars else {}
    return {'d' + C_A[j]: 0.0 for j, k in enumerate(call.kinds) if k == 'r'}
C_A = 'abcd'
def turn(limit):
    """at most `limit` huge native runs per check"""
    for k in range(limit):
        try: os.close(os.open(os.path.join(build.work(), 'big.%d' % k), os.O_CREAT | os.O_EXCL)); return True
        except FileExistsError: pass
    return False
def native_big(call, cfg, n, pos=(), ramp=False, alias=None, safe=False):
    """None: agrees (or cannot be run); else description"""
    import fcntl
    es = E.ESZ[call.F]; nb = sum(b.length == 'n' for b in call.bufs)
    nw = sum(b.length == 'n' and b.role != 'in' for b in call.bufs) or 1
    if n <= 0 or n * es * nw > (9 << 30): return None
    so = E.so_for(call, cfg)
    if so is None: return None
    sl = slopes(call); red = not any(b.role != 'in' and b.length == 'n' for b in call.bufs)
    sc = [sl.get(s, [0.75, 1.25, 0.5, 1.5, 2.25][i % 5]) for i, s in enumerate(call.scalars)]
    req = {'big': 1, 'so': so, 'fn': call.id, 'w': call.w, 'n': n, 'small': multiple(call, cfg), 'scalars': sc, 'ret': call.ret, 'useret': call.fam == 'horiz', 'mode': 'reduce' if red else 'map', 'pos': list(pos),
           'bufs': [{'name': b.name, 'role': b.role, 'n': b.length == 'n', 'align': call.align(cfg, b.name) if b.length == 'n' else es} for b in call.bufs]}
    if alias:
        ix = {b.name: k for k, b in enumerate(call.bufs)}
        req['alias'] = {str(ix[a]): ix[o] for a, o in alias.items()}
    if ramp:
        if n > 1 << 23: return None
        prs = ramp_pairs(call); ix = {s: i for i, s in enumerate(call.scalars)}
        req['ramps'] = [(ix[r], ix[d]) for r, d in prs]; req['exp'] = call.fam == 'set_exp'; req['rounds'] = 3 if call.fam in ('over', 'clip', 'clip2', 'min', 'max') else 1
        for r, d in prs: sc[ix[r]] = 1.0; sc[ix[d]] = -1.0 if call.fam == 'set_exp' else 1.0
    lk = open(os.path.join(build.work(), 'big.lock'), 'w') if n * es * nb > (1 << 30) else None
    if lk and not turn(8): lk.close(); return None
    try:
        if lk: fcntl.flock(lk, fcntl.LOCK_EX)
        r = E.runner().call(req, timeout=200)
    except build.Crash as ex:
        if 'signal 11' in str(ex) or 'signal 6' in str(ex): return {'confirmed': True, 'n': n, 'observed': 'native run: %s' % ex}
        return None
    finally:
        if lk: lk.close()
    if r.get('slack'): return {'confirmed': True, 'n': n, 'observed': 'memory before the buffer changed'}
    if r['bad'] and not safe: return {'confirmed': True, 'n': n, 'observed': r['bad'], 'scalars': sc}
    return None

def ctx_values(call, cfg, P, c, es, runs, res, alias=None):
    """values stored by one arbitrary iteration against the specification (or the bounded run) -> reason or None"""
    if not c.stores: return None
    vals, ren, lo = window_values(call, P, c, es)
    outs = [b.name for b in call.bufs if b.role != 'in' and b.length == 'n']
    if set(vals) - set(outs): return None
    B = max(len(v) for v in vals.values())
    terms = {b: {j: rename(t, ren) for j, t in v.items()} for b, v in vals.items()}
    flat = [t for v in terms.values() for t in v.values()]
    lv = T.leaves(flat, ('var', 'undef'))
    if any(v.p.startswith('h!') for v in lv): return ramp_values(call, cfg, P, c, es, runs, res, alias)
    for v in lv:
        if v.p == 'n' or v.p.startswith('k!'): return 'value depends on the position'
        if v.p.endswith(']'):
            j = int(v.p.rsplit('[', 1)[1][:-1])
            if not 0 <= j < B: return 'iteration uses %s' % v.p
    if call.spec and set(terms) == set(outs):
        ins = {b.name: [T.var('%s[%d]' % ((alias or {}).get(b.name, b.name), k), call.w) for k in range(b.len(B))] for b in call.bufs}
        x = E.X(call, B, ins, {b: [terms[b][j] for j in range(B)] for b in outs}, {s: T.var(s, call.w) for s in call.scalars}, None, cfg)
        items = call.spec(x); res['items'] += len(items)
        vs = solve.decide(items, fp_ms=8000)
        if not vs: return None
    m = multiple(call, cfg); N = -(-B // m) * m
    if N not in runs: runs[N] = E.sym_run(call, cfg, N, alias=alias)
    R = runs[N]
    if R.dead: return 'bounded run'
    for b, v in terms.items():
        for j, t in v.items():
            res['items'] += 1
            vs = rel.decide_eq('%s[%d]' % (b, j), [], t, R.out[b][j], False)
            if vs: return 'value: %s' % vs[0].label
    return None
def block_values(call, P, c):
    op, a = c.block
    d = a[0]; off = c64(d.off) if isinstance(d.off, int) else d.off
    if op == 'memset':
        v = a[1]
        if call.fam == 'mem' and 'zerovec' in call.id: return None if T.is_c(v) and v.p & 255 == 0 else 'memset value'
        return 'memset'
    s = a[1]
    if not isinstance(s, Ptr): return 'memcpy source'
    so = c64(s.off) if isinstance(s.off, int) else s.off
    if call.fam == 'mem' and 'copyvec' in call.id and s.obj is P.objs['a'] and d.obj is P.objs['o']:
        r = solve.check('uf', P.pc + [T.bnot(T.eq(so, off))], 8000, False)[0]
        return None if r == 'unsat' else 'memcpy offsets'
    return 'memcpy'
def flow(call, P, c):
    """reductions: every element an iteration reads reaches the state it hands on"""
    if c.k is None: return None
    tgt = []
    def add(v):
        if isinstance(v, T.T): tgt.append(v)
        elif isinstance(v, list):
            for x in v: add(x)
    for key, (v, nx, i0) in c.datastep.items(): add(nx)
    have = {v.p for v in T.leaves(tgt, ('var',))} if tgt else set()
    es = E.ESZ[call.F]
    for o, acc in c.loads.items():
        for a, b in spans(acc):
            for q in range(a, b, es):
                if '%s[%d]' % (c.win[o.id].name, q // es) not in have: return 'element %d of an iteration of %s is not used' % (q // es, o.name)
    return None

def loop_task(call, cfg, alias=None, kinds=('light',), safe=False):
    """all lengths: coverage, bounds, alignment and values.  kinds: IR flavours, tried in turn until one is proved"""
    t0, res = rel.begin(call, cfg, 'symbolic')
    m = multiple(call, cfg); cand = []; why = []
    for kind in kinds:
        why = one_kind(call, cfg, alias, kind, safe, res, cand)
        if not why: res['how'] = kind; return E.finish(res, t0)
    tried = []
    for n in cand + [m, 3 * m, 4097 * m, (1 << 20) + 4 * m]:
        n = n // m * m
        if n in tried or not n: continue
        tried.append(n)
        rp = native_big(call, cfg, n, alias=alias, safe=safe) or (native_big(call, cfg, n, ramp=True, alias=alias) if ramp_pairs(call) and not safe else None)
        if rp: res.update(status='violation', replay=rp, label='n=%d%s: %s' % (n, ' in place' if alias else '', why[0]), n=n); return E.finish(res, t0)
        if len(tried) > 8: break
    res.update(status='undecided', notes=['%s; agrees natively at n=%s' % (w, tried) for w in why[:3]])
    return E.finish(res, t0)
def one_kind(call, cfg, alias, kind, safe, res, cand):
    es = E.ESZ[call.F]; why = []
    red = not any(b.role != 'in' and b.length == 'n' for b in call.bufs)
    try: Ps = run_paths(call, cfg, pre_of(call, cfg), kind=kind, alias=alias)
    except Unsupported as ex: return [str(ex)]
    runs = {}
    for P in Ps:
        res['steps'] += P.e.steps; res['paths'] += 1; res['funcs'] = sorted(set(res['funcs']) | set(P.e.funcs)); res['items'] += 1
        try:
            if P.pc and solve.check('uf', P.pc, 8000, False)[0] == 'unsat': continue
            r, cs = check_path(call, cfg, P, es, alias)
            if r == 'proved' and not safe:
                if red:
                    v = reduction(call, cfg, P, es, res)
                    if v: r = v; cs = model_n(P.pc)
                for c in P.ctxs:
                    if r != 'proved': break
                    v = block_values(call, P, c) if getattr(c, 'block', None) else flow(call, P, c) if red else ctx_values(call, cfg, P, c, es, runs, res, alias)
                    if v: r = v; cs = model_n(P.pc)
        except Unsupported as ex: r = str(ex); cs = model_n(P.pc)
        if r != 'proved': why.append(r); cand += cs or []
    return why
def add(ck, calls, cfgs, aliases=None, **k):
    """tasks at symbolic length for the run-time-length forms among the calls"""
    n = 0
    for c in {c.id: c for c in calls}.values():
        if not c.has_n or c.form not in ('vec', 'simd'): continue
        for g in cfgs:
            if c.on(g) and c.chunk is not None and g in c.chunk.ll:
                for al in (aliases(c) if aliases else [None]): ck.task(loop_task, c, g, alias=al, **k); n += 1
    if n:
        ck.bounds['symbolic length'] = 'run-time-length forms additionally for every n (see C19): one arbitrary loop iteration, trip count verified'
        ck.extra['symbolic_length_tasks'] = n

# ------------------------------------------------------------------------------------------ induction over iterations: ramps and reductions
import realdom as RD
def poly(ts, memo=None):
    out = RD.analyse(ts, memo)
    if any(x is None for x in out): raise RD.NoPoly()
    return [x.p for x in out]
def compose(p, m):
    """polynomial p with variables replaced by polynomials"""
    r = {}
    for mon, c in p.items():
        t = {(): c}
        for v in mon: t = RD.pmul(t, m[v] if v in m else {(v,): 1})
        r = RD.padd(r, t)
    return r
def same_poly(a, b): return RD.lra_within(RD.PV(a, {}), b, {}) == 'proved'
def states(c):
    """[(state variable, next term, initial term)]"""
    out = []
    for key, (v, nx, i0) in c.datastep.items():
        if isinstance(v, list):
            if not (isinstance(nx, list) and isinstance(i0, list)): raise Unsupported('carried shape')
            out += list(zip(v, nx, i0))
        else: out.append((v, nx, i0))
    return out
def closure(roots, sts):
    """state variables the roots depend on, directly or through next values"""
    by = {v: (v, nx, i0) for v, nx, i0 in sts}; todo = list(roots); seen = {}
    while todo:
        for t in T.leaves([todo.pop()], ('var',)):
            if t in by and t not in seen: seen[t] = by[t]; todo.append(by[t][1])
    return list(seen.values())
def ramp_pairs(call):
    if call.fam in ('set_exp', 'set_slope') or call.id.startswith('m_addramp'): return [('f', 'd')]
    if call.fam == 'pan': return [('f', 'd'), ('g', 'e')] if 'd' in call.scalars else []
    return [('r' + C_A[j], 'd' + C_A[j]) for j, k in enumerate(call.kinds) if k == 'r']
def ramp_values(call, cfg, P, c, es, runs, res, alias=None):
    """iteration k is the first iteration with every base moved on by k steps -> reason or None"""
    if sum(1 for x in P.ctxs if getattr(x, 'block', None) or x.stores) != 1: return 'several loops'
    vals, ren, lo = window_values(call, P, c, es)
    B = max(len(v) for v in vals.values()); w = call.w
    flat = [t for v in vals.values() for t in v.values()]
    sts = closure(flat, states(c)); init = {v: i0 for v, _, i0 in sts}
    prs = ramp_pairs(call)
    sh = {r: ({(r,): 1, (d,): B} if call.fam != 'set_exp' else {tuple(sorted((r,) + (d,) * B)): 1}) for r, d in prs}
    try:
        for v, nx, i0 in sts:
            res['items'] += 1
            a, b = poly([T.substitute(nx, init), i0])
            if not same_poly(a, compose(b, sh)): return 'ramp: one iteration does not advance the ramp by %d steps' % B
    except RD.NoPoly: return 'ramp state is not a polynomial'
    # first iteration
    m = multiple(call, cfg); N = -(-B // m) * m
    if N not in runs: runs[N] = E.sym_run(call, cfg, N, alias=alias)
    R = runs[N]
    if R.dead: return 'bounded run'
    for b, v in vals.items():
        for j, t in v.items():
            t = rename(T.substitute(t, init), ren); res['items'] += 1
            if any(x.p == 'n' or x.p.startswith('k!') for x in T.leaves([t], ('var',))): return 'value depends on the position'
            vs = rel.decide_eq('%s[%d]' % (b, j), [], t, R.out[b][j], False)
            if vs: return 'value: %s' % vs[0].label
    return None

KINDS = {'h_max': {'ret': 'max'}, 'h_min': {'ret': 'min'}, 'h_sum': {'ret': 'sum'}, 'h_minmax': {'p': 'min', 'q': 'max'}, 'h_maxsum': {'p': 'max', 'q': 'sum'},
         'p_peak': {'p': 'maxabs', 'ret': 'last'}, 'p_rms': {'p': 'maxabs', 'q': 'sumsq'}}
def reduction(call, cfg, P, es, res):
    """the returned value is the reduction over all n elements, by induction over the iterations -> reason or None"""
    kinds = KINDS.get(call.id.rsplit('_', 2)[0])
    if kinds is None: return 'unknown reduction'
    L = [c for c in P.ctxs if c.k is not None or getattr(c, 'block', None) or c.loads]
    if len(L) > 1 or any(c.k is None for c in L): return 'several loops'
    w = call.w; c = L[0] if L else None; el = []; sts = []
    o = P.objs['a']
    if c is not None:
        for a, b in spans(c.loads.get(o, ())): el += [T.var('%s[%d]' % (c.win[o.id].name, q // es), w) for q in range(a, b, es)]
        sts = states(c)
    pre = sorted({(q + d) // es for ob, q, s in (P.e.reads or []) if ob is o and isinstance(q, int) for d in range(0, s, es)})
    base = [T.var('a[%d]' % j, w) for j in pre]
    fin = {'max': T.const(w, fe.INF[w] | T.sgnbit(w)), 'min': T.const(w, fe.INF[w]), 'maxabs': T.const(w, 0)}
    for key, kind in kinds.items():
        R = P.ret if key == 'ret' else P.e.load_at(P.st, ('f', w), P.objs[key], 0)
        old = None if key == 'ret' or kind not in ('maxabs', 'sumsq') else T.var('%s[0]' % key, w)
        used = closure([R], sts)
        if any(x.p == 'n' or x.p.startswith('k!') for t in [R] + [y for s in used for y in s[1:]] for x in T.leaves([t], ('var',))): return 'result depends on the length'
        if kind == 'last':
            l = (el or base)[-1]; res['items'] += 1
            vs = solve.decide([('last', [T.bnot(T.fisnan(l))], T.fcmp('feq', R, T.fabs(l)))])
            if vs: return 'last value'
        elif kind in ('sum', 'sumsq'):
            try: ps = poly([R] + [t for s in used for t in s[1:]])
            except RD.NoPoly: return 'sum is not a polynomial'
            tot = {}
            for x in el: tot[(x.p,) if kind == 'sum' else (x.p, x.p)] = 1
            A = RD.padd(ps[0], tot, -1)
            if any(v in {x.p for x in el} for mon in A for v in mon): return 'an element does not enter the sum once'
            nxt = {s[0].p: ps[1 + 2 * i] for i, s in enumerate(used)}; ini = {s[0].p: ps[2 + 2 * i] for i, s in enumerate(used)}
            res['items'] += 2
            if c is not None and not same_poly(compose(A, nxt), RD.padd(A, tot)): return 'one iteration does not add its elements'
            b = {} if old is None else {(old.p,): 1}
            for x in base: b[(x.p,) if kind == 'sum' else (x.p, x.p)] = 1
            if not same_poly(compose(A, ini), b): return 'start of the sum'
        else:
            idt = fin[kind]; f = (lambda x: T.fabs(x)) if kind == 'maxabs' else (lambda x: x)
            ge = (lambda x, y: T.fcmp('fle', y, x)) if kind != 'min' else (lambda x, y: T.fcmp('fle', x, y))
            A = T.substitute(R, {x: idt for x in el}) if el else R
            asm = [T.bnot(T.fisnan(x)) for x in el + base + [s[0] for s in used]]
            if old is not None: asm += [T.bnot(T.fisnan(old)), T.fcmp('fle', T.const(w, 0), old)]
            items = []
            def comb(lab, r, parts):
                for k, x in enumerate(parts): items.append(('%s %s covers %d' % (key, lab, k), asm, ge(r, x)))
                items.append(('%s %s attained' % (key, lab), asm, T.disj([T.fcmp('feq', r, x) for x in parts])))
            if c is not None:
                comb('result', R, [A] + [f(x) for x in el])
                comb('step', T.substitute(A, {s[0]: s[1] for s in used}), [A] + [f(x) for x in el])
                for s in used: items.append(('%s state stays a number' % key, asm, T.bnot(T.fisnan(s[1]))))
            comb('start', T.substitute(A, {s[0]: s[2] for s in used}), [old if old is not None else idt] + [f(x) for x in base])
            res['items'] += len(items)
            vs = solve.decide(items)
            if vs: return vs[0].label
    return None
