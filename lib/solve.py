"""SMT encoding of term DAGs and the decision ladder.

Encoding modes
  uf : floating-point arithmetic (add, mul, div, sqrt, fma, rounding, conversions, libm) uninterpreted; comparisons, NaN
       tests, sign manipulation, integer operations, selects are bit-exact.  unsat here is unsat for IEEE arithmetic too.
  fp : IEEE-754 theory, round to nearest even (libm, rcp stay uninterpreted).
"""
import time, random
import z3
import numpy as np
import terms as T
import fpeval as fe

STATS = {'queries': 0, 'solver_s': 0.0, 'uf': 0, 'fp': 0, 'real': 0, 'bv': 0, 'unknown': 0, 'terms': 0}
def reset_stats():
    for k in STATS: STATS[k] = 0 if k != 'solver_s' else 0.0

SORT = {32: z3.Float32(), 64: z3.Float64()}
RNE = z3.RNE()
_UF = {}
def ufun(name, *ws):
    k = (name,) + ws
    f = _UF.get(k)
    if f is None:
        f = _UF[k] = z3.Function('%s_%s' % (name, '_'.join(map(str, ws))), *[z3.BitVecSort(w) for w in ws])
    return f
MODES = {'rne': z3.RNE(), 'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rna': z3.RNA()}

def bvb(c): return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

class Enc(object):
    def __init__(self, mode='uf'):
        self.mode = mode; self.b = {}; self.f = {}; self.vars = {}; self.side = []
        self.bool = {}
    def var(self, t):
        v = z3.BitVec('v!' + str(t.p), t.w); self.vars[t.p] = v
        return v
    def fp(self, t):
        """floating-point expression of a term (fp mode)"""
        r = self.f.get(t.id)
        if r is not None: return r
        op = t.op; w = t.w
        if op == 'const':
            r = z3.fpBVToFP(z3.BitVecVal(t.p, w), SORT[w])
        elif op == 'ite': r = z3.If(self.tb(t.args[0]), self.fp(t.args[1]), self.fp(t.args[2]))
        elif op == 'xor' and T.is_c(t.args[0]) and t.args[0].p == T.sgnbit(w): r = z3.fpNeg(self.fp(t.args[1]))
        elif op == 'and' and T.is_c(t.args[0]) and t.args[0].p == T.sgnbit(w) - 1: r = z3.fpAbs(self.fp(t.args[1]))
        elif op == 'fadd': r = z3.fpAdd(RNE, self.fp(t.args[0]), self.fp(t.args[1]))
        elif op == 'fmul': r = z3.fpMul(RNE, self.fp(t.args[0]), self.fp(t.args[1]))
        elif op == 'fdiv': r = z3.fpDiv(RNE, self.fp(t.args[0]), self.fp(t.args[1]))
        elif op == 'fsqrt': r = z3.fpSqrt(RNE, self.fp(t.args[0]))
        elif op == 'ffma': r = z3.fpFMA(RNE, *[self.fp(a) for a in t.args])
        elif op == 'frint': r = z3.fpRoundToIntegral(MODES[t.p], self.fp(t.args[0]))
        elif op == 'sitofp': r = z3.fpSignedToFP(RNE, self.bv(t.args[0]), SORT[w])
        elif op == 'uitofp': r = z3.fpUnsignedToFP(RNE, self.bv(t.args[0]), SORT[w])
        elif op in ('fpext', 'fptrunc'): r = z3.fpFPToFP(RNE, self.fp(t.args[0]), SORT[w])
        else: r = z3.fpBVToFP(self.bv(t), SORT[w])
        self.f[t.id] = r
        return r
    def tb(self, t):
        """width-1 term as z3 Bool"""
        r = self.bool.get(t.id)
        if r is not None: return r
        op = t.op; a = t.args
        if op == 'const': r = z3.BoolVal(bool(t.p))
        elif op == 'and': r = z3.And(self.tb(a[0]), self.tb(a[1]))
        elif op == 'or': r = z3.Or(self.tb(a[0]), self.tb(a[1]))
        elif op == 'xor':
            if T.is_c(a[0]): r = z3.Not(self.tb(a[1]))
            else: r = z3.Xor(self.tb(a[0]), self.tb(a[1]))
        elif op == 'ite': r = z3.If(self.tb(a[0]), self.tb(a[1]), self.tb(a[2]))
        elif op == 'eq':
            r = (self.tb(a[0]) == self.tb(a[1])) if a[0].w == 1 else (self.bv(a[0]) == self.bv(a[1]))
        elif op == 'ult': r = z3.ULT(self.bv(a[0]), self.bv(a[1]))
        elif op == 'slt': r = self.bv(a[0]) < self.bv(a[1])
        elif op == 'extract':
            r = z3.Extract(t.p[0], t.p[1], self.bv(a[0])) == 1
        elif op == 'fisnan':
            r = z3.fpIsNaN(self.fp(a[0])) if self.mode == 'fp' else self.nan(self.bv(a[0]), a[0].w)
        elif op in ('feq', 'flt', 'fle'):
            if self.mode == 'fp':
                x, y = self.fp(a[0]), self.fp(a[1])
                r = {'feq': z3.fpEQ, 'flt': z3.fpLT, 'fle': z3.fpLEQ}[op](x, y)
            else: r = self.cmp(op, self.bv(a[0]), self.bv(a[1]), a[0].w)
        else: r = self.bv(t) == 1
        self.bool[t.id] = r
        return r
    def nan(self, x, w):
        return z3.UGT(x & ((1 << (w - 1)) - 1), z3.BitVecVal(fe.INF[w], w))
    def cmp(self, op, x, y, w):
        ok = z3.And(z3.Not(self.nan(x, w)), z3.Not(self.nan(y, w)))
        m = (1 << (w - 1)) - 1
        bz = z3.And((x & m) == 0, (y & m) == 0)
        if op == 'feq': return z3.And(ok, z3.Or(x == y, bz))
        sx = z3.Extract(w - 1, w - 1, x) == 1; sy = z3.Extract(w - 1, w - 1, y) == 1
        lt = z3.If(sx, z3.If(sy, z3.UGT(x, y), z3.BoolVal(True)), z3.If(sy, z3.BoolVal(False), z3.ULT(x, y)))
        if op == 'flt': return z3.And(ok, z3.Not(bz), lt)
        return z3.And(ok, z3.Or(bz, x == y, lt))
    def bv(self, root):
        r = self.b.get(root.id)
        if r is not None: return r
        for t in T.postorder([root]) if root.args else [root]:
            if t.id in self.b: continue
            self.b[t.id] = self.bv1(t)
        return self.b[root.id]
    def bv1(self, t):
        op = t.op; w = t.w
        if op == 'const': return z3.BitVecVal(t.p, w)
        if op == 'var': return self.var(t)
        if op == 'undef':
            v = z3.BitVec('u!' + t.p, w); return v
        if w == 1 and op not in ('undef', 'var'): 
            if op in ('and', 'or', 'xor', 'ite', 'eq', 'ult', 'slt', 'fisnan', 'feq', 'flt', 'fle'): return bvb(self.tb(t))
        g = lambda i: self.b[t.args[i].id] if t.args[i].id in self.b else self.bv(t.args[i])
        if op == 'and': return g(0) & g(1)
        if op == 'or': return g(0) | g(1)
        if op == 'xor': return g(0) ^ g(1)
        if op == 'add': return g(0) + g(1)
        if op == 'sub': return g(0) - g(1)
        if op == 'mul': return g(0) * g(1)
        if op == 'udiv': return z3.UDiv(g(0), g(1))
        if op == 'urem': return z3.URem(g(0), g(1))
        if op == 'sdiv': return g(0) / g(1)
        if op == 'srem': return z3.SRem(g(0), g(1))
        if op == 'shl': return g(0) << g(1)
        if op == 'lshr': return z3.LShR(g(0), g(1))
        if op == 'ashr': return g(0) >> g(1)
        if op == 'ite': return z3.If(self.tb(t.args[0]), g(1), g(2))
        if op == 'extract': return z3.Extract(t.p[0], t.p[1], g(0))
        if op == 'concat': return z3.Concat(g(0), g(1))
        if op == 'zext': return z3.ZeroExt(w - t.args[0].w, g(0))
        if op == 'sext': return z3.SignExt(w - t.args[0].w, g(0))
        ws = [a.w for a in t.args]
        if self.mode == 'fp' and op in ('fadd', 'fmul', 'fdiv', 'fsqrt', 'ffma', 'frint', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
            f = self.fp(t)
            return z3.If(z3.fpIsNaN(f), z3.BitVecVal(fe.QNAN[w], w), z3.fpToIEEEBV(f))
        if self.mode == 'fp' and op == 'cvtt':
            a = self.fp(t.args[0]); aw = t.args[0].w
            lim = z3.fpBVToFP(z3.BitVecVal(fe.of_int(aw, 1 << (w - 1)), aw), SORT[aw])
            # in range: -2^(w-1) - 1 < x < 2^(w-1); a float below -2^(w-1) that truncates into range exists only if aw has spare bits
            tr = z3.fpRoundToIntegral(z3.RTZ(), a)
            ok = z3.And(z3.Not(z3.fpIsNaN(a)), z3.fpLT(tr, lim), z3.fpLEQ(z3.fpNeg(lim), tr))
            return z3.If(ok, z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(w)), z3.BitVecVal(1 << (w - 1), w))
        if op == 'libm': return ufun('libm.' + t.p, *(ws + [w]))(*[g(i) for i in range(len(ws))])
        nm = op if t.p is None else '%s.%s' % (op, t.p)
        av = [g(i) for i in range(len(ws))]
        r = ufun(nm, *(ws + [w]))(*av)
        if op in ('fadd', 'fmul', 'fdiv', 'ffma', 'fsqrt', 'frint', 'fpext', 'fptrunc') and w in (32, 64): self.axioms(t, op, r, av, ws)
        if op == 'cvtt': self.side.append(z3.Implies(self.nan(av[0], ws[0]), r == z3.BitVecVal(1 << (w - 1), w)))
        return r
    def axioms(self, t, op, r, a, ws):
        """facts about IEEE operations added to uninterpreted applications"""
        w = t.w; nr = self.nan(r, w); na = [self.nan(x, k) for x, k in zip(a, ws)]
        S = self.side; sg = lambda x, k: z3.Extract(k - 1, k - 1, x)
        S.append(z3.Implies(z3.Or(*na), nr))
        mg = lambda x, k: x & ((1 << (k - 1)) - 1)
        if op == 'fadd':
            if all(c.op == 'xor' and T.is_c(c.args[0]) and c.args[0].p == T.sgnbit(w) for c in t.args):
                r2 = self.bv(T.fop('fadd', t.args[0].args[1], t.args[1].args[1]))
                S.append(z3.Or(z3.And(nr, self.nan(r2, w)), r == r2 ^ T.sgnbit(w), z3.And(mg(r, w) == 0, mg(r2, w) == 0)))
            for i in (0, 1):
                c = t.args[i]
                if T.is_c(c) and c.p & T.mask(w - 1) == 0:
                    x = a[1 - i]
                    S.append(z3.Implies(z3.Not(na[1 - i]), z3.Or(r == x, z3.And(mg(r, w) == 0, mg(x, w) == 0))))
                elif T.is_c(c) and fe.isfinite(w, c.p):
                    # rounding is monotone: same signs cannot shrink, opposite signs cannot grow past the larger operand nor flip its sign
                    x = a[1 - i]; k = a[i]; same = sg(x, w) == sg(k, w); mx, mk = mg(x, w), mg(k, w); m = mg(r, w)
                    S.append(z3.Implies(z3.Not(na[1 - i]), z3.And(z3.Not(nr),
                        z3.Implies(same, z3.And(z3.UGE(m, mx), z3.UGE(m, mk), sg(r, w) == sg(x, w))),
                        z3.Implies(z3.And(z3.Not(same), z3.UGT(mx, mk)), z3.And(m != 0, z3.ULE(m, mx), sg(r, w) == sg(x, w))),
                        z3.Implies(z3.And(z3.Not(same), z3.ULT(mx, mk)), z3.And(m != 0, z3.ULE(m, mk), sg(r, w) == sg(k, w))),
                        z3.Implies(z3.And(z3.Not(same), mx == mk), r == 0))))
        elif op in ('fmul', 'fdiv'):
            S.append(z3.Or(nr, sg(r, w) == sg(a[0], w) ^ sg(a[1], w)))
            if op == 'fdiv':
                S.append(z3.Implies(z3.And(z3.ULE(mg(a[0], w), mg(a[1], w)), mg(a[1], w) != 0, z3.ULT(mg(a[1], w), fe.INF[w])), z3.ULE(mg(r, w), fe.bits(w, 1.0))))
        elif op == 'fsqrt':
            S.append(z3.Implies(z3.And(z3.Not(na[0]), sg(a[0], w) == 0), z3.And(z3.Not(nr), sg(r, w) == 0)))
            S.append(z3.Implies(mg(a[0], w) == 0, r == a[0]))
        elif op == 'frint':
            S.append(z3.Implies(z3.Not(na[0]), z3.And(z3.Not(nr), sg(r, w) == sg(a[0], w))))
        elif op in ('fpext', 'fptrunc'):
            S.append(z3.Implies(z3.Not(na[0]), z3.And(z3.Not(nr), sg(r, w) == sg(a[0], ws[0]))))

def check(mode, conds, timeout_ms=10000, want_model=True):
    """satisfiability of the conjunction of width-1 terms; returns ('unsat'|'sat'|'unknown', env)"""
    t0 = time.time()
    e = Enc(mode)
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    for c in conds: s.add(e.tb(c))
    for c in e.side: s.add(c)
    r = s.check()
    dt = time.time() - t0
    STATS['queries'] += 1; STATS['solver_s'] += dt; STATS[mode] += 1
    if r == z3.unsat: return 'unsat', None
    if r == z3.unknown:
        STATS['unknown'] += 1
        return 'unknown', None
    env = {}
    if want_model:
        m = s.model()
        for n, v in e.vars.items():
            x = m.eval(v, model_completion=True)
            env[n] = x.as_long()
    return 'sat', env

def _int_check(assumes, preds, timeout_ms): pass

class NotOrd(Exception): pass
def check_ord(assumes, pred, timeout_ms=20000):
    """order encoding: non-NaN floats mapped monotonically to integers (both zeros to 0), comparisons become integer
    comparisons; exact for terms built from comparisons, selects, absolute value and negation.  None if not applicable."""
    roots = list(assumes) + [T.bnot(pred)]
    nonnan = set()
    for a in assumes:
        if a.op == 'xor' and T.is_c(a.args[0]) and a.args[1].op == 'fisnan': nonnan.add(a.args[1].args[0].id)
    t0 = time.time()
    s = z3.Solver(); s.set('timeout', int(timeout_ms))
    K = {}; Bm = {}; vs = {}
    def key(w, b):
        if fe.isnan(w, b): raise NotOrd
        m = b & T.mask(w - 1)
        return -m if b >> (w - 1) else m
    try:
        for t in T.postorder(roots):
            op = t.op; w = t.w; a = t.args
            if w == 1:
                if op == 'const': r = z3.BoolVal(bool(t.p))
                elif op == 'and': r = z3.And(Bm[a[0].id], Bm[a[1].id])
                elif op == 'or': r = z3.Or(Bm[a[0].id], Bm[a[1].id])
                elif op == 'xor': r = z3.Xor(Bm[a[0].id], Bm[a[1].id])
                elif op == 'ite': r = z3.If(Bm[a[0].id], Bm[a[1].id], Bm[a[2].id])
                elif op == 'flt': r = K[a[0].id] < K[a[1].id]
                elif op == 'fle': r = K[a[0].id] <= K[a[1].id]
                elif op == 'feq': r = K[a[0].id] == K[a[1].id]
                elif op == 'fisnan':
                    r = z3.BoolVal(False); K[a[0].id]
                else: raise NotOrd
                Bm[t.id] = r; continue
            if w not in (32, 64): raise NotOrd
            if op == 'const':
                if t.p in (T.sgnbit(w) - 1,): K[t.id] = None; continue
                r = z3.IntVal(key(w, t.p))
            elif op == 'var':
                if t.id not in nonnan: raise NotOrd
                r = z3.Int('k!%s' % t.p); vs[t.p] = (r, w); s.add(r >= -fe.INF[w], r <= fe.INF[w])
            elif op == 'and' and T.is_c(a[0]) and a[0].p == T.sgnbit(w) - 1: x = K[a[1].id]; r = z3.If(x < 0, -x, x)
            elif op == 'xor' and T.is_c(a[0]) and a[0].p == T.sgnbit(w): r = -K[a[1].id]
            elif op == 'ite':
                c = a[0]; x, y = K[a[1].id], K[a[2].id]
                if c.op in ('flt', 'fle') and {c.args[0].id, c.args[1].id} == {a[1].id, a[2].id}:
                    r = z3.Int('m!%d' % t.id)
                    if c.args[0] is a[1]: s.add(r <= x, r <= y, z3.Or(r == x, r == y))
                    else: s.add(r >= x, r >= y, z3.Or(r == x, r == y))
                else: r = z3.If(Bm[c.id], x, y)
            else: raise NotOrd
            K[t.id] = r
        for r in roots: s.add(Bm[r.id])
    except (NotOrd, KeyError, z3.Z3Exception): return None
    q = s.check()
    STATS['queries'] += 1; STATS['solver_s'] += time.time() - t0; STATS['ord'] = STATS.get('ord', 0) + 1
    if q == z3.unsat: return 'unsat', None
    if q == z3.unknown:
        STATS['unknown'] += 1; return 'unknown', None
    m = s.model(); env = {}
    for n, (v, w) in vs.items():
        k = m.eval(v, model_completion=True).as_long()
        env[n] = k if k >= 0 else (-k) | T.sgnbit(w)
    return 'sat', env

# ------------------------------------------------------------------------------------------ vectorised concrete evaluation
UT = {32: np.uint32, 64: np.uint64}
FT = {32: np.float32, 64: np.float64}

def np_eval(roots, env, npts):
    """env: {name: uint array}; returns list of arrays (uint of width); raises KeyError/TypeError on odd widths"""
    memo = {}
    def ut(w): return np.uint32 if w <= 32 else np.uint64
    def mk(w, arr):
        a = np.asarray(arr)
        if w in (32, 64): return a.astype(ut(w), copy=False)
        return (a.astype(np.uint64) & np.uint64(T.mask(w))).astype(ut(w))
    def F(w, a): return a.view(FT[w])
    def ret(w, f):
        f = np.asarray(f, dtype=FT[w])
        b = f.view(UT[w]).copy()
        b[np.isnan(f)] = fe.QNAN[w]
        return b
    def sgn(w, a):
        a = a.astype(np.uint64)
        s = a.astype(np.int64)
        if w < 64: s = np.where(a >> np.uint64(w - 1) & np.uint64(1), s - (1 << w), s)
        return s
    with np.errstate(all='ignore'):
        for t in T.postorder(roots):
            op = t.op; w = t.w
            if w > 64: raise TypeError('wide term')
            a = [memo[x.id] for x in t.args]
            if op == 'const': v = np.full(npts, t.p, dtype=ut(w))
            elif op == 'var': v = mk(w, env[t.p])
            elif op == 'undef': v = np.zeros(npts, dtype=ut(w))
            elif op == 'ite': v = np.where(a[0] != 0, a[1], a[2])
            elif op == 'and': v = a[0] & a[1]
            elif op == 'or': v = a[0] | a[1]
            elif op == 'xor': v = a[0] ^ a[1]
            elif op == 'add': v = mk(w, a[0].astype(np.uint64) + a[1].astype(np.uint64))
            elif op == 'sub': v = mk(w, a[0].astype(np.uint64) - a[1].astype(np.uint64))
            elif op == 'mul': v = mk(w, a[0].astype(np.uint64) * a[1].astype(np.uint64))
            elif op == 'shl': v = mk(w, np.where(a[1] < w, a[0].astype(np.uint64) << np.minimum(a[1].astype(np.uint64), np.uint64(63)), np.uint64(0)))
            elif op == 'lshr': v = mk(w, np.where(a[1] < w, a[0].astype(np.uint64) >> np.minimum(a[1].astype(np.uint64), np.uint64(63)), np.uint64(0)))
            elif op == 'ashr': v = mk(w, (sgn(w, a[0]) >> np.minimum(a[1].astype(np.int64), w - 1)).astype(np.uint64))
            elif op == 'eq': v = (a[0] == a[1]).astype(np.uint32)
            elif op == 'ult': v = (a[0] < a[1]).astype(np.uint32)
            elif op == 'slt': v = (sgn(t.args[0].w, a[0]) < sgn(t.args[0].w, a[1])).astype(np.uint32)
            elif op == 'extract': v = mk(w, (a[0].astype(np.uint64) >> np.uint64(t.p[1])) & np.uint64(T.mask(w)))
            elif op == 'concat': v = mk(w, (a[0].astype(np.uint64) << np.uint64(t.args[1].w)) | a[1].astype(np.uint64))
            elif op == 'zext': v = mk(w, a[0])
            elif op == 'sext': v = mk(w, sgn(t.args[0].w, a[0]).astype(np.uint64))
            elif op in ('feq', 'flt', 'fle'):
                x, y = F(t.args[0].w, a[0]), F(t.args[0].w, a[1])
                v = {'feq': np.equal, 'flt': np.less, 'fle': np.less_equal}[op](x, y).astype(np.uint32)
            elif op == 'fisnan': v = np.isnan(F(t.args[0].w, a[0])).astype(np.uint32)
            elif op == 'fadd': v = ret(w, F(w, a[0]) + F(w, a[1]))
            elif op == 'fmul': v = ret(w, F(w, a[0]) * F(w, a[1]))
            elif op == 'fdiv': v = ret(w, F(w, a[0]) / F(w, a[1]))
            elif op == 'fsqrt': v = ret(w, np.sqrt(F(w, a[0])))
            elif op == 'ffma':
                x, y, z = [F(w, q).astype(np.longdouble) for q in a]
                v = ret(w, (x * y + z).astype(FT[w]))
            elif op == 'frint':
                x = F(w, a[0])
                f = {'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc, 'rne': np.rint}.get(t.p)
                if f is None:
                    r = np.trunc(x); r = r + np.where(np.abs(x - r) >= 0.5, np.copysign(1, x), 0).astype(x.dtype)
                else: r = f(x)
                v = ret(w, np.copysign(r, x))
            elif op == 'cvtt':
                x = F(t.args[0].w, a[0]).astype(np.longdouble)
                tr = np.trunc(x); ok = (tr >= -(2.0 ** (w - 1))) & (tr < 2.0 ** (w - 1))
                r = np.where(ok, tr, 0).astype(np.int64).astype(np.uint64)
                v = mk(w, np.where(ok, r, np.uint64(1 << (w - 1))))
            elif op == 'sitofp': v = ret(w, sgn(t.args[0].w, a[0]).astype(FT[w]))
            elif op == 'uitofp': v = ret(w, a[0].astype(np.uint64).astype(FT[w]))
            elif op in ('fpext', 'fptrunc'): v = ret(w, F(t.args[0].w, a[0]).astype(FT[w]))
            elif op == 'libm': v = np.array([fe.libm(t.p, w, [int(q[i]) for q in a]) for i in range(npts)], dtype=ut(w))
            elif op == 'rcp': v = np.array([fe.rcp(w, int(q)) for q in a[0]], dtype=ut(w))
            elif op in ('udiv', 'urem'):
                d = np.where(a[1] == 0, 1, a[1]).astype(np.uint64); n = a[0].astype(np.uint64)
                v = mk(w, n // d if op == 'udiv' else n % d)
            else: raise TypeError(op)
            memo[t.id] = v
    return [memo[r.id] for r in roots]

SPECIAL = {}
def special(w):
    s = SPECIAL.get(w)
    if s is None:
        vals = [0.0, 1.0, 0.5, 0.25, 1.5, 2.5, 2.0, 3.0, 4.0, 0.75, 0.49999997, 0.99999994, 1.0000001, 10.0, 100.0, 440.0, 1e-5, 1e-10, 1e10, 1e-20, 1e20, 22.0, 22.1, 69.0,
                88.0, 88.5, 88.7228317, 88.72284, 87.0, 3.1415927, 1.5707964, 0.7853982, 6.2831855, 0.625, 2.4142137, 0.41421357,
                2.0**15, 2.0**22 - 0.5, 2.0**22 + 0.5, 2.0**23 - 0.5, 2.0**23, 2.0**23 + 1, 2.0**24, 2.0**24 - 1, 2.0**31 - 1, 2.0**31, 2.0**31 + 256, 2.0**32, 2.0**51 + 0.5,
                2.0**52 - 0.5, 2.0**52, 2.0**52 + 1, 2.0**53, 2.0**62, 2.0**63, 2.0**64, 2.0**100]
        s = set()
        for v in vals:
            for sg in (1, -1): s.add(fe.bits(w, sg * v))
        I = fe.INF[w]; sb = 1 << (w - 1); mn = 1 << fe.MANT[w]
        for b in (0, 1, 2, mn - 1, mn, mn + 1, I - 1, I, I + (mn >> 1), I + 1): s.add(b); s.add(b | sb)
        # a few bit patterns per exponent
        SPECIAL[w] = s = sorted(s)
    return s

def sample_env(names, npts, rng, seeds=()):
    """names: {name: width}; arrays mixing special values, random bit patterns, moderate numbers"""
    env = {}
    same = rng.random(npts) < 0.15
    first = {}
    for n, w in names.items():
        if w not in (32, 64):
            env[n] = rng.integers(0, 1 << min(w, 62), npts, dtype=np.uint64).astype(np.uint32 if w <= 32 else np.uint64); continue
        sp = np.array(special(w), dtype=UT[w])
        k = rng.random(npts)
        a = rng.integers(0, 1 << w, npts, dtype=UT[w], endpoint=False) if w == 32 else rng.integers(0, 1 << 63, npts, dtype=np.uint64) * np.uint64(2) + rng.integers(0, 2, npts, dtype=np.uint64)
        with np.errstate(all='ignore'):
            mod = (rng.standard_normal(npts) * np.power(10.0, rng.uniform(-3, 3, npts))).astype(FT[w]).view(UT[w])
            u = rng.uniform(-1, 1, npts).astype(FT[w]).view(UT[w])
            q = (np.round(rng.uniform(-40, 40, npts)) / 4).astype(FT[w]).view(UT[w])
        v = np.where(k < 0.35, sp[rng.integers(0, len(sp), npts)], np.where(k < 0.5, a, np.where(k < 0.75, mod, np.where(k < 0.9, u, q))))
        if w in first: v = np.where(same, first[w], v)
        else: first[w] = v
        env[n] = v.astype(UT[w])
    for j, sd in enumerate(seeds):
        for n in names:
            if n in sd and j < npts: env[n][j] = sd[n]
    return env

def concretise(assumes, pred, seeds=(), npts=40000, seed=1, extra=None):
    """look for concrete values satisfying the assumptions and falsifying pred; returns up to 8 envs"""
    roots = list(assumes) + [pred]
    ops = {t.op for t in T.postorder(roots)}
    names = {t.p: t.w for t in T.leaves(roots, ('var',))}
    if any(n > 64 for n in names.values()): return []
    if 'libm' in ops or 'rcp' in ops: npts = min(npts, 3000)
    rng = np.random.default_rng(seed)
    env = sample_env(names, npts, rng, seeds)
    if extra: extra(env, names, npts, rng)
    try: r = np_eval(roots, env, npts)
    except TypeError:
        out = []
        for j in range(min(npts, 3000)):
            e = {n: int(env[n][j]) for n in names}
            vs = T.evaluate(roots, e)
            if all(vs[:-1]) and not vs[-1]:
                out.append(e)
                if len(out) >= 8: break
        return out
    bad = r[-1] == 0
    for x in r[:-1]: bad &= x != 0
    idx = np.nonzero(bad)[0][:8]
    return [{n: int(env[n][j]) for n in names} for j in idx]

def canon_key(roots):
    """key of a tuple of terms up to consistent renaming of variables"""
    ren = {}; memo = {}; out = []
    for t in T.postorder(roots):
        if t.op in ('var', 'undef'):
            if t.id not in ren: ren[t.id] = len(ren)
            k = (t.op, t.w, ren[t.id])
        else: k = (t.op, t.w, t.p) + tuple(memo[a.id] for a in t.args)
        memo[t.id] = len(out); out.append(k)
    return (tuple(out), tuple(memo[r.id] for r in roots))

class Verdict(object):
    def __init__(self, status, how='', env=None, label=None, note='', envs=None):
        self.status = status; self.how = how; self.env = env; self.label = label; self.note = note; self.envs = envs or ([env] if env else [])
    def __repr__(self): return '%s(%s,%s)' % (self.status, self.how, self.label)

CACHE = {}
def decide(items, fp_ms=20000, uf_ms=8000, deadline=None, npts=40000, fp=True):
    """items: list of (label, [assume terms], pred term).  Returns the non-proved Verdicts ([] = all proved).
    Obligations equal up to renaming of their variables are decided once (per worker); each distinct one goes to the solver."""
    STATS['terms'] += len(items)
    out = []; seen = set()
    for label, a, p in items:
        n = T.conj(list(a) + [T.bnot(p)])
        if n.id in seen: continue
        seen.add(n.id)
        key = canon_key([n])
        if key in seen: continue
        seen.add(key)
        v = CACHE.get(key)
        if v is not None and v.status == 'undecided' and v.how == 'uf' and fp: v = None
        if v is None:
            v = decide1(label, a, p, fp_ms, uf_ms, npts, fp)
            CACHE[key] = v
        elif v.status != 'proved':
            v = Verdict(v.status, v.how, None, label, v.note) if v.status == 'undecided' else v2cex(label, a, p, v)
        if v.status != 'proved': out.append(v)
        if v.status == 'cex': break
    return out
def v2cex(label, a, p, v):
    envs = concretise(a, p)
    return Verdict('cex', 'cached', envs[0] if envs else v.env, label, '', envs or v.envs)

def decide1(label, a, p, fp_ms, uf_ms, npts, fp):
    o = check_ord(a, p)
    if o is not None:
        if o[0] == 'unsat': return Verdict('proved', 'ord')
        if o[0] == 'sat': return Verdict('cex', 'ord', o[1], label, '', [o[1]] + concretise(a, p, [o[1]], npts))
    r, env = check('uf', list(a) + [T.bnot(p)], uf_ms)
    if r == 'unsat': return Verdict('proved', 'uf')
    seeds = [env] if env else []
    envs = concretise(a, p, seeds, npts)
    if envs: return Verdict('cex', 'uf-model concretised', envs[0], label, '', envs)
    if not fp: return Verdict('undecided', 'uf', None, label, 'uninterpreted counterexample not realisable on candidates')
    r, env = check('fp', list(a) + [T.bnot(p)], fp_ms)
    if r == 'unsat': return Verdict('proved', 'fp')
    if r == 'sat':
        names = {t.p for t in T.leaves(list(a) + [p], ('var',))}
        for n in names: env.setdefault(n, 0)
        return Verdict('cex', 'fp', env, label, '', [env])
    return Verdict('undecided', 'fp', None, label, 'solver gave up after %d ms' % fp_ms)
