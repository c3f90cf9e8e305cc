"""Accuracy of one-variable functions: the floating-point term of an output sample is turned, on an interval of inputs, into a
polynomial of the input plus a bound on everything else (rounding of every operation, truncated powers); data-dependent
choices (comparisons, conversions to int, exponent fields) are resolved on the interval, split at the float where they change,
or explored both ways.  Whether some input of the interval breaks the error bound is then a non-linear real-arithmetic query."""
import math, time, random
from fractions import Fraction as Q
import z3
import terms as T, fpeval as fe, solve

D = 9
P = {32: 24, 64: 53}; EMIN = {32: -126, 64: -1022}; QMIN = {32: -149, 64: -1074}
BIG = {32: 3.4028234e38, 64: 1.7e308}
SL = 2.0 ** -49
class Bad(Exception): pass
class Split(Exception):
    def __init__(self, node, d=None): self.node = node; self.d = d
class Fork(Exception):
    def __init__(self, key, opts): self.key = key; self.opts = opts

def half_ulp(w, m):
    if m == 0: return 0.0
    e = math.frexp(m)[1] - 1
    qm = QMIN[w] - 1
    if e < qm: return m
    return max(math.ldexp(1.0, max(e, EMIN[w]) - P[w]), 5e-324) * (1 + 2.0 ** -40) if w == 32 else math.ldexp(1.0, max(e, EMIN[w]) - P[w]) or 5e-324

class F(object):
    """float value: sum c[k] d^k + [-r, r], d in [-1, 1]"""
    __slots__ = ('c', 'r', 'lo', 'hi', 'q', 'mono', 's')
    def __init__(self, c, r, q, mono, ends=None):
        self.c = c; self.r = r; self.q = q; self.mono = mono
        s = 0.0
        for x in c[1:]: s += abs(x)
        self.s = abs(c[0]) + s
        if len(c) > 1:
            # linear part separately from the rest
            pass
        slack = SL * self.s
        self.lo = c[0] - s - r - slack; self.hi = c[0] + s + r + slack
        if mono and ends:
            a, b = ends
            if a > b: a, b = b, a
            self.lo = max(self.lo, a); self.hi = min(self.hi, b)
    def mag(self): return max(abs(self.lo), abs(self.hi))
    def low(self):
        if self.lo > 0: return self.lo
        if self.hi < 0: return -self.hi
        return 0.0
def ilog(m): return math.frexp(m)[1] - 1
def tz(w, bits):
    q = fe.to_frac(w, bits)
    if q == 0: return 4096
    n = abs(q.numerator); k = (n & -n).bit_length() - 1
    return k - (q.denominator.bit_length() - 1)

def p_add(a, b):
    if len(a) < len(b): a, b = b, a
    r = list(a)
    for i, x in enumerate(b): r[i] += x
    return r
def p_mul(a, b):
    """product cut at degree D; returns (coefficients, bound on what was cut)"""
    n = len(a) + len(b) - 1
    r = [0.0] * min(n, D + 1); cut = 0.0
    for i, x in enumerate(a):
        if x == 0.0: continue
        for j, y in enumerate(b):
            if i + j <= D: r[i + j] += x * y
            else: cut += abs(x * y)
    return r, cut
def p_sum(a): return sum(abs(x) for x in a)
def series_inv(b):
    q = [1.0 / b[0]]
    for k in range(1, D + 1):
        s = 0.0
        for i in range(1, min(k, len(b) - 1) + 1): s += b[i] * q[k - i]
        q.append(-s / b[0])
    return q
def series_sqrt(b):
    s = [math.sqrt(b[0])]
    for k in range(1, D + 1):
        v = b[k] if k < len(b) else 0.0
        for i in range(1, k): v -= s[i] * s[k - i]
        s.append(v / (2 * s[0]))
    return s

class Abs(object):
    """abstract evaluation of a term over one interval of x"""
    def __init__(self, root, xname, w, b0, b1, assign, nodes, index):
        self.root = root; self.x = xname; self.w = w; self.b0 = b0; self.b1 = b1; self.assign = assign
        env = {xname: b0}; self.e0 = T.evaluate(nodes, env, libm_eval=libm_eval); env = {xname: b1}; self.e1 = T.evaluate(nodes, env, libm_eval=libm_eval)
        self.index = index; self.memo = {}
    def ends(self, t):
        i = self.index[t.id]; return self.e0[i], self.e1[i]
    def fends(self, t):
        a, b = self.ends(t)
        return (fe.pyval(t.w, a), fe.pyval(t.w, b))
    def get(self, t):
        m = self.memo.get(t.id)
        if m is not None: return m
        k = self.assign.get(t.id)
        if k is not None: v = k
        else: v = self.ev(t)
        if isinstance(v, F) and v.mono:
            a, b = self.ends(t)
            if a == b: v = T.const(t.w, a)
            elif v.r > 2.0 ** -12 * v.mag() and v.mag() > 1e-30: raise Split(t if abs(a - b) < 64 else None)
        self.memo[t.id] = v
        return v
    def f(self, t):
        v = self.get(t); return self.tof(v, t.w)
    def tof(self, v, w):
        if isinstance(v, F): return v
        if isinstance(v, T.T):
            if not fe.isfinite(w, v.p): raise Bad('non-finite constant')
            return F([fe.pyval(w, v.p)], 0.0, tz(w, v.p), 2)
        raise Bad('bits used as number')
    def mk(self, t, c, r, q, mono, exact):
        """round the real value sum c d^k +- r to the format of t"""
        w = t.w
        v = F(c, r, q, 0)
        m = v.mag()
        if m >= BIG[w]: raise Bad('overflow')
        if not (exact or q >= QMIN[w] and m <= math.ldexp(1.0, min(q + P[w], 1020))): r = r + half_ulp(w, m); q2 = QMIN[w]
        else: q2 = q
        v = F(c, r, q, mono, self.fends(t) if mono in (1, -1) else None)
        lo = v.low()
        v.q = max(min(q, 4096), QMIN[w], (ilog(lo) - P[w] + 1) if lo > 0 else QMIN[w])
        return v
    def mono2(self, a, b):
        if a.mono == 2: return b.mono
        if b.mono == 2: return a.mono
        return a.mono if a.mono == b.mono else 0
    def const_(self, op, t, a): return T.rebuild_op(t, a)
    def ev(self, t):
        op = t.op; w = t.w; A = t.args
        if op == 'const': return t
        if op == 'var':
            if t.p != self.x: raise Bad('second variable')
            a, b = fe.pyval(w, self.b0), fe.pyval(w, self.b1)
            lo, hi = min(a, b), max(a, b)
            c = (lo + hi) / 2; h = (hi - lo) / 2
            if w == 64: h = h * (1 + 2.0 ** -50) + abs(c) * 2.0 ** -51
            m = min(abs(lo), abs(hi))
            q = (ilog(m) - P[w] + 1) if m > 0 else QMIN[w]
            return F([c, h], 0.0, max(q, QMIN[w]), 1 if b >= a else -1, (a, b))
        if op == 'ite':
            c = self.get(A[0])
            if not isinstance(c, T.T): raise Bad('condition')
            return self.get(A[1] if c.p else A[2])
        if op in ('fadd', 'fmul', 'fdiv', 'ffma', 'fsqrt'): return self.arith(t)
        if op in ('flt', 'fle', 'feq', 'fisnan'):
            a = [self.get(z) for z in A]
            if all(isinstance(z, T.T) for z in a): return T.rebuild_op(t, a)
            if op == 'fisnan': return T.false()          # overflow and non-finite operands end the analysis earlier
            x, y = (self.tof(v, z.w) for v, z in zip(a, A))
            if op == 'flt': r = True if x.hi < y.lo else False if x.lo >= y.hi else None
            elif op == 'fle': r = True if x.hi <= y.lo else False if x.lo > y.hi else None
            else: r = False if x.hi < y.lo or y.hi < x.lo else None
            if r is not None: return T.true() if r else T.false()
            e0, e1 = self.ends(t)
            if e0 != e1: raise Split(t)
            dirs = {x.mono if x.mono != 2 else 0, -y.mono if y.mono != 2 else 0} if op != 'feq' else {0, 1, -1}
            if x.mono and y.mono and not (1 in dirs and -1 in dirs): return T.const(1, e0)
            raise Fork(t.id, [T.true(), T.false()])
        if op in ('cvtt', 'cvtr', 'frint'):
            a = self.get(A[0])
            if isinstance(a, T.T): return T.rebuild_op(t, [a])
            if not isinstance(a, F): raise Bad('bits')
            e0, e1 = self.ends(t)
            if a.mono in (1, -1):
                if e0 != e1: raise Split(t)
                return T.const(w, e0)
            sw = A[0].w
            opts = {}
            for z in (a.lo, a.hi):
                lim = fe.bits(sw, z)
                for k in (-1, 0, 1):
                    zz = fe.bits(sw, z + k * 0.5)
                    v = T.rebuild_op(t, [T.const(sw, zz)]); opts[v.p] = v
            if len(opts) > 4 or a.hi - a.lo > 2: raise Split(None)
            if e0 != e1: raise Split(t)
            raise Fork(t.id, list(opts.values()))
        if op in ('and', 'or', 'xor') and w in (32, 64): return self.bits(t)
        if op in ('fpext', 'fptrunc'):
            a = self.get(A[0])
            if isinstance(a, T.T): return T.rebuild_op(t, [a])
            a = self.f(A[0])
            return self.mk(t, a.c, a.r, a.q, a.mono, op == 'fpext')
        if op == 'libm': return self.libm(t)
        if op == 'rcp':
            a = self.f(A[0])
            if not a.low(): raise Split(None)
            v = self.recip(a); c, r = v
            return self.mk(t, c, r + (p_sum(c) + r) * 1.6 / 4096, QMIN[w], 0, False)
        a = []
        for z in A:
            v = self.get(z)
            if isinstance(v, F) and v.mono in (1, -1):
                e0, e1 = self.ends(t)
                raise Split(t if e0 != e1 else z)
            if not isinstance(v, T.T): raise Bad('%s of a symbolic number' % op)
            a.append(v)
        return T.rebuild_op(t, a)
    def arith(self, t):
        op = t.op; w = t.w; A = t.args
        a = [self.get(z) for z in A]
        if all(isinstance(z, T.T) for z in a):
            v = T.rebuild_op(t, a)
            if not fe.isfinite(w, v.p): raise Bad('non-finite')
            return v
        a = [self.tof(v, w) for v in a]
        if op == 'fadd':
            x, y = a
            if A[0] is A[1]:
                return self.mk(t, [2 * k for k in x.c], 2 * x.r, x.q + 1, x.mono, True)
            c = p_add(x.c, y.c)
            return self.mk(t, c, x.r + y.r + SL * (x.s + y.s), min(x.q, y.q), self.mono2(x, y), False)
        if op == 'fmul': return self.mul(t, a[0], a[1])
        if op == 'ffma':
            x, y, z = a
            c, cut = p_mul(x.c, y.c)
            r = cut + (x.s * y.r + x.r * y.s + x.r * y.r) * (1 + SL) + SL * (x.s * y.s + z.s) + z.r
            return self.mk(t, p_add(c, z.c), r, min(x.q + y.q, z.q), 0, False)
        if op == 'fdiv':
            x, y = a
            if not y.low(): raise Split(None)
            c, r = self.recip(y)
            p, cut = p_mul(x.c, c)
            rr = cut + (x.s * r + x.r * p_sum(c) + x.r * r) * (1 + SL) + SL * x.s * p_sum(c)
            mono = 0
            if x.mono == 2 and y.mono in (1, -1): mono = y.mono if (x.c[0] < 0) else -y.mono
            elif y.mono == 2 and x.mono in (1, -1): mono = x.mono if y.c[0] > 0 else -x.mono
            return self.mk(t, p, rr, QMIN[w] if x.mono != 2 else QMIN[w], mono, False)
        if op == 'fsqrt':
            x, = a
            if x.lo <= 0: raise Split(None)
            b = x.c
            if b[0] <= 0: raise Split(None)
            s = series_sqrt(b)
            sq, cut = p_mul(s, s)
            e = p_sum(p_add(b, [-k for k in sq])) + cut + x.r + SL * (x.s + p_sum(s) ** 2)
            smin = s[0] - p_sum(s[1:])
            if smin <= 0: raise Split(None)
            r = e / (smin + math.sqrt(x.lo)) * (1 + SL) + SL * p_sum(s)
            return self.mk(t, s, r, QMIN[w], x.mono, False)
    def recip(self, y):
        """polynomial and error bound of 1/y"""
        if y.c[0] == 0: raise Split(None)
        q = series_inv(y.c); qs = p_sum(q)
        e, cut = p_mul(y.c, q); e[0] -= 1.0
        eps = p_sum(e) + cut + y.r * qs + SL * (1 + y.s * qs)
        if eps > 0.5: raise Split(None)
        return q, (qs * eps / (1 - eps)) * (1 + SL) + SL * qs
    def mul(self, t, x, y):
        w = t.w
        for a, b in ((x, y), (y, x)):
            if a.mono == 2:
                k = a.c[0]
                if k == 0: return T.const(w, 0)
                mono = b.mono if k > 0 else -b.mono
                fm, ex = math.frexp(abs(k))
                pow2 = fm == 0.5
                c = [k * z for z in b.c]
                return self.mk(t, c, b.r * abs(k) * (1 + SL) + (0 if pow2 else SL * b.s * abs(k)), a.q + b.q, mono, pow2 and b.q + a.q >= QMIN[w])
        c, cut = p_mul(x.c, y.c)
        r = cut + (x.s * y.r + x.r * y.s + x.r * y.r) * (1 + SL) + SL * x.s * y.s
        mono = 0
        if x is y and x.mono in (1, -1) and x.low() > 0: mono = x.mono if x.lo > 0 else -x.mono
        v = self.mk(t, c, r, x.q + y.q, mono, False)
        if x is y and v.lo < 0: v.lo = 0.0
        return v
    def expo(self, t, v):
        """exponent field of a number that stays within one binade (else split or explore both)"""
        w = t.w; mb = P[w] - 1
        key = ('exp', t.id)
        if key in self.assign: return self.assign[key]
        if isinstance(v, T.T): return (v.p >> mb) & (T.mask(w) >> 1 >> mb)
        if v.lo <= 0 <= v.hi: raise Split(None)
        a, b = fe.bits(w, v.lo), fe.bits(w, v.hi)
        ea, eb = sorted(((z >> mb) & (T.mask(w) >> 1 >> mb)) for z in (a, b))
        # directed conversion of the bounds to the format may fall short by one unit
        ea2 = ((max(min(a & (T.sgnbit(w) - 1), b & (T.sgnbit(w) - 1)) - 1, 0)) >> mb); eb2 = ((max(a & (T.sgnbit(w) - 1), b & (T.sgnbit(w) - 1)) + 1) >> mb)
        if v.mono not in (1, -1): ea, eb = ea2, eb2
        if ea == eb: return ea
        if v.mono in (1, -1):
            raise Split(('exp', t))
        if eb - ea > 1: raise Split(None)
        raise Fork(key, [ea, eb])
    def bits(self, t):
        op = t.op; w = t.w; A = t.args
        a = [self.get(z) for z in A]
        if all(isinstance(z, T.T) for z in a): return T.rebuild_op(t, a)
        (x, tx), (y, ty) = sorted(zip(a, A), key=lambda z: not isinstance(z[0], T.T))
        if not isinstance(x, T.T): 
            raise Bad('bit operation on two numbers')
        k = x.p; sb = T.sgnbit(w); ones = T.mask(w); mb = P[w] - 1; em = (sb - 1) >> mb << mb
        if isinstance(y, M):
            if op == 'or' and k & ~em == 0:
                e2 = k >> mb
                if not 0 < e2 < (em >> mb): raise Bad('exponent out of range')
                return scale(y.f, e2 - y.e, w)
            if op == 'or' and k & (em | sb) == k and k & em:
                e2 = (k & em) >> mb
                if y.f.lo < 0 or not 0 < e2 < (em >> mb): raise Bad('exponent')
                return neg(scale(y.f, e2 - y.e, w))
            raise Bad('bits')
        if op == 'xor':
            if k == sb: return neg(y)
            if k == 0: return y
        if op == 'or':
            if k == 0: return y
            if k == sb:
                if y.lo < 0: raise Bad('sign of the magnitude not known')
                return neg(y)
        if op == 'and':
            if k == ones: return y
            if k == 0: return T.const(w, 0)
            if k == sb - 1:
                if y.lo >= 0: return y
                if y.hi <= 0: return neg(y)
                if y.mono in (1, -1): raise Split(('sign', ty))
                raise Fork(('sign', t.id), None) if False else Bad('sign of a number not known')
            if k == sb:
                if y.lo > 0 or y.lo >= 0: return T.const(w, 0)
                if y.hi < 0: return T.const(w, sb)
                if y.mono in (1, -1): raise Split(('sign', ty))
                raise Bad('sign of a number not known')
            if k == em: return T.const(w, self.expo(ty, y) << mb)
            if k == ones & ~em or (k == (sb - 1) & ~em and y.lo >= 0):
                e = self.expo(ty, y)
                if e == 0: raise Bad('denormal')
                return M(y, e)
            if k == (sb - 1) & ~em and y.hi <= 0:
                e = self.expo(ty, y)
                if e == 0: raise Bad('denormal')
                return M(neg(y), e)
        raise Bad('bit operation %s %#x' % (op, k))
    def libm(self, t):
        w = t.w; name = t.p; A = t.args
        a = [self.get(z) for z in A]
        if all(isinstance(z, T.T) for z in a):
            e0, e1 = self.ends(t)
            return T.const(w, e0)
        if name.endswith('f') and w == 32: name = name[:-1]
        lnb = None
        if name == 'pow':
            if not isinstance(a[0], T.T): raise Bad('pow')
            base = fe.pyval(w, a[0].p)
            if base <= 0: raise Bad('pow')
            lnb = math.log(base); x = a[1]
        elif name in ('exp', 'exp2', 'exp10'): lnb = {'exp': 1.0, 'exp2': math.log(2.0), 'exp10': math.log(10.0)}[name]; x = a[0]
        elif name in ('log', 'log2', 'log10'):
            x = a[0]
            if x.lo <= 0: raise Split(None)
            sc = {'log': 1.0, 'log2': 1 / math.log(2.0), 'log10': 1 / math.log(10.0)}[name]
            c0 = x.c[0]
            if c0 <= 0: raise Split(None)
            u = [z / c0 for z in x.c]; u[0] = 0.0; us = p_sum(u); ur = x.r / c0
            if us + ur >= 0.5: raise Split(None)
            res = [0.0]; pw = [1.0]; rr = 0.0
            for k in range(1, D + 1):
                pw, cut = p_mul(pw, u); rr += cut / k
                res = p_add(res, [z * ((-1) ** (k + 1)) / k for z in pw])
            rr += us ** (D + 1) / (D + 1) / (1 - us) + ur / (1 - us - ur) + SL * (p_sum(res) + 1)
            res[0] += math.log(c0)
            res = [z * sc for z in res]; rr = rr * sc + SL * p_sum(res)
            rr += 3 * half_ulp(w, p_sum(res) + rr)
            return F(res, rr, QMIN[w], 0)
        else: raise Bad('libm ' + name)
        if isinstance(x, T.T): raise Bad('pow')
        c0 = x.c[0]; u = [z * lnb for z in x.c]; u[0] = 0.0; us = p_sum(u); ur = x.r * abs(lnb) + SL * abs(c0 * lnb)
        if us + ur > 1.0: raise Split(None)
        res = [1.0]; pw = [1.0]; rr = 0.0; fct = 1.0
        for k in range(1, D + 1):
            pw, cut = p_mul(pw, u); fct *= k; rr += cut / fct
            res = p_add(res, [z / fct for z in pw])
        rr += us ** (D + 1) / fct * 1.2 + math.expm1(ur) * math.exp(us) + SL * p_sum(res) * 2
        g = math.exp(c0 * lnb)
        res = [z * g for z in res]; rr = rr * g + 4 * SL * p_sum(res) * (1 + abs(c0 * lnb))
        rr += 3 * half_ulp(w, p_sum(res) + rr)
        return F(res, rr, QMIN[w], 0)

class M(object):
    """a number with its exponent field cleared"""
    __slots__ = ('f', 'e')
    def __init__(self, f, e): self.f = f; self.e = e
def neg(x):
    if isinstance(x, T.T): return T.xor(T.const(x.w, T.sgnbit(x.w)), x)
    v = F([-z for z in x.c], x.r, x.q, {0: 0, 1: -1, -1: 1, 2: 2}[x.mono])
    v.lo = max(v.lo, -x.hi); v.hi = min(v.hi, -x.lo)
    return v
def scale(x, k, w):
    if isinstance(x, T.T): raise Bad('const')
    v = F([math.ldexp(z, k) for z in x.c], math.ldexp(x.r, k), x.q + k, x.mono)
    v.lo = max(v.lo, math.ldexp(x.lo, k)); v.hi = min(v.hi, math.ldexp(x.hi, k))
    return v

import mpmath
def libm_eval(name, w, args):
    n = name[:-1] if w == 32 and name.endswith('f') else name
    x = [fe.pyval(w, a) for a in args]
    try:
        r = {'pow': lambda a, b: a ** b, 'exp2': lambda a: 2.0 ** a}.get(n) or getattr(math, n)
        return fe.bits(w, float(r(*x)))
    except (ValueError, OverflowError, ZeroDivisionError): return fe.QNAN[w]

# ------------------------------------------------------------------------------------------------ the exact functions
mp = mpmath.MPContext()
mp.prec = 120
def tay(coef, rem, c, h, scale=1.0, off=0.0):
    """coefficients coef(k) (of (x-c)^k) -> polynomial in d"""
    out = []; hk = mp.mpf(1)
    for k in range(D + 1): out.append(float(coef[k] * hk)); hk *= h
    return out, float(rem) * 1.0000001 + SL * p_sum(out)
def spec_sin(c, h, cosine=False):
    s, k = mp.sin(c), mp.cos(c)
    cyc = [s, k, -s, -k] if not cosine else [k, -s, -k, s]
    return tay([cyc[i % 4] / mp.factorial(i) for i in range(D + 1)], mp.mpf(h) ** (D + 1) / mp.factorial(D + 1), c, h)
def ode(f0, rhs, n):
    t = [f0]
    for k in range(n): t.append(rhs(t, k) / (k + 1))
    return t
def sqk(t, k): return mp.fsum(t[i] * t[k - i] for i in range(k + 1))
def spec_tan(c, h):
    if c < 0: return _odd(spec_tan, c, h)
    if c + h >= 1.5707: return None
    r = lambda t, k: (1 if k == 0 else 0) + sqk(t, k)
    co = ode(mp.tan(c), r, D); up = ode(mp.tan(mp.mpf(c) + h), r, D + 1)
    return tay(co, up[D + 1] * mp.mpf(h) ** (D + 1), c, h)
def _odd(f, c, h):
    r = f(-c, h)
    if r is None: return None
    co, rem = r
    return [-z if k % 2 == 0 else z for k, z in enumerate(co)], rem
def spec_tanh(c, h):
    if c < 0: return _odd(spec_tanh, c, h)
    if h >= 0.9:
        if c - h < 20: return None
        lo = mp.tanh(mp.mpf(c) - h)
        return [float((1 + lo) / 2)], float((1 - lo) / 2) * 1.001 + 1e-16
    r = lambda t, k: (1 if k == 0 else 0) - sqk(t, k)
    co = ode(mp.tanh(c), r, D)
    return tay(co, 1.56 * mp.mpf(h) ** (D + 1) / (1 - mp.mpf(h)), c, h)
def spec_atan(c, h):
    dist = mp.sqrt(1 + mp.mpf(c) ** 2); rho = dist * mp.mpf('0.85')
    if h >= rho * 0.9: return None
    # (1+x^2) y' = 1
    a = [mp.atan(c)]; b0 = 1 + mp.mpf(c) ** 2; b1 = 2 * mp.mpf(c); g = []
    for k in range(D):
        v = mp.mpf(1 if k == 0 else 0)
        if k >= 1: v -= b1 * g[k - 1]
        if k >= 2: v -= g[k - 2]
        g.append(v / b0); a.append(g[k] / (k + 1))
    m = 1 / (dist - rho) ** 2; x = mp.mpf(h) / rho
    return tay(a, m * mp.mpf(h) * x ** D / (D + 1) / (1 - x), c, h)
def spec_asin(c, h):
    if abs(c) + h > 1: return None
    if h == 0: return [float(mp.asin(c))], 3e-16
    d = 1 - abs(mp.mpf(c)); rho = d * mp.mpf('0.85')
    if h >= rho * 0.9: return None
    # y' = g, (1-x^2) g' = x g
    c_ = mp.mpf(c); b0 = 1 - c_ * c_
    g = [1 / mp.sqrt(b0)]
    for k in range(D):
        # (1-x^2) with x = c+s: b0 - 2c s - s^2 ; x g = c g + s g
        v = c_ * g[k] + (g[k - 1] if k >= 1 else 0)
        v += 2 * c_ * k * g[k] + ((k - 1) * g[k - 1] if k >= 1 else 0)
        g.append(v / (b0 * (k + 1)))
    a = [mp.asin(c)] + [g[k] / (k + 1) for k in range(D)]
    m = 1 / mp.sqrt((1 - abs(c_) - rho) * (1 + abs(c_) - rho)); x = mp.mpf(h) / rho
    return tay(a, m * mp.mpf(h) * x ** D / (D + 1) / (1 - x), c, h)
def spec_acos(c, h):
    r = spec_asin(c, h)
    if r is None: return None
    co = [-z for z in r[0]]; co[0] = float(mp.acos(c))
    return co, r[1] + 4e-16
def affine_exp(A, B, C):
    """A * exp(B*x + C)"""
    def f(c, h):
        bh = mp.mpf(B) * h
        if abs(bh) > 1: return None
        g = A * mp.exp(B * mp.mpf(c) + C)
        out = [float(g * bh ** k / mp.factorial(k)) for k in range(D + 1)]
        rem = float(abs(g) * mp.exp(abs(bh)) * abs(bh) ** (D + 1) / mp.factorial(D + 1)) * 1.0001
        return out, rem + SL * p_sum(out)
    return f
def affine_log(A, B, C):
    """A + B*log(C*|x|)"""
    def f(c, h):
        c_ = mp.mpf(abs(c)); u = mp.mpf(h) / c_ if c_ else mp.mpf(2)
        if u >= 0.6: return None
        s = 1 if c > 0 else -1
        out = [float(A + B * mp.log(C * c_))] + [float(B * (-1) ** (k + 1) * (s * u) ** k / k) for k in range(1, D + 1)]
        rem = float(abs(B) * u ** (D + 1) / (D + 1) / (1 - u)) * 1.0001
        return out, rem + SL * (p_sum(out[1:]) + abs(out[0]))
    return f

# ------------------------------------------------------------------------------------------------ query
def zq(x):
    q = Q(x); return z3.RealVal('%d/%d' % (q.numerator, q.denominator))
def horner(c, d):
    r = zq(c[-1])
    for x in reversed(c[:-1]): r = r * d + zq(x)
    return r
def query(imp, sp, rel, ab, timeout_ms=4000):
    """is there d in [-1,1] with |imp - sp| > rel*|sp| + ab ?  ('proved' | ('sat', d) | 'unknown')"""
    t0 = time.time()
    ic, ir = imp; sc, sr = sp
    dc = p_add(ic, [-z for z in sc]); E_ = (ir + sr) * (1 + 2.0 ** -40) + 2.0 ** -52 * (p_sum(ic) + p_sum(sc))
    if rel and sc[0] - p_sum(sc[1:]) - sr < 0 < sc[0] + p_sum(sc[1:]) + sr and ab == 0: return ('sat', None)
    # high powers that cannot matter go into the bound: keeps the query small
    tol0 = rel * max(abs(sc[0]) - p_sum(sc[1:]), 0) + ab
    while len(dc) > 1 and abs(dc[-1]) < tol0 * 1e-4: E_ += abs(dc[-1]); dc.pop()
    s2 = list(sc)
    extra = 0.0
    while len(s2) > 1 and abs(s2[-1]) < 1e-3 * abs(s2[0]): extra += abs(s2[-1]); s2.pop()
    d = z3.Real('d'); s = z3.Solver(); s.set('timeout', timeout_ms)
    s.add(d >= -1, d <= 1)
    sg = 1 if sc[0] > 0 else -1
    tol = zq(rel) * (zq(sg) * horner(s2, d) - zq(sr + extra)) + zq(ab) if rel else zq(ab)
    P_ = horner(dc, d)
    s.add(z3.Or(P_ + zq(E_) > tol, -P_ + zq(E_) > tol))
    q = s.check()
    solve.STATS['queries'] += 1; solve.STATS['real'] += 1; solve.STATS['solver_s'] += time.time() - t0
    if q == z3.unsat: return 'proved'
    if q == z3.unknown: solve.STATS['unknown'] += 1; return 'unknown'
    v = s.model().eval(d, model_completion=True)
    try: return ('sat', float(v.as_fraction()))
    except Exception:
        try: return ('sat', float(v.approx(20).as_fraction()))
        except Exception: return ('sat', None)

class Prover(object):
    def __init__(self, root, xname, w, spec, rel, ab, test=None, budget=60.0, maxleaf=64):
        self.root = root; self.x = xname; self.w = w; self.spec = spec; self.rel = rel; self.ab = ab; self.test = test
        self.nodes = T.postorder([root]); self.index = {t.id: i for i, t in enumerate(self.nodes)}
        self.pieces = 0; self.forks = 0; self.unproved = []; self.deadline = time.time() + budget; self.found = None; self.tests = 0
    def bitsof(self, i, sign): return i | (T.sgnbit(self.w) if sign else 0)
    def change(self, node, i0, i1, sign):
        """last float of [i0,i1) before the concrete value of the node changes"""
        if isinstance(node, tuple):
            kind, nd = node; mb = P[self.w] - 1
            key = (lambda v: v >> mb) if kind == 'exp' else (lambda v: v >> (self.w - 1))
        else: nd = node; key = lambda v: v
        ev = lambda i: key(T.evaluate([nd], {self.x: self.bitsof(i, sign)}, libm_eval=libm_eval)[0])
        lo, hi = i0, i1; k0 = ev(lo)
        if ev(hi) == k0: return None
        while hi - lo > 1:
            m = (lo + hi) // 2
            if ev(m) == k0: lo = m
            else: hi = m
        return lo
    def run(self, pieces):
        todo = list(reversed(pieces))
        while todo:
            if time.time() > self.deadline or self.found or len(self.unproved) > 40:
                for p in todo: self.unproved.append(p + ('not reached',))
                break
            i0, i1, sign = todo.pop()
            r = self.piece(i0, i1, sign)
            if r is True: self.pieces += 1; continue
            why, at, cand = r
            if cand is not None and self.test: self.try_(i0, i1, sign, cand)
            if i1 == i0 or self.found:
                if not self.found: self.unproved.append((i0, i1, sign, why))
                continue
            if at is None and i1 - i0 < 8 and False: self.unproved.append((i0, i1, sign, why)); continue
            if at is None: at = self.mid(i0, i1)
            todo.append((at + 1, i1, sign)); todo.append((i0, at, sign))
        return self
    def mid(self, i0, i1):
        # middle of the values once within a factor of 4, else middle of the exponents
        a, b = fe.pyval(self.w, i0), fe.pyval(self.w, i1)
        if a > 0 and b < 4 * a:
            m = fe.bits(self.w, (a + b) / 2); return min(max(m, i0), i1 - 1)
        return (i0 + i1) // 2
    def piece(self, i0, i1, sign):
        b0, b1 = self.bitsof(i0, sign), self.bitsof(i1, sign)
        a, b = fe.pyval(self.w, b0), fe.pyval(self.w, b1)
        c = (a + b) / 2; h = abs(b - a) / 2
        if self.w == 64: h = h * (1 + 2.0 ** -50) + (abs(c) * 2.0 ** -51 if h else 0)
        sp = self.spec(c, h)
        if sp is None: return ('function not expanded', None, None)
        stack = [{}]; seen = 0
        while stack:
            asg = stack.pop(); seen += 1
            if seen > 24: return ('too many cases', None, None)
            ab = Abs(self.root, self.x, self.w, b0, b1, asg, self.nodes, self.index)
            try: v = ab.tof(ab.get(self.root), self.w)
            except Fork as f:
                self.forks += 1
                for o in f.opts: n = dict(asg); n[f.key] = o; stack.append(n)
                continue
            except Split as s:
                at = self.change(s.node, i0, i1, sign) if s.node is not None else None
                return ('choice', at, None)
            except (Bad, ZeroDivisionError, OverflowError) as e: return (str(e), None, 'any' if 'non-finite' in str(e) else None)
            # abs variable runs from b0 to b1: for a negative sign the polynomial variable is reversed consistently (c, h use lo..hi)
            q = query((v.c, v.r), sp, self.rel, self.ab)
            if q != 'proved': return (str(q), None, q[1] if isinstance(q, tuple) and q[1] is not None else 'any')
        return True
    def try_(self, i0, i1, sign, cand):
        """run the real code on the solver's point and on floats of the interval"""
        if self.tests > 400: return
        self.tests += 1
        rng = random.Random(i0 * 7 + i1)
        ids = set()
        if cand != 'any':
            a, b = fe.pyval(self.w, self.bitsof(i0, sign)), fe.pyval(self.w, self.bitsof(i1, sign))
            v = (a + b) / 2 + cand * abs(b - a) / 2
            m = fe.bits(self.w, abs(v)); ids |= {min(max(m + k, i0), i1) for k in (-2, -1, 0, 1, 2)}
        ids |= {i0, i1}
        while len(ids) < min(256, i1 - i0 + 1): ids.add(rng.randint(i0, i1))
        r = self.test([self.bitsof(i, sign) for i in sorted(ids)])
        if r: self.found = r

def positive(root, xname, w, lo, hi, budget=20.0):
    """the term is positive for every float x in [lo, hi] (0 < lo): Taylor-model lower bound on each cell of a cover"""
    pr = Prover(root, xname, w, None, 0, 0, budget=budget)
    todo = [(fe.bits(w, lo), fe.bits(w, hi))]; cells = 0
    while todo:
        i0, i1 = todo.pop(); cells += 1
        if time.time() > pr.deadline or cells > 4000: return 0
        stack = [{}]; at = ok = None; seen = 0
        while stack:
            asg = stack.pop(); seen += 1
            if seen > 24: ok = False; break
            a = Abs(root, xname, w, i0, i1, asg, pr.nodes, pr.index)
            try: ok = a.tof(a.get(root), w).lo > 0
            except Fork as f:
                for o in f.opts: n = dict(asg); n[f.key] = o; stack.append(n)
                continue
            except Split as s:
                at = pr.change(s.node, i0, i1, 0) if s.node is not None else None; ok = False
            except (Bad, ZeroDivisionError, OverflowError): ok = False
            if not ok: break
        if ok: continue
        if i0 == i1: return 0
        if at is None: at = pr.mid(i0, i1)
        todo.append((at + 1, i1)); todo.append((i0, at))
    return cells
