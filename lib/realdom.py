"""Real-valued abstraction of floating-point terms: a polynomial in the inputs plus a magnitude bound on the
accumulated rounding error (standard model, one (1+d), |d|<=u per operation; no overflow, no underflow).
The verdict is a linear real-arithmetic query in which every monomial is a free real."""
import time
from fractions import Fraction as Q
import z3
import terms as T
import fpeval as fe
import solve

U = {32: Q(1, 1 << 24), 64: Q(1, 1 << 53)}
class NoPoly(Exception): pass

def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for k, d in b.items():
            x = tuple(sorted(m + k)); v = r.get(x, 0) + c * d
            if v: r[x] = v
            else: r.pop(x, None)
    return r
def pabs(a): return {m: abs(c) for m, c in a.items()}
def pscale(a, k): return {m: c * k for m, c in a.items()} if k else {}
def pmax(a, b):
    r = dict(a)
    for m, c in b.items():
        if c > r.get(m, 0): r[m] = c
    return r
def _up(q):
    """round an error coefficient up to a short fraction (keeps the numbers small)"""
    if q.denominator < (1 << 90): return q
    return Q(-((-q.numerator << 90) // q.denominator), 1 << 90)
def perr(e): return {m: _up(c) for m, c in e.items()}

def pow2(c):
    c = abs(c)
    if c == 0: return True
    n, d = c.numerator, c.denominator
    return n & (n - 1) == 0 and d & (d - 1) == 0

class PV(object):
    __slots__ = ('p', 'e')
    def __init__(self, p, e): self.p = p; self.e = e

def analyse(roots, memo=None, maxmono=4000):
    """{term id: PV}; raises NoPoly for a root outside the domain"""
    memo = {} if memo is None else memo
    bad = object()
    for t in T.postorder(roots):
        if t.id in memo: continue
        memo[t.id] = _one(t, memo)
        v = memo[t.id]
        if v is not None and len(v.p) > maxmono: memo[t.id] = None
    return [memo[r.id] for r in roots]

def const_of(v):
    if v is None or v.e: return None
    if not v.p: return Q(0)
    if len(v.p) == 1 and () in v.p: return v.p[()]
    return None

def _one(t, memo):
    op = t.op; w = t.w
    if op == 'const':
        if w not in (32, 64) or not fe.isfinite(w, t.p): return None
        q = fe.to_frac(w, t.p)
        return PV({(): q} if q else {}, {})
    if op == 'var': return PV({(t.p,): Q(1)}, {})
    if w not in (32, 64): return None
    a = [memo.get(x.id) for x in t.args]
    if op == 'xor' and T.is_c(t.args[0]) and t.args[0].p == T.sgnbit(w) and a[1] is not None:
        return PV(pscale(a[1].p, -1), a[1].e)
    if op == 'ite' and a[1] is not None and a[2] is not None and a[1].p == a[2].p:
        return PV(a[1].p, pmax(a[1].e, a[2].e))
    if any(x is None for x in a): return None
    u = U[w]
    if op == 'fadd':
        x, y = a; p = padd(x.p, y.p)
        for s, o in ((x, y), (y, x)):
            if not s.p and not s.e: return PV(o.p, o.e)
        e = padd(x.e, y.e)
        if t.args[0] is t.args[1] or not p and not e: return PV(p, e)
        return PV(p, perr(padd(pscale(e, 1 + u), pscale(pabs(p), u))))
    if op == 'fmul':
        x, y = a; p = pmul(x.p, y.p)
        for s, o in ((x, y), (y, x)):
            c = const_of(s)
            if c is not None and pow2(c): return PV(p, pscale(o.e, abs(c)))
        e = padd(padd(pmul(x.e, pabs(y.p)), pmul(pabs(x.p), y.e)), pmul(x.e, y.e))
        return PV(p, perr(padd(pscale(e, 1 + u), pscale(pabs(p), u))))
    if op == 'ffma':
        x, y, z = a
        p = padd(pmul(x.p, y.p), z.p)
        e = padd(padd(padd(pmul(x.e, pabs(y.p)), pmul(pabs(x.p), y.e)), pmul(x.e, y.e)), z.e)
        return PV(p, perr(padd(pscale(e, 1 + u), pscale(pabs(p), u))))
    if op == 'fdiv':
        c = const_of(a[1])
        if c:
            p = pscale(a[0].p, 1 / c); e = pscale(a[0].e, 1 / abs(c))
            if pow2(c): return PV(p, e)
            return PV(p, perr(padd(pscale(e, 1 + u), pscale(pabs(p), u))))
        return None
    if op == 'fpext': return a[0]
    if op == 'fptrunc': return PV(a[0].p, perr(padd(pscale(a[0].e, 1 + u), pscale(pabs(a[0].p), u))))
    return None

_Q = {}
def zq(q): return z3.RealVal('%d/%d' % (q.numerator, q.denominator))
def lra_within(pv, expect, tol, timeout_ms=10000):
    """decide |value - expect| <= tol for all inputs; expect: polynomial, tol: polynomial in magnitudes (non-negative
    coefficients).  Every monomial m becomes a free real X_m; |m| is |X_m|.  Returns 'proved' or a model {monomial: float}"""
    d = padd(pv.p, expect, -1)
    key = (tuple(sorted(d.items())), tuple(sorted(pv.e.items())), tuple(sorted(tol.items())))
    if key in _Q: return _Q[key]
    t0 = time.time()
    mons = sorted(set(d) | set(pv.e) | set(tol))
    X = {m: z3.Real('x!%d' % k) if m else z3.RealVal(1) for k, m in enumerate(mons)}
    s = z3.Solver(); s.set('timeout', timeout_ms)
    A = {}
    for m in mons:
        if not m: A[m] = z3.RealVal(1); continue
        A[m] = z3.Real('a!%d' % mons.index(m)); s.add(A[m] >= X[m], A[m] >= -X[m], z3.Or(A[m] == X[m], A[m] == -X[m]))
    lhs = z3.Sum([zq(c) * X[m] for m, c in d.items()]) if d else z3.RealVal(0)
    bound = (z3.Sum([zq(c) * A[m] for m, c in tol.items()]) if tol else z3.RealVal(0)) - (z3.Sum([zq(c) * A[m] for m, c in pv.e.items()]) if pv.e else z3.RealVal(0))
    s.add(z3.Or(lhs > bound, -lhs > bound))
    r = s.check()
    solve.STATS['queries'] += 1; solve.STATS['real'] += 1; solve.STATS['solver_s'] += time.time() - t0
    if r == z3.unsat: _Q[key] = 'proved'
    else:
        if r == z3.unknown: solve.STATS['unknown'] += 1
        _Q[key] = 'sat' if r == z3.sat else 'unknown'
    return _Q[key]

def homog(root, xname):
    """degree of homogeneity of every float node in (x -> k x, rcp(x) -> rcp(x)/k); None if some node is not homogeneous"""
    deg = {}
    for t in T.postorder([root]):
        op = t.op
        a = [deg.get(z.id) for z in t.args]
        if op == 'const': deg[t.id] = 0 if t.w in (32, 64) else None
        elif op == 'var': deg[t.id] = 1
        elif op == 'rcp': deg[t.id] = -1
        elif op == 'xor' and T.is_c(t.args[0]) and t.args[0].p == T.sgnbit(t.w): deg[t.id] = a[1]
        elif any(z is None for z in a): return None
        elif op == 'fadd':
            z = [k for k, s in zip(a, t.args)]
            if z[0] != z[1]: return None
            deg[t.id] = z[0]
        elif op == 'fmul': deg[t.id] = a[0] + a[1]
        elif op == 'fdiv': deg[t.id] = a[0] - a[1]
        elif op == 'ffma':
            if a[0] + a[1] != a[2]: return None
            deg[t.id] = a[2]
        else: return None
    return deg[root.id]

def rcp_query(out, tol, timeout_ms=60000):
    """|out*x - 1| <= tol for out built from x and rcp(x) (hardware: relative error at most 1.5*2^-12) by operations with
    relative rounding error; homogeneous, so x = 1 without loss of generality"""
    w = out.w
    xs = T.leaves([out], ('var',))
    if len(xs) != 1 or homog(out, xs[0].p) != -1: return 'not-homogeneous'
    t0 = time.time()
    s = z3.Solver(); s.set('timeout', timeout_ms)
    r = z3.Real('r'); eps = zq(Q(3, 2) / 4096); s.add(r >= 1 - eps, r <= 1 + eps)
    u = zq(U[w]); k = [0]; memo = {}
    def rnd(v):
        d = z3.Real('d%d' % k[0]); k[0] += 1; s.add(d <= u, d >= -u); return v * (1 + d)
    for t in T.postorder([out]):
        a = [memo.get(z.id) for z in t.args]
        if t.op == 'const': v = zq(fe.to_frac(w, t.p))
        elif t.op == 'var': v = z3.RealVal(1)
        elif t.op == 'rcp': v = r
        elif t.op == 'xor': v = -a[1]
        elif t.op == 'fadd': v = rnd(a[0] + a[1])
        elif t.op == 'fmul': v = a[0] * a[1] if (t.args[0].op == 'var' and False) else rnd(a[0] * a[1])
        elif t.op == 'fdiv': v = rnd(a[0] / a[1])
        elif t.op == 'ffma': v = rnd(a[0] * a[1] + a[2])
        memo[t.id] = v
    o = memo[out.id]
    s.add(z3.Or(o - 1 > zq(tol), 1 - o > zq(tol)))
    q = s.check()
    solve.STATS['queries'] += 1; solve.STATS['real'] += 1; solve.STATS['solver_s'] += time.time() - t0
    if q == z3.unknown: solve.STATS['unknown'] += 1
    return 'proved' if q == z3.unsat else 'sat' if q == z3.sat else 'unknown'
