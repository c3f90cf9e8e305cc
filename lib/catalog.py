"""The catalogue of public entry points of nova-simd and their element-wise specifications."""
import itertools
import terms as T
from engine import Call, Buf, BLOCK, VSIZE

BYID = {}
def reg(c): BYID[c.id] = c; return c
A = 'abcd'
fop, fcmp, ite = T.fop, T.fcmp, T.ite

# ---------------------------------------------------------------- element-wise specifications: f(w, out, args) -> (assumes, pred)
def notnan(*a): return [T.bnot(T.fisnan(x)) for x in a]
def anyof(out, l):
    return T.disj([T.feq_or_nan(out, x) for x in l])
def S1(f): return lambda w, o, a: ([], T.feq_or_nan(o, f(*a)))
def bool01(c, w): return ite(c, T.fconst(w, 1.0), T.const(w, 0))
def CMP(f): return lambda w, o, a: ([], T.feq_or_nan(o, bool01(f(*a), w)))
def sp_min(w, o, a):
    x, y = a; return notnan(x, y), T.feq_or_nan(o, ite(fcmp('flt', x, y), x, y))
def sp_max(w, o, a):
    x, y = a; return notnan(x, y), T.feq_or_nan(o, ite(fcmp('flt', y, x), x, y))
def sp_clip(w, o, a):
    v, lo, hi = a
    return notnan(v, lo, hi) + [fcmp('fle', lo, hi)], T.feq_or_nan(o, ite(fcmp('flt', v, lo), lo, ite(fcmp('flt', hi, v), hi, v)))
def sp_clip2(w, o, a):
    v, l = a; lo = T.fneg(l)
    return notnan(v, l) + [fcmp('fle', T.const(w, 0), l)], T.feq_or_nan(o, ite(fcmp('flt', v, lo), lo, ite(fcmp('flt', l, v), l, v)))
def sp_muladd(w, o, a):
    x, y, z = a; return [], anyof(o, [fop('fadd', fop('fmul', x, y), z), fop('ffma', x, y, z)])
def sp_ampmod(w, o, a):
    s, m, k = a; one = T.fconst(w, 1.0)
    return [], anyof(o, [fop('fmul', s, fop('fadd', one, fop('fmul', m, k))), fop('fmul', s, fop('ffma', m, k, one))])
def sp_mix(w, o, a):
    x, f, y, g = a; p, q = fop('fmul', x, f), fop('fmul', y, g)
    return [], anyof(o, [fop('fadd', p, q), fop('ffma', x, f, q), fop('ffma', y, g, p)])
def assocs(l):
    if len(l) == 1: return [l[0]]
    out = []
    first = l[0]; rest = l[1:]
    for r in range(len(rest) + 1):
        for c in itertools.combinations(range(len(rest)), r):
            left = [first] + [rest[i] for i in c]; right = [rest[i] for i in range(len(rest)) if i not in c]
            if not right: continue
            for x in assocs(left):
                for y in assocs(right): out.append(fop('fadd', x, y))
    return list(dict.fromkeys(out))
def sp_sum(w, o, a): return [], anyof(o, assocs(list(a)))
def sp_abs(w, o, a): return [], T.or_(T.eq(o, T.fabs(a[0])), T.and_(T.fisnan(o), T.fisnan(a[0])))
def sp_sgn(w, o, a):
    x = a[0]; z = T.const(w, 0)
    return notnan(x), T.feq_or_nan(o, ite(fcmp('flt', z, x), T.fconst(w, 1.0), ite(fcmp('flt', x, z), T.fconst(w, -1.0), z)))

# name: (arity, spec, special kinds)
ARITH = {
 'plus': (2, S1(lambda x, y: fop('fadd', x, y))), 'minus': (2, S1(lambda x, y: fop('fsub', x, y))),
 'times': (2, S1(lambda x, y: fop('fmul', x, y))), 'over': (2, S1(lambda x, y: fop('fdiv', x, y))),
 'min': (2, sp_min), 'max': (2, sp_max),
 'less': (2, CMP(lambda x, y: fcmp('flt', x, y))), 'less_equal': (2, CMP(lambda x, y: fcmp('fle', x, y))),
 'greater': (2, CMP(lambda x, y: fcmp('flt', y, x))), 'greater_equal': (2, CMP(lambda x, y: fcmp('fle', y, x))),
 'equal': (2, CMP(lambda x, y: fcmp('feq', x, y))), 'notequal': (2, CMP(lambda x, y: T.bnot(fcmp('feq', x, y)))),
 'clip2': (2, sp_clip2), 'sum': (2, sp_sum),
 'clip': (3, sp_clip), 'muladd': (3, sp_muladd), 'ampmod': (3, sp_ampmod), 'sum3': (3, sp_sum),
 'mix': (4, sp_mix), 'sum4': (4, sp_sum),
 'abs': (1, sp_abs), 'sgn': (1, sp_sgn), 'square': (1, S1(lambda x: fop('fmul', x, x))), 'cube': (1, S1(lambda x: fop('fmul', fop('fmul', x, x), x))),
}
UNARY_OTHER = ['round', 'frac', 'ceil', 'floor', 'trunc', 'undenormalize', 'reciprocal', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'tanh', 'log', 'log2', 'log10', 'exp', 'signed_sqrt',
               'softclip', 'midi2freq', 'freq2midi', 'midi2ratio', 'ratio2midi', 'oct2freq', 'freq2oct', 'amp2db', 'db2amp']
BINARY_OTHER = ['pow', 'spow']

def kinds_for(ar, full=False):
    if ar == 1: return ['p']
    if ar == 2: return ['pp', 'ps', 'sp'] + (['ss'] if full else [])
    if ar == 3:
        return [''.join(k) for k in itertools.product('ps', repeat=3)] if full else ['ppp', 'pss', 'psp', 'pps', 'spp', 'sss']
    if full: return [''.join(k) for k in itertools.product('ps', repeat=4)]
    return ['pppp', 'psps', 'spsp', 'ppps', 'pspp', 'ssss']

def fnname(fam):
    return 'sum' if fam in ('sum3', 'sum4') else fam

def argtext(kinds, cast=''):
    bufs = []; scal = []; txt = []
    for j, k in enumerate(kinds):
        if k == 'p': bufs.append(A[j]); txt.append(A[j])
        elif k == 's': scal.append('s' + A[j]); txt.append('s' + A[j])
        else:
            scal += ['r' + A[j], 'd' + A[j]]; txt.append('nova::slope_argument(r%s, d%s)' % (A[j], A[j]))
    return bufs, scal, txt

def elem_spec(kinds, sp):
    """element-wise specification over the accessor (no ramps)"""
    def spec(x):
        items = []
        for i in range(x.n):
            a = [x.i(A[j], i) if k == 'p' else x.s('s' + A[j]) for j, k in enumerate(kinds)]
            asm, p = sp(x.w, x.o('o', i), a)
            items.append(('o[%d]' % i, asm, p))
        return items
    return spec

FORMS = ('vec', 'simd', 'N')
def ew_call(fam, kinds, F, form, N=None, sp=None, tag=''):
    bufs, scal, txt = argtext(kinds)
    f = fnname(fam)
    B = [Buf('o', 'out')] + [Buf(b, 'in') for b in bufs]
    al = ', '.join(['o'] + txt)
    if form == 'vec': body = 'nova::%s_vec(%s, n);' % (f, al)
    elif form == 'simd': body = 'nova::%s_vec_simd(%s, n);' % (f, al)
    else: body = 'nova::%s_vec_simd<%d>(%s);' % (f, N, al)
    id = 'k_%s_%s_%s_%s%s' % (fam, kinds, F[0], form, N or '')
    if id in BYID: return BYID[id]
    return reg(Call(id, F, B, body, scal, form=form, fixedn=N, fam=fam, kinds=kinds, spec=elem_spec(kinds, sp) if sp else None))

def ew_family(fams, tier='quick', types=('float', 'double'), forms=FORMS, full=False, ns=None, kindf=None):
    out = []
    for fam in fams:
        if fam in ARITH: ar, sp = ARITH[fam]
        elif fam in BINARY_OTHER: ar, sp = 2, None
        else: ar, sp = 1, None
        for F in types:
            for kinds in (kindf(ar) if kindf else kinds_for(ar, full)):
                for form in forms:
                    if form == 'N':
                        for m in (ns or ((1, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5))):
                            out.append(ew_call(fam, kinds, F, 'N', m * BLOCK[F], sp))
                    else: out.append(ew_call(fam, kinds, F, form, None, sp))
    return out

# ---------------------------------------------------------------- memory functions
def _mk(id, *a, **k):
    return BYID[id] if id in BYID else reg(Call(id, *a, **k))
def each(f):
    def spec(x): return [('o[%d]' % i, [], f(x, i)) for i in range(x.n)]
    return spec
SAMEBITS = T.eq
def mem_calls(tier='quick', types=('float', 'double'), ns=None):
    out = []
    ns = ns or ((1, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5))
    for F in types:
        t = F[0]; B = BLOCK[F]
        O = [Buf('o', 'out')]; OI = [Buf('o', 'out'), Buf('a', 'in')]; IO = [Buf('o', 'inout'), Buf('a', 'in')]; IOC = [Buf('o', 'inout')]
        zero = each(lambda x, i: T.eq(x.o('o', i), T.const(x.w, 0)))
        fill = each(lambda x, i: T.eq(x.o('o', i), x.s('s')))
        copy = each(lambda x, i: T.eq(x.o('o', i), x.i('a', i)))
        addv = each(lambda x, i: T.feq_or_nan(x.o('o', i), fop('fadd', x.i('o', i), x.i('a', i))))
        addc = each(lambda x, i: T.feq_or_nan(x.o('o', i), fop('fadd', x.i('o', i), x.s('s'))))
        def add(id, bufs, fn, args, spec, scal=(), fam='mem', **k):
            out.append(_mk('m_%s_%s' % (id, t), F, bufs, 'nova::%s(%s);' % (fn, args), scal, spec=spec, fam=fam, **k))
        add('zerovec', O, 'zerovec', 'o, n', zero, form='vec')
        add('setvec', O, 'setvec', 'o, s, n', fill, ['s'], form='vec')
        add('copyvec', OI, 'copyvec', 'o, a, n', copy, form='vec')
        add('addvec', IO, 'addvec', 'o, a, n', addv, form='vec', fam='addvec')
        add('addvec_c', IOC, 'addvec', 'o, s, n', addc, ['s'], form='vec', fam='addvec')
        for fn, bufs, args, spec, scal, al in [
                ('zerovec_simd', O, 'o', zero, [], True), ('zerovec_na_simd', O, 'o', zero, [], False),
                ('setvec_simd', O, 'o, s', fill, ['s'], True), ('setvec_na_simd', O, 'o, s', fill, ['s'], False),
                ('copyvec_simd', OI, 'o, a', copy, [], True), ('copyvec_aa_simd', OI, 'o, a', copy, [], True), ('copyvec_na_simd', OI, 'o, a', copy, [], {'o'}),
                ('copyvec_an_simd', OI, 'o, a', copy, [], {'a'}), ('copyvec_nn_simd', OI, 'o, a', copy, [], False),
                ('addvec_simd', IO, 'o, a', addv, [], True), ('addvec_simd_c', IOC, 'o, s', addc, ['s'], True)]:
            f = fn[:-2] if fn.endswith('_c') else fn
            fam = 'addvec' if f.startswith('addvec') else 'mem'
            add(fn, bufs, f, args + ', n', spec, scal, fam, form='simd', aligned=al)
            for m in ns:
                N = m * B
                ta = 'nova::%s<%d>(%s);' % (f, N, args)
                out.append(_mk('m_%s_%s_N%d' % (fn, t, N), F, bufs, ta, scal, spec=spec, fam=fam, form='N', fixedn=N, aligned=al))
    return out

# ---------------------------------------------------------------- vector class
SIMD_CFG = ('sse2', 'sse41', 'avx', 'fma', 'sse1')
def simd_cfg(F): return SIMD_CFG if F == 'float' else SIMD_CFG[:4]     # SSE without SSE2 has no double vectors
LD = 'typedef nova::vec<F> V; V x, y, z; '
def vcall(id, F, ins, expr, spec, scal=(), only=None, fam='vec', aligned=False, raw=False, ret=False, F2=None):
    bufs = [Buf('o', 'out')] + [Buf(b, 'in') for b in ins]
    body = 'typedef nova::vec<F> V; '
    if raw: body += expr
    else:
        body += ''.join('V %s; %s.load(%s); ' % (v, v, b) for b, v in zip(ins, 'xyz'))
        body += 'V r = %s; r.store(o);' % expr
    return _mk('v_%s_%s' % (id, F[0]), F, bufs, body, scal, spec=spec, form='V', has_n=False, only=only, fam=fam, aligned=aligned, ret=ret)

def allones(w): return T.const(w, T.mask(w))
def maskbits(c, w): return ite(c, allones(w), T.const(w, 0))
def lanes(f, asm=None):
    """f(x, lane) -> pred;  asm(x, lane) -> list"""
    def spec(x): return [('lane %d' % i, asm(x, i) if asm else [], f(x, i)) for i in range(x.n)]
    return spec

CMPF = [('lt', '<', lambda a, b: fcmp('flt', a, b)), ('le', '<=', lambda a, b: fcmp('fle', a, b)), ('gt', '>', lambda a, b: fcmp('flt', b, a)),
        ('ge', '>=', lambda a, b: fcmp('fle', b, a)), ('eq', '==', lambda a, b: fcmp('feq', a, b)), ('neq', '!=', lambda a, b: T.bnot(fcmp('feq', a, b)))]
AR = [('add', '+', 'fadd'), ('sub', '-', 'fsub'), ('mul', '*', 'fmul'), ('div', '/', 'fdiv')]

def vec_op_calls(types=('float', 'double')):
    out = []
    for F in types:
        A1 = lambda f: lanes(lambda x, i: f(x, x.o('o', i), x.i('a', i)))
        A2 = lambda f: lanes(lambda x, i: f(x, x.o('o', i), x.i('a', i), x.i('b', i)))
        for nm, op, fo in AR:
            ex = A2(lambda x, o, a, b, fo=fo: T.feq_or_nan(o, fop(fo, a, b)))
            out.append(vcall(nm, F, 'ab', 'x %s y' % op, ex))
            out.append(vcall(nm + 'eq', F, 'ab', 'V x, y; x.load(a); y.load(b); x %s= y; x.store(o);' % op, ex, raw=True))
            out.append(vcall(nm + 'eqself', F, 'a', 'V x; x.load(a); x %s= x; x.store(o);' % op, A1(lambda x, o, a, fo=fo: T.feq_or_nan(o, fop(fo, a, a))), raw=True))
            sv = lanes(lambda x, i, fo=fo: T.feq_or_nan(x.o('o', i), fop(fo, x.i('a', i), x.s('s'))))
            vs = lanes(lambda x, i, fo=fo: T.feq_or_nan(x.o('o', i), fop(fo, x.s('s'), x.i('a', i))))
            out.append(vcall(nm + '_vs', F, 'a', 'x %s s' % op, sv, ['s'], only=simd_cfg(F)))
            if F == 'float': out.append(vcall(nm + '_sv', F, 'a', 's %s x' % op, vs, ['s'], only=simd_cfg(F)))
        for nm, op, f in CMPF:
            out.append(vcall('c' + nm, F, 'ab', 'x %s y' % op, A2(lambda x, o, a, b, f=f: T.feq_or_nan(o, bool01(f(a, b), x.w)))))
            out.append(vcall('mask_' + nm, F, 'ab', 'mask_%s(x, y)' % nm, A2(lambda x, o, a, b, f=f: T.eq(o, maskbits(f(a, b), x.w))), only=simd_cfg(F)))
        for nm, op, f in [('band', '&', T.and_), ('bor', '|', T.or_), ('bxor', '^', T.xor)]:
            out.append(vcall(nm, F, 'ab', 'x %s y' % op, A2(lambda x, o, a, b, f=f: T.eq(o, f(a, b))), only=simd_cfg(F)))
        out.append(vcall('andnot', F, 'ab', 'andnot(x, y)', A2(lambda x, o, a, b: T.eq(o, T.and_(T.bnot(a), b))), only=simd_cfg(F) if F == 'float' else ('sse2', 'sse41')))
        if F == 'float': out.append(vcall('neg', F, 'a', '-x', A1(lambda x, o, a: T.or_(T.eq(o, T.fneg(a)), T.and_(T.fisnan(o), T.fisnan(a)))), only=simd_cfg(F)))
        out.append(vcall('madd', F, 'abc', 'madd(x, y, z)', lanes(lambda x, i: sp_muladd(x.w, x.o('o', i), [x.i(b, i) for b in 'abc'])[1])))
        out.append(vcall('select', F, 'abc', 'select(x, y, z)', lanes(lambda x, i: T.eq(x.o('o', i), ite(T.eq(x.i('c', i), T.const(x.w, 0)), x.i('a', i), x.i('b', i))),
                         lambda x, i: [T.or_(T.eq(x.i('c', i), T.const(x.w, 0)), T.eq(x.i('c', i), allones(x.w)))])))
        out.append(vcall('select_m', F, 'abc', 'select(x, y, mask_lt(z, x))', lanes(lambda x, i: T.eq(x.o('o', i), ite(fcmp('flt', x.i('c', i), x.i('a', i)), x.i('b', i), x.i('a', i)))), only=simd_cfg(F)))
        nn = lambda x, i: notnan(x.i('a', i), x.i('b', i))
        out.append(vcall('max', F, 'ab', 'max_(x, y)', lanes(lambda x, i: sp_max(x.w, x.o('o', i), (x.i('a', i), x.i('b', i)))[1], nn)))
        out.append(vcall('min', F, 'ab', 'min_(x, y)', lanes(lambda x, i: sp_min(x.w, x.o('o', i), (x.i('a', i), x.i('b', i)))[1], nn)))
        for nm, f in [('abs', sp_abs), ('sign', sp_sgn), ('square', ARITH['square'][1]), ('cube', ARITH['cube'][1])]:
            out.append(vcall(nm, F, 'a', '%s(x)' % nm, lanes(lambda x, i, f=f: f(x.w, x.o('o', i), (x.i('a', i),))[1], lambda x, i, f=f: f(x.w, x.o('o', i), (x.i('a', i),))[0])))
    return [c for c in out if c]

def vec_io_calls(types=('float', 'double')):
    out = []
    ident = lanes(lambda x, i: T.eq(x.o('o', i), x.i('a', i)))
    fill = lanes(lambda x, i: T.eq(x.o('o', i), x.s('s')))
    for F in types:
        for l in ('load', 'load_aligned'):
            for s in ('store', 'store_aligned', 'store_aligned_stream'):
                al = set()
                if l == 'load_aligned': al.add('a')
                if s != 'store': al.add('o')
                out.append(vcall('%s_%s' % (l, s), F, 'a', 'V x; x.%s(a); x.%s(o);' % (l, s), ident, raw=True, aligned=al))
        out.append(vcall('bcast', F, '', 'V x(s); x.store(o);', fill, ['s'], raw=True))
        out.append(vcall('setvec', F, 'a', 'V x; x.load(a); x.set_vec(s); x.store(o);', fill, ['s'], raw=True))
        out.append(vcall('copyctor', F, 'a', 'V x; x.load(a); V y(x); V z; z = y; z.store(o);', ident, raw=True))
        out.append(vcall('get', F, 'a', 'V x; x.load(a); for (int k = 0; k != V::size; ++k) o[k] = x.get(k);', ident, raw=True))
        for k in range(8):
            def sp(x, k=k): return [('lane %d' % i, [], T.eq(x.o('o', i), x.s('s') if i == k else x.i('a', i))) for i in range(x.n)]
            only = [c for c in ('sse2', 'sse41', 'avx', 'gen', 'fma', 'sse1') if VSIZE[F][c] > k]
            if not only: continue
            out.append(vcall('set%d' % k, F, 'a', 'V x; x.load(a); x.set(%d, s); x.store(o);' % k, sp, ['s'], raw=True, only=only))
            def sg(x, k=k): return [('value', [], T.eq(x.ret, x.i('a', k)))]
            out.append(vcall('get%d' % k, F, 'a', 'V x; x.load(a); x.store(o); return x.get(%d);' % k, sg, raw=True, only=only, ret=True))
        out.append(_mk('v_setget_%s' % F[0], F, [Buf('o', 'out'), Buf('a', 'in')], 'typedef nova::vec<F> V; V x; x.load(o); for (int k = 0; k != V::size; ++k) x.set(k, a[k]); x.store(o);',
                       spec=ident, form='V', has_n=False, aligned=False, fam='vec'))
        def lf(x): return [('lane %d' % i, [], T.eq(x.o('o', i), x.i('a', 0) if i == 0 else T.const(x.w, 0))) for i in range(x.n)]
        out.append(_mk('v_load_first_%s' % F[0], F, [Buf('o', 'out'), Buf('a', 'in', 1)], 'typedef nova::vec<F> V; V x; x.load_first(a); x.store(o);', spec=lf, form='V', has_n=False, aligned=False, fam='vec'))
        out.append(vcall('clear', F, 'a', 'V x; x.load(a); x.clear(); x.store(o);', lanes(lambda x, i: T.eq(x.o('o', i), T.const(x.w, 0))), raw=True))
        out.append(vcall('collect', F, 'a', 'V x; x.load(a); V r = x.collect([](F v) -> F { return v * F(2); }); r.store(o);', lanes(lambda x, i: T.feq_or_nan(x.o('o', i), fop('fmul', x.i('a', i), x.c(2.0)))), raw=True))
    return out

# ---------------------------------------------------------------- ramps
from fractions import Fraction as Q
def ramp_kinds(ar, tier):
    if ar == 2: k = ['pr', 'rp', 'sr', 'rs', 'rr'] if tier != 'quick' else ['pr', 'rp', 'sr', 'rs']
    elif ar == 3: k = ['prs', 'ppr', 'prr', 'rps', 'rrr'] if tier == 'quick' else [''.join(x) for x in itertools.product('psr', repeat=3) if 'r' in x]
    else: k = ['prpr', 'rppp', 'pprp', 'psrs'] if tier == 'quick' else [''.join(x) for x in itertools.product('pr', repeat=4) if 'r' in x] + ['psrs', 'rsps', 'prps', 'pspr', 'srsr', 'ssrr']
    return k
def ramp_calls(tier, types=('float', 'double'), fams=None):
    out = []
    for fam in fams or ARITH:
        ar, sp = ARITH[fam]
        if ar == 1: continue
        for F in types:
            for k in ramp_kinds(ar, tier):
                for form in FORMS:
                    ns = [None] if form != 'N' else [m * BLOCK[F] for m in ((3,) if tier == 'quick' else (1, 2, 3, 5))]
                    for N in ns: out.append(ew_call(fam, k, F, form, N))
    return out
def fill_calls(tier, types=('float', 'double')):
    """[(call, expect)] for linear/exponential fills, addvec with ramp"""
    import realdom as R
    out = []
    def lin(call, n, w): return {('o', i): (rp('f', 'd', i), rt(w, 'f', 'd', i)) for i in range(n)}
    def exp(call, n, w): return {('o', i): ({tuple(sorted(('f',) + ('d',) * i)): Q(1)}, {tuple(sorted(('f',) + ('d',) * i)): 4 * (i + 2) * R.U[w]}) for i in range(n)}
    def addr(call, n, w):
        d = {}
        for i in range(n):
            p = rp('f', 'd', i); p[('o[%d]' % i,)] = Q(1); t = rt(w, 'f', 'd', i); t[('o[%d]' % i,)] = 4 * R.U[w]
            d[('o', i)] = (p, t)
        return d
    from ramps import ramp_poly as rp, ramp_tol as rt
    for F in types:
        t = F[0]
        for nm, e in (('set_slope', lin), ('set_exp', exp)):
            for form in ('vec', 'simd'):
                sfx = '_vec' if form == 'vec' else '_vec_simd'
                out.append((_mk('m_%s_%s_%s' % (nm, form, t), F, [Buf('o', 'out')], 'nova::%s%s(o, f, d, n);' % (nm, sfx), ['f', 'd'], form=form, fam=nm), e))
        out.append((_mk('m_addramp_vec_%s' % t, F, [Buf('o', 'inout')], 'nova::addvec(o, f, d, n);', ['f', 'd'], form='vec', fam='addvec'), addr))
        out.append((_mk('m_addramp_simd_%s' % t, F, [Buf('o', 'inout')], 'nova::addvec_simd(o, f, d, n);', ['f', 'd'], form='simd', fam='addvec'), addr))
        for m in ((1, 3, 4) if tier == 'quick' else (1, 2, 3, 5)):
            N = m * BLOCK[F]
            out.append((_mk('m_addramp_N%d_%s' % (N, t), F, [Buf('o', 'inout')], 'nova::addvec_simd<%d>(o, f, d);' % N, ['f', 'd'], form='N', fixedn=N, fam='addvec'), addr))
    return out
def vec_ramp_calls(types=('float', 'double')):
    import realdom as R
    from ramps import ramp_poly as rp, ramp_tol as rt
    out = []
    def lin(call, n, w):
        d = {('o', i): (rp('f', 'd', i), rt(w, 'f', 'd', i)) for i in range(n)}
        d['ret'] = ({('d',): Q(n)}, {('d',): 4 * n * n * R.U[w]})
        return d
    def exp(call, n, w):
        d = {}
        for i in range(n + 1):
            m = tuple(sorted(('f',) + ('d',) * i))
            d[('o', i) if i < n else 'ret'] = ({m: Q(1)}, {m: 4 * (i + 2) * R.U[w]})
        return d
    for F in types:
        for nm, e in (('set_slope', lin), ('set_exp', exp)):
            out.append((_mk('v_%s_%s' % (nm, F[0]), F, [Buf('o', 'out')], 'typedef nova::vec<F> V; V x; F r = x.%s(f, d); x.store(o); return r;' % nm, ['f', 'd'], ret=True, form='V', has_n=False, aligned=False, fam='vec'), e))
    return out

# ---------------------------------------------------------------- per-sample helpers (C08) and rounding (C09)
def sp_undenorm(w, o, a):
    x = a[0]; mn = T.const(w, 0x00800000 if w == 32 else 0x0010000000000000)
    return notnan(x), T.feq_or_nan(o, ite(fcmp('flt', T.fabs(x), mn), T.const(w, 0), x))
def sp_ssqrt(w, o, a):
    x = a[0]; r = fop('fsqrt', T.fabs(x))
    return notnan(x), T.feq_or_nan(o, ite(fcmp('flt', x, T.const(w, 0)), T.fneg(r), r))
def sp_sqrt(w, o, a): return notnan(a[0]), T.feq_or_nan(o, fop('fsqrt', a[0]))
def sp_recip(w, o, a):
    x = a[0]; one = T.fconst(w, 1.0); mn = T.const(w, 0x00800000 if w == 32 else 0x0010000000000000); mx = T.fconst(w, 2.0 ** (126 if w == 32 else 1022))
    return [fcmp('fle', mn, T.fabs(x)), fcmp('fle', T.fabs(x), mx)], T.feq_or_nan(o, fop('fdiv', one, x))
HELP = {'abs': sp_abs, 'sgn': sp_sgn, 'undenormalize': sp_undenorm, 'signed_sqrt': sp_ssqrt, 'reciprocal': sp_recip}
def sp_rnd(mode):
    def f(w, o, a):
        x = a[0]; return notnan(x), T.feq_or_nan(o, T.frint(mode, x))
    return f
def sp_frac(w, o, a):
    x = a[0]; return notnan(x), T.feq_or_nan(o, fop('fsub', x, T.frint('floor', x)))
def sp_round(w, o, a):
    x = a[0]; fl = T.frint('floor', x); d = fop('fsub', x, fl); tie = fcmp('feq', d, T.fconst(w, 0.5))
    return notnan(x), T.disj([T.feq_or_nan(o, T.frint('rne', x)), T.feq_or_nan(o, T.frint('rna', x)), T.and_(tie, T.or_(T.feq_or_nan(o, fl), T.feq_or_nan(o, T.frint('ceil', x))))])
ROUNDF = {'floor': sp_rnd('floor'), 'ceil': sp_rnd('ceil'), 'trunc': sp_rnd('trunc'), 'round': sp_round, 'frac': sp_frac}

def unary_calls(table, tier, types=('float', 'double'), vec=()):
    out = []
    for fam, sp in table.items():
        for F in types:
            for form in FORMS:
                for N in ([None] if form != 'N' else [m * BLOCK[F] for m in ((1, 3, 4) if tier == 'quick' else (1, 2, 3, 5))]):
                    c = ew_call(fam, 'p', F, form, N, None)
                    c.spec = elem_spec('p', sp); out.append(c)
    for nm, sp in vec:
        for F in types:
            out.append(vcall('fn_' + nm, F, 'a', '%s(x)' % nm, lanes(lambda x, i, f=sp: f(x.w, x.o('o', i), (x.i('a', i),))[1], lambda x, i, f=sp: f(x.w, x.o('o', i), (x.i('a', i),))[0])))
    return out

# ---------------------------------------------------------------- reductions and meters
def all_in(x, b='a'): return [x.i(b, k) for k in range(x.n)]
def extreme(x, r, vals, mx):
    """r is the largest (smallest) of vals; comparisons only"""
    asm = [T.bnot(T.fisnan(v)) for v in vals]
    it = [('bounds element %d' % k, asm, T.fcmp('fle', v, r) if mx else T.fcmp('fle', r, v)) for k, v in enumerate(vals)]
    it.append(('is an element', asm, T.disj([T.fcmp('feq', r, v) for v in vals])))
    return it
def red_calls(tier, types=('float', 'double')):
    """[(call, exact spec or None, polynomial expectation or None)]"""
    import realdom as R
    out = []
    ls = {'vec': [1, 2, 3, 5, 8, 17] if tier == 'quick' else [1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33]}
    def sump(key, n, w): return {key: ({('a[%d]' % i,): Q(1) for i in range(n)}, {('a[%d]' % i,): 2 * (n + 4) * R.U[w] for i in range(n)})}
    for F in types:
        t = F[0]; B = BLOCK[F]
        ln = {'vec': ls['vec'], 'simd': (lambda v, B=B: sorted({v, 3 * v, 5 * v, B, 2 * B, 3 * B})) if tier == 'quick' else (lambda v, B=B: sorted({v * k for k in range(1, 14)} | {4 * B}))}
        for form in ('vec', 'simd'):
            s = '_vec' if form == 'vec' else '_vec_simd'
            I = [Buf('a', 'in')]
            k = dict(form=form, lens=ln[form], fam='horiz')
            mxs = lambda x: extreme(x, x.ret, all_in(x), True)
            mns = lambda x: extreme(x, x.ret, all_in(x), False)
            out.append((_mk('h_max_%s_%s' % (form, t), F, I, 'return nova::horizontal_max%s(a, n);' % s, ret=True, **k), mxs, None))
            out.append((_mk('h_min_%s_%s' % (form, t), F, I, 'return nova::horizontal_min%s(a, n);' % s, ret=True, **k), mns, None))
            out.append((_mk('h_sum_%s_%s' % (form, t), F, I, 'return nova::horizontal_sum%s(a, n);' % s, ret=True, **k), None, lambda c, n, w: sump('ret', n, w)))
            mm = lambda x: extreme(x, x.o('p', 0), all_in(x), False) + extreme(x, x.o('q', 0), all_in(x), True)
            PQ = [Buf('p', 'out', 1), Buf('q', 'out', 1), Buf('a', 'in')]
            out.append((_mk('h_minmax_%s_%s' % (form, t), F, PQ, 'nova::horizontal_minmax%s(*p, *q, a, n);' % s, **k), mm, None))
            ms = lambda x: extreme(x, x.o('p', 0), all_in(x), True)
            out.append((_mk('h_maxsum_%s_%s' % (form, t), F, PQ, 'nova::horizontal_maxsum%s(*p, *q, a, n);' % s, **k), ms, lambda c, n, w: sump(('q', 0), n, w)))
        V = 'typedef nova::vec<F> V; V x; x.load(a); return x.%s();'
        for nm, sp, e in (('horizontal_max', lambda x: extreme(x, x.ret, all_in(x), True), None), ('horizontal_min', lambda x: extreme(x, x.ret, all_in(x), False), None), ('horizontal_sum', None, lambda c, n, w: sump('ret', n, w))):
            out.append((_mk('v_%s_%s' % (nm, t), F, [Buf('a', 'in')], V % nm, ret=True, form='V', has_n=False, aligned=False, fam='vec'), sp, e))
    return out
def meter_calls(tier, types=('float', 'double')):
    import realdom as R
    out = []
    def pk(x, last):
        P = x.i('p', 0); vals = [P] + [T.fabs(v) for v in all_in(x)]
        asm = [T.bnot(T.fisnan(v)) for v in [P] + all_in(x)] + [T.fcmp('fle', T.const(x.w, 0), P)]
        r = x.o('p', 0)
        it = [('peak covers %d' % (k - 1), asm, T.fcmp('fle', v, r)) for k, v in enumerate(vals)]
        it.append(('peak is attained', asm, T.disj([T.fcmp('feq', r, v) for v in vals])))
        if last: it.append(('returned value', asm, T.fcmp('feq', x.ret, T.fabs(x.i('a', x.n - 1)))))
        return it
    def sq(c, n, w):
        p = {('a[%d]' % i, 'a[%d]' % i): Q(1) for i in range(n)}; p[('q[0]',)] = Q(1)
        return {('q', 0): (p, {m: 2 * (n + 4) * R.U[w] for m in p})}
    for F in types:
        t = F[0]; B = BLOCK[F]
        for form in ('vec', 'simd'):
            s = '_vec' if form == 'vec' else '_vec_simd'
            k = dict(form=form, fam='meter', lens=([1, 2, 3, 5, 8, 17] if tier == 'quick' else [1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33]) if form == 'vec' else (lambda v, B=B: sorted({2 * v, 6 * v, B, 2 * B, 3 * B})) if tier == 'quick' else (lambda v, B=B: sorted({2 * v * k for k in range(1, 8)} | {4 * B})))
            out.append((_mk('p_peak_%s_%s' % (form, t), F, [Buf('p', 'inout', 1), Buf('a', 'in')], 'return nova::peak%s(a, p, n);' % s, ret=True, **k), lambda x: pk(x, True), None))
            out.append((_mk('p_rms_%s_%s' % (form, t), F, [Buf('p', 'inout', 1), Buf('q', 'inout', 1), Buf('a', 'in')], 'nova::peak_rms%s(a, p, q, n);' % s, **k), lambda x: pk(x, False), sq))
    return out
def pan_calls(tier, types=('float', 'double')):
    import realdom as R
    from ramps import ramp_poly as rp, ramp_tol as rt
    out = []
    def cst(x):
        it = []
        for i in range(x.n):
            for b, g in (('o', 'f'), ('p', 'g')): it.append(('%s[%d]' % (b, i), [], T.feq_or_nan(x.o(b, i), fop('fmul', x.i('a', i), x.s(g)))))
        return it
    def rmp(c, n, w):
        d = {}
        for i in range(n):
            for b, g, h in (('o', 'f', 'd'), ('p', 'g', 'e')):
                a = {('a[%d]' % i,): Q(1)}
                tol = rt(w, g, h, i); 
                d[(b, i)] = (R.pmul(a, rp(g, h, i)), R.pmul(a, {m: 2 * v for m, v in tol.items()}))
        return d
    for F in types:
        t = F[0]; O = [Buf('o', 'out'), Buf('p', 'out'), Buf('a', 'in')]
        for form in FORMS:
            for N in ([None] if form != 'N' else [m * BLOCK[F] for m in ((1, 3, 4) if tier == 'quick' else (1, 2, 3, 5))]):
                fn = {'vec': 'pan2_vec(%s, n)', 'simd': 'pan2_vec_simd(%s, n)', 'N': 'pan2_vec_simd<%s>(%%s)' % N}[form]
                k = dict(form=form, fixedn=N, fam='pan')
                out.append((_mk('pan_c_%s%s_%s' % (form, N or '', t), F, O, 'nova::' + fn % 'o, p, a, f, g' + ';', ['f', 'g'], **k), cst, None))
                out.append((_mk('pan_r_%s%s_%s' % (form, N or '', t), F, O, 'nova::' + fn % 'o, p, a, f, d, g, e' + ';', ['f', 'd', 'g', 'e'], **k), None, rmp))
    return out

# ---------------------------------------------------------------- limiters (C13)
def sp_clip_b(w, o, a):
    v, lo, hi = a
    return notnan(v, lo, hi) + [fcmp('fle', lo, hi)], T.conj([fcmp('fle', lo, o), fcmp('fle', o, hi), T.or_(T.bnot(T.and_(fcmp('fle', lo, v), fcmp('fle', v, hi))), fcmp('feq', o, v))])
def sp_clip2_b(w, o, a):
    v, l = a; lo = T.fneg(l)
    return notnan(v, l) + [fcmp('fle', T.const(w, 0), l)], T.conj([fcmp('fle', lo, o), fcmp('fle', o, l), T.or_(T.bnot(T.and_(fcmp('fle', lo, v), fcmp('fle', v, l))), fcmp('feq', o, v))])
def sp_softclip(w, o, a):
    x = a[0]; ab = T.fabs(x)
    return notnan(x), T.feq_or_nan(o, ite(fcmp('flt', ab, T.fconst(w, 0.5)), x, fop('fdiv', fop('fsub', ab, T.fconst(w, 0.25)), x)))
def sp_softclip_b(w, o, a):
    x = a[0]; ab = T.fabs(x)
    return [fcmp('flt', ab, T.const(w, 0x7f800000 if w == 32 else 0x7ff0000000000000))], T.conj([fcmp('fle', T.fabs(o), T.fconst(w, 1.0)), T.or_(fcmp('feq', o, T.const(w, 0)), T.eq(T.extract(o, w - 1, w - 1), T.extract(x, w - 1, w - 1)))])

# ---------------------------------------------------------------- low-level helpers (C21)
def util_calls():
    out = []; U = SIMD_CFG; F = 'float'
    for nm, bits in (('gen_sign_mask', 0x80000000), ('gen_abs_mask', 0x7fffffff), ('gen_one', 0x3f800000), ('gen_05', 0x3f000000), ('gen_025', 0x3e800000)):
        def sp(x, b=bits): return [('lane %d' % i, [], T.eq(x.o('o', i), T.const(32, b))) for i in range(4)]
        out.append(_mk('u_' + nm, F, [Buf('o', 'out', 4)], '_mm_storeu_ps(o, nova::detail::%s());' % nm, spec=sp, has_n=False, only=U, fam='util'))
    for nm, k in (('extract_0', 0), ('extract_3', 3)):
        def sp(x, k=k): return [('value', [], T.eq(x.ret, x.i('a', k)))]
        out.append(_mk('u_' + nm, F, [Buf('a', 'in', 4)], 'return nova::detail::%s(_mm_loadu_ps(a));' % nm, ret=True, spec=sp, has_n=False, only=U, fam='util'))
    for nm, mx in (('horizontal_min', False), ('horizontal_max', True)):
        def sp(x, mx=mx): return extreme(x, x.ret, [x.i('a', k) for k in range(4)], mx)
        out.append(_mk('u_' + nm, F, [Buf('a', 'in', 4)], 'return nova::detail::%s(_mm_loadu_ps(a));' % nm, ret=True, spec=sp, has_n=False, only=U, fam='util'))
    def sel(x):
        it = []
        for i in range(4):
            m = x.i('c', i)
            it.append(('lane %d' % i, [T.or_(T.eq(m, T.const(32, 0)), T.eq(m, allones(32)))], T.eq(x.o('o', i), ite(T.eq(m, T.const(32, 0)), x.i('a', i), x.i('b', i)))))
        return it
    out.append(_mk('u_select', F, [Buf('o', 'out', 4), Buf('a', 'in', 4), Buf('b', 'in', 4), Buf('c', 'in', 4)], '_mm_storeu_ps(o, nova::detail::select_vector(_mm_loadu_ps(a), _mm_loadu_ps(b), _mm_loadu_ps(c)));', spec=sel, has_n=False, only=U, fam='util'))
    return out

# ---------------------------------------------------------------- symmetry and edges (C14): f(x, term builder g) where g(sub) substitutes
TRIG_ODD = ['sin', 'tan', 'asin', 'atan', 'tanh']

def at_(x, t, old, new):
    """value of term t with input variable old replaced (symbolic runs); concrete runs already carry the value"""
    return T.substitute(t, {old: new}) if old.op == 'var' else t
def sym_pair_calls(forms=('simd', 'N', 'V')):
    """f(a) and f(-a) side by side"""
    out = []
    def derive(vals, sc): vals['b'] = [v ^ 0x80000000 for v in vals['a']]
    for fam in TRIG_ODD + ['cos']:
        def spec(x, fam=fam):
            it = []
            for i in range(x.n):
                a, b = x.i('a', i), x.i('b', i)
                q = at_(x, x.o('p', i), b, T.fneg(a)); o = x.o('o', i)
                it.append(('%s(-x) at %d' % (fam, i), [], T.feq_or_nan(q, T.fneg(o) if fam != 'cos' else o)))
            return it
        B = [Buf('o', 'out'), Buf('p', 'out'), Buf('a', 'in'), Buf('b', 'in')]
        for form in forms:
            if form == 'simd': body = 'nova::%s_vec_simd(o, a, n); nova::%s_vec_simd(p, b, n);' % (fam, fam)
            elif form == 'N': body = 'nova::%s_vec_simd<16>(o, a); nova::%s_vec_simd<16>(p, b);' % (fam, fam)
            else: body = 'typedef nova::vec<F> V; V x, y; x.load(a); y.load(b); V r = %s(x); V s = %s(y); r.store(o); s.store(p);' % (fam, fam)
            out.append(_mk('sy_%s_%s' % (fam, form), 'float', B, body, spec=spec, form=form, fixedn=16 if form == 'N' else None, has_n=form == 'simd', only=SIMD_CFG, fam=fam,
                           aligned=form != 'V', lens=[16], derive=derive))
    return out
def gtc(x, v): return fcmp('flt', T.fconst(32, v), x)
def edge_specs():
    c = lambda v: T.fconst(32, v); Z = T.const(32, 0); nan = T.fisnan
    sgn = lambda t: T.extract(t, 31, 31)
    S = {}
    S['asin'] = S['acos'] = [lambda o, x: ([gtc(T.fabs(x), 1.0)], fcmp('feq', o, Z)), lambda o, x: ([nan(x)], nan(o))]
    S['atan'] = [lambda o, x: ([nan(x)], nan(o))]
    S['tanh'] = [lambda o, x: ([gtc(T.fabs(x), 22.0)], fcmp('feq', o, ite(sgn(x), c(-1.0), c(1.0)))), lambda o, x: ([nan(x)], nan(o))]
    S['exp'] = [lambda o, x: ([fcmp('flt', x, c(-88.0))], fcmp('feq', o, Z)), lambda o, x: ([gtc(x, 88.7229)], T.eq(o, T.const(32, 0x7f7fffff))), lambda o, x: ([nan(x)], nan(o))]
    S['signed_sqrt'] = [lambda o, x: (notnan(x), T.or_(fcmp('feq', o, Z), T.eq(sgn(o), sgn(x)))), lambda o, x: (notnan(x), T.bnot(nan(o)))]
    return S
def edge_calls():
    out = []
    for fam, l in edge_specs().items():
        def spec(x, l=l):
            it = []
            for i in range(x.n):
                for k, f in enumerate(l):
                    asm, p = f(x.o('o', i), x.i('a', i)); it.append(('o[%d] edge %d' % (i, k), asm, p))
            return it
        out.append(_mk('ed_%s_simd' % fam, 'float', [Buf('o', 'out'), Buf('a', 'in')], 'nova::%s_vec_simd(o, a, n);' % fam, spec=spec, form='simd', only=SIMD_CFG, fam=fam, lens=[16]))
        out.append(_mk('ed_%s_N' % fam, 'float', [Buf('o', 'out'), Buf('a', 'in')], 'nova::%s_vec_simd<16>(o, a);' % fam, spec=spec, form='N', fixedn=16, only=SIMD_CFG, fam=fam))
        out.append(vcall('ed_%s' % fam, 'float', 'a', '%s(x)' % fam, spec, only=SIMD_CFG))
    def powz(x):
        return [('pow(0,y) at %d' % i, [T.eq(T.fabs(x.i('a', i)), T.const(32, 0))], fcmp('feq', x.o('o', i), T.const(32, 0))) for i in range(x.n)]
    def spowz(x):
        it = [('spow(0,y) at %d' % i, [T.eq(T.fabs(x.i('a', i)), T.const(32, 0))], fcmp('feq', x.o('o', i), T.const(32, 0))) for i in range(x.n)]
        # sign of the base, given that pow of |base| is not negative (C14/C17: exp is non-negative)
        for i in range(x.n):
            a = x.i('a', i)
            it.append(('sign of spow at %d' % i, [fcmp('flt', a, T.const(32, 0))], T.extract(x.o('o', i), 31, 31)))
        return it
    def spows(x):
        it = []
        for i in range(x.n):
            a = x.i('a', i); P = at_(x, x.o('p', i), x.i('c', i), T.fabs(a)); sg = lambda t: T.extract(t, 31, 31)
            it.append(('sign of spow at %d' % i, notnan(a) + [T.bnot(sg(P)), T.bnot(T.fisnan(P))], T.or_(fcmp('feq', x.o('o', i), T.const(32, 0)), T.eq(sg(x.o('o', i)), sg(a)))))
            it.append(('magnitude of spow at %d' % i, notnan(a) + [T.bnot(sg(P))], T.or_(T.eq(T.fabs(x.o('o', i)), T.fabs(P)), T.and_(T.fisnan(P), T.fisnan(x.o('o', i))))))
        return it
    def derive(vals, sc): vals['c'] = [v & 0x7fffffff for v in vals['a']]
    AB = [Buf('o', 'out'), Buf('a', 'in'), Buf('b', 'in')]
    for form in ('simd', 'N'):
        nn = dict(form=form, fixedn=16 if form == 'N' else None, only=SIMD_CFG, lens=[16])
        f = lambda s: '%s_vec_simd(%%s, n);' % s if form == 'simd' else '%s_vec_simd<16>(%%s);' % s
        out.append(_mk('ed_pow_' + form, 'float', AB, 'nova::' + f('pow') % 'o, a, b', spec=powz, fam='pow', **nn))
        out.append(_mk('ed_spow_' + form, 'float', AB, 'nova::' + f('spow') % 'o, a, b', spec=spowz, fam='spow', **nn))
        out.append(_mk('ed_spows_' + form, 'float', [Buf('o', 'out'), Buf('p', 'out'), Buf('a', 'in'), Buf('b', 'in'), Buf('c', 'in')], 'nova::' + f('spow') % 'o, a, b' + ' nova::' + f('pow') % 'p, c, b', spec=spows, fam='spow', derive=derive, **nn))
    return out
