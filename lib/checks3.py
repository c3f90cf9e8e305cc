"""Accuracy checks (C15 - C18): Taylor-model encoding of the real code, non-linear real arithmetic queries."""
import math, random, time
import mpmath
import terms as T, fpeval as fe, solve, symex, engine as E, build, catalog as C, tm, rel
from engine import Check
from checks import prop, CFX as CF, add_validation
import loops
SIMD = ['sse2', 'sse41', 'avx', 'fma']
mp = mpmath.MPContext(); mp.prec = 140
L2 = mp.log(2); L10 = mp.log(10)

# family: exact function (oracle), Taylor expansion (prover)
FN = {
 'sin': (mp.sin, tm.spec_sin), 'cos': (mp.cos, lambda c, h: tm.spec_sin(c, h, True)), 'tan': (mp.tan, tm.spec_tan),
 'asin': (mp.asin, tm.spec_asin), 'acos': (mp.acos, tm.spec_acos), 'atan': (mp.atan, tm.spec_atan), 'tanh': (mp.tanh, tm.spec_tanh),
 'exp': (mp.exp, tm.affine_exp(1, 1, 0)), 'log': (mp.log, tm.affine_log(0, 1, 1)),
 'log2': (lambda x: mp.log(x) / L2, tm.affine_log(0, 1 / L2, 1)), 'log10': (lambda x: mp.log(x) / L10, tm.affine_log(0, 1 / L10, 1)),
 'midi2freq': (lambda x: 440 * mp.exp((x - 69) / 12 * L2), tm.affine_exp(440, L2 / 12, -69 * L2 / 12)),
 'freq2midi': (lambda x: 69 + 12 * mp.log(abs(x) / 440) / L2, tm.affine_log(69, 12 / L2, mp.mpf(1) / 440)),
 'midi2ratio': (lambda x: mp.exp(x / 12 * L2), tm.affine_exp(1, L2 / 12, 0)),
 'ratio2midi': (lambda x: 12 * mp.log(x) / L2, tm.affine_log(0, 12 / L2, 1)),
 'oct2freq': (lambda x: 440 * mp.exp((x - mp.mpf('4.75')) * L2), tm.affine_exp(440, L2, -mp.mpf('4.75') * L2)),
 'freq2oct': (lambda x: mp.mpf('4.75') + mp.log(abs(x) / 440) / L2, tm.affine_log(mp.mpf('4.75'), 1 / L2, mp.mpf(1) / 440)),
 'amp2db': (lambda x: 20 * mp.log(abs(x)) / L10, tm.affine_log(0, 20 / L10, 1)),
 'db2amp': (lambda x: mp.exp(x / 20 * L10), tm.affine_exp(1, L10 / 20, 0)),
}
TINY = 2.0 ** -149; MAXF = 3.4028234663852886e38
# what must hold: family -> [(relative, absolute, smallest |x|, largest |x|, signs)]
BOTH = (0, 1); POS = (0,)
C15F = {'sin': [(5e-7, 0, TINY, 3.0, BOTH), (0, 2e-7, 0.0, 100.0, BOTH)], 'cos': [(0, 2e-7, 0.0, 100.0, BOTH)], 'tan': [(5e-7, 0, TINY, 1.5, BOTH)]}
C16F = {'asin': [(5e-7, 0, TINY, 1.0, BOTH)], 'acos': [(0, 5e-7, 0.0, 1.0, BOTH)], 'atan': [(5e-7, 0, TINY, MAXF, BOTH)]}
C17F = {'exp': [(5e-7, 0, 0.0, 88.0, POS), (5e-7, 0, 0.0, 87.0, (1,))], 'log': [(5e-7, 0, 2.0 ** -126, MAXF, POS)], 'tanh': [(5e-7, 0, TINY, MAXF, BOTH)]}
def c18f(t, t2, u):
    return {'log2': [(t2, 0, 2.0 ** -126, MAXF, POS)], 'log10': [(t2, 0, 2.0 ** -126, MAXF, POS)],
            'midi2freq': [(t, 0, 0.0, 128.0, POS)], 'midi2ratio': [(t, 0, 0.0, 128.0, BOTH)], 'oct2freq': [(t, 0, 0.0, 12.0, POS)], 'db2amp': [(t, 0, 0.0, 100.0, BOTH)],
            'freq2midi': [(u, u, 1.0, 1e5, BOTH)], 'ratio2midi': [(u, u, 1e-5, 1e5, POS)], 'freq2oct': [(u, u, 1.0, 1e5, BOTH)], 'amp2db': [(u, u, 1e-5, 1e5, BOTH)]}
C18F = c18f(5e-6, 1e-6, 2e-5); C18D = c18f(1e-9, 1e-9, 1e-9)

def wrong(fam, w, rl, ab, x, o):
    """does the result o for the input x (bits) break the bound?"""
    if not fe.isfinite(w, o): return True
    q = fe.to_frac(w, x); g = fe.to_frac(w, o)
    v = FN[fam][0](mp.mpf(q.numerator) / q.denominator)
    return abs(mp.mpf(g.numerator) / g.denominator - v) > rl * abs(v) + ab
def native_fn(fam, call, cfg, rl, ab):
    """returns test(list of input bits) -> replay record of a broken bound, or None"""
    def test(xs):
        n0 = call.fixedn or (tm_len(call, cfg))
        xs = list(xs)
        if call.fixedn or call.form == 'V': xs = xs[:: max(1, len(xs) // 64)]
        step = n0 if call.fixedn or call.form == 'V' else 256
        for k in range(0, len(xs), step):
            p = xs[k:k + step]; n = step if call.fixedn or call.form == 'V' else -(-len(p) // n0) * n0
            vals = {b.name: (p + [p[0]] * (n - len(p))) if b.role == 'in' else [0] * n for b in call.bufs}
            try: out, ret, can = E.native(call, cfg, n, vals, {})
            except build.Crash as ex: return {'confirmed': True, 'observed': 'native run: %s' % ex, 'inputs': ['%#x' % v for v in p[:8]]}
            for x, o in zip(p, out['o']):
                if wrong(fam, call.w, rl, ab, x, o):
                    return {'confirmed': True, 'input': '%#x = %.9g' % (x, fe.pyval(call.w, x)), 'output': '%#x = %.9g' % (o, fe.pyval(call.w, o)), 'expected': '%s within rel %g abs %g' % (mp.nstr(FN[fam][0](mp.mpf(fe.pyval(call.w, x))), 12), rl, ab)}
        return None
    return test
def tm_len(call, cfg): return call.lens('quick', cfg)[0]

def acc_task(fam, pairs, rl, ab, lo, hi, sign, w, budget=120.0):
    """|f(x) - exact| <= rl*|exact| + ab for every x of the interval and every lane of every form"""
    t0 = time.time(); solve.reset_stats()
    c0, g0 = pairs[0]
    lab = '%s, %s%.6g..%.6g' % (fam, '-' if sign else '', lo, hi)
    res = {'call': c0.id, 'cfg': '/'.join(sorted({g for _, g in pairs})), 'n': 0, 'status': 'proved', 'notes': [], 'label': lab, 'items': 0, 'steps': 0, 'paths': 0, 'funcs': set(), 'pieces': 0, 'forms': len(pairs)}
    done = {}; i0, i1 = fe.bits(w, lo), fe.bits(w, hi)
    while fe.pyval(w, i0) < lo: i0 += 1
    while fe.pyval(w, i1) > hi: i1 -= 1
    for call, cfg in pairs:
        n = tm_len(call, cfg)
        try: r = E.sym_run(call, cfg, n)
        except symex.Unsupported as ex:
            res['notes'].append('%s %s: %s' % (call.id, cfg, ex)); res['status'] = 'undecided'; continue
        res['steps'] += r.steps; res['paths'] += r.forks + 1; res['funcs'] |= set(r.funcs)
        outs = [] if r.dead else r.out['o']
        bad = None if outs else 'no path returns'
        for i, o in enumerate(outs):
            lv = T.leaves([o], ('var', 'undef'))
            res['items'] += 1; solve.STATS['terms'] += 1
            if [t.p for t in lv] != ['a[%d]' % i]: bad = 'o[%d] depends on %s' % (i, [t.p for t in lv][:6]); break
            k = solve.canon_key([o])
            if k in done:
                if done[k]: continue
                bad = 'o[%d]: as above' % i; break
            p = tm.Prover(o, 'a[%d]' % i, w, FN[fam][1], rl, ab, test=native_fn(fam, call, cfg, rl, ab), budget=max(10.0, budget - (time.time() - t0)))
            p.run([(i0, i1, sign)])
            res['pieces'] += p.pieces; done[k] = not p.unproved and not p.found
            if p.found:
                res.update(status='violation', replay=p.found, call=call.id, cfg=cfg, n=n, label='%s o[%d]' % (lab, i)); res['funcs'] = sorted(res['funcs']); return E.finish(res, t0)
            if p.unproved:
                u = p.unproved[0]; bad = 'o[%d]: %d intervals not proved, first %.9g..%.9g (%s)' % (i, len(p.unproved), fe.pyval(w, u[0]), fe.pyval(w, u[1]), u[3]); break
        if bad:
            res['notes'].append('%s %s: %s' % (call.id, cfg, bad))
            # the encoding does not settle it: look for a failing input on the real code before giving up
            rng = random.Random(7); t = native_fn(fam, call, cfg, rl, ab)
            try: f = t([rng.randint(i0, i1) | (T.sgnbit(w) if sign else 0) for _ in range(2048)] + [fe.bits(w, rng.uniform(lo, min(hi, lo + 100.0))) & (T.sgnbit(w) - 1) | (T.sgnbit(w) if sign else 0) for _ in range(1024)])
            except RuntimeError: f = None
            if f: res.update(status='violation', replay=f, call=call.id, cfg=cfg, n=n); break
            res['status'] = 'undecided'
    res['distinct_terms'] = len(done); res['funcs'] = sorted(res['funcs'])
    return E.finish(res, t0)

LIBM = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'tanh', 'exp', 'log', 'log2', 'log10'}
DOM = {'asin': (-1, 1), 'acos': (-1, 1), 'log': (1e-6, 1e6), 'log2': (1e-6, 1e6), 'log10': (1e-6, 1e6), 'exp': (-80, 80), 'tan': (-1.5, 1.5), 'sin': (-30, 30), 'cos': (-30, 30), 'atan': (-50, 50), 'tanh': (-20, 20)}
def lib_task(call, cfg, n):
    """scalar, double and portable forms: element i is the C library function of element i"""
    t0, res = rel.begin(call, cfg, n)
    try: r = E.sym_run(call, cfg, n)
    except symex.Unsupported as ex: return rel.unsup(res, t0, ex)
    rel.acc(res, r)
    w = call.w; fam = call.fam if call.fam in LIBM else call.extra['fn']
    bad = ['no path returns'] if r.dead else []
    for i in range(0 if r.dead else n):
        res['items'] += 1; solve.STATS['terms'] += 1
        x = r.x.i('a', i); o = r.out['o'][i]
        ref = T.libm(fam, [x], w)
        vs = rel.decide_eq('o[%d]' % i, [], o, ref) if o is ref else solve.decide([('o[%d]' % i, [], T.feq_or_nan(o, ref))], fp=False, npts=0)
        if vs: bad.append('o[%d]' % i); break
    if not bad: return E.finish(res, t0)
    res['notes'] = bad
    rng = random.Random(3); lo, hi = DOM[fam]; eps = 5e-7 if w == 32 else 1e-14
    t = native_fn(fam, call, cfg, eps, 1e-30 if w == 32 else 1e-300)
    try: f = t([fe.bits(w, rng.uniform(lo, hi)) for _ in range(512)])
    except RuntimeError: f = None
    if f: res.update(status='violation', replay=f, label='%s of an element' % fam)
    else: res['status'] = 'undecided'
    return E.finish(res, t0)

def vec_fn(fam, F='float'):
    """the short-vector function itself"""
    c = C.vcall('acc_' + fam, F, 'a', '%s(x)' % fam, None, fam=fam)
    c.fam = fam
    return c

def pairs_of(calls, cfgs): return [(c, g) for c in calls for g in cfgs if c.on(g) and c.chunk is not None and g in c.chunk.ll]

def accuracy(pid, tier, table, bounds, assumptions, more=None, extra_calls=()):
    ck = Check(pid, tier, dict({'configs': CF}, **bounds), assumptions)
    ns = (1, 3, 4) if tier == 'quick' else (1, 2, 3, 5)
    calls = C.ew_family(list(table), tier, types=('float', 'double'), kindf=lambda ar: ['p'], ns=ns)
    vf = [vec_fn(f, F) for f in table if f in LIBM for F in ('float', 'double')]
    h = build.Harness(calls + vf + list(extra_calls), CF).compile()
    if h.dropped: ck.extra['not_compiled'] = h.dropped
    for fam, reqs in table.items():
        cs = [c for c in calls + vf if c.fam == fam]
        fl = pairs_of([c for c in cs if c.F == 'float' and c.form != 'vec'], SIMD)
        for rl, ab, lo, hi, signs in reqs:
            for s in signs:
                for a, b in chunks(lo, hi): ck.task(acc_task, fam, fl, rl, ab, a, b, s, 32)
        if fam in LIBM:
            for c, g in pairs_of(cs, CF):
                if c.F == 'double' or g in ('gen', 'sse1') or c.form == 'vec':
                    for n in (c.lens(tier, g) if c.form != 'simd' else c.lens('quick', g)[:2]): ck.task(lib_task, c, g, n)
    if more: more(ck, calls)
    loops.add(ck, calls + [c for c in extra_calls if not c.id.startswith("pw_")], CF)
    add_validation(ck, calls, CF, tier, 24)
    ck.run()
    ck.extra['intervals_proved'] = sum(r.get('pieces', 0) for r in ck.results); ck.extra['distinct_terms'] = sum(r.get('distinct_terms', 0) for r in ck.results)
    return ck.finish()
def chunks(lo, hi):
    """cut a wide interval so that its parts run in parallel"""
    if lo > 0 and hi / lo > 2.0 ** 40:
        a, b = math.log2(lo), math.log2(hi); k = 4
        cuts = [lo] + [2.0 ** round(a + (b - a) * i / k) for i in range(1, k)] + [hi]
        return [(cuts[i], cuts[i + 1]) for i in range(k)]
    return [(lo, hi)]

ASM = ['zero input of odd functions is covered by C14; scalar, double and portable forms use the C library (trusted)', 'rounding to nearest, no flush-to-zero']
@prop('C15')
def c15(tier):
    return accuracy('C15', tier, C15F, {'inputs': 'every float: sin, cos |x| <= 100; tan |x| <= 1.5', 'lengths': 'one vector, one block, compile-time blocks'}, ASM)
@prop('C16')
def c16(tier):
    return accuracy('C16', tier, C16F, {'inputs': 'every float: asin, acos |x| <= 1; atan all finite', 'lengths': 'one vector, one block, compile-time blocks'}, ASM)
@prop('C17')
def c17(tier):
    return accuracy('C17', tier, C17F, {'inputs': 'every float: exp -87..88; log all positive normal; tanh all finite', 'lengths': 'one vector, one block, compile-time blocks'}, ASM)

# ---------------------------------------------------------------- C18
AB = [E.Buf('o', 'out'), E.Buf('p', 'out'), E.Buf('t', 'out'), E.Buf('a', 'in'), E.Buf('b', 'in')]
def pow_calls():
    """power next to exp(y*log x) computed with the library's own exp and log"""
    out = []
    for fam in ('pow', 'spow'):
        for form in ('simd', 'N', 'V'):
            ab = 'a' if fam == 'pow' else 'p'
            if form == 'V':
                body = 'typedef nova::vec<F> V; V x, y; x.load(a); y.load(b); V r = %s(x, y); V z = %s; V e = exp(y * log(z)); r.store(o); e.store(p); z.store(t);' % ('pow' if fam == 'pow' else 'signed_pow', 'x' if fam == 'pow' else 'abs(x)')
            else:
                sfx, n = ('', ', n') if form == 'simd' else ('<16>', '')
                body = 'nova::%s_vec_simd%s(o, a, b%s); nova::%s_vec_simd%s(t, a%s); nova::log_vec_simd%s(p, t%s); nova::times_vec_simd%s(p, p, b%s); nova::exp_vec_simd%s(p, p%s);' % (fam, sfx, n, 'abs' if fam == 'spow' else 'COPY', sfx, n, sfx, n, sfx, n, sfx, n)
                body = body.replace('nova::COPY_vec_simd%s(t, a%s); nova::log_vec_simd%s(p, t%s)' % (sfx, n, sfx, n), 'nova::log_vec_simd%s(p, a%s)' % (sfx, n))
            out.append(C._mk('pw_%s_%s' % (fam, form), 'float', AB, body, form=form, fixedn=16 if form == 'N' else None, has_n=form == 'simd', only=C.SIMD_CFG, fam=fam, aligned=form != 'V', lens=[16, 48]))
    return out
def pow_task(call, cfg, n):
    t0, res = rel.begin(call, cfg, n)
    try: r = E.sym_run(call, cfg, n)
    except symex.Unsupported as ex: return rel.unsup(res, t0, ex)
    rel.acc(res, r)
    bad = ['no path returns'] if r.dead else []; envs = []
    Z = T.const(32, 0)
    for i in range(0 if r.dead else n):
        res['items'] += 1
        a = r.x.i('a', i); y = r.x.i('b', i); o, p = r.out['o'][i], r.out['p'][i]
        fin = [T.fcmp('flt', T.fabs(z), T.const(32, fe.INF[32])) for z in (a, y)]
        if call.fam == 'pow': cs = [('o[%d]' % i, [T.fcmp('flt', Z, a)] + fin, T.feq_or_nan(o, p))]
        else: cs = [('o[%d] magnitude' % i, [T.bnot(T.fcmp('feq', a, Z)), T.bnot(T.fisnan(p)), T.bnot(T.extract(p, 31, 31))] + fin, T.eq(T.fabs(o), T.fabs(p))), ('o[%d] sign' % i, [T.bnot(T.fcmp('feq', a, Z)), T.bnot(T.fisnan(p)), T.bnot(T.extract(p, 31, 31))] + fin, T.eq(T.extract(o, 31, 31), T.extract(a, 31, 31)))]
        for lab, asm, pr in cs:
            vs = solve.decide([(lab, asm, pr)], fp=False, npts=2000)
            if vs: bad.append('%s: %s' % (lab, vs[0].note or vs[0].how)); envs += [e for v in vs for e in v.envs if e]; break
        if bad: break
    if not bad: return E.finish(res, t0)
    res['notes'] = bad
    f = pow_search(call, cfg, n, envs)
    if f: res.update(status='violation', replay=f, label='%s: not x^y' % call.fam)
    else: res['status'] = 'undecided'
    return E.finish(res, t0)
def pow_bad(fam, w, x, y, o, tol):
    X, Y = fe.pyval(w, x), fe.pyval(w, y)
    if not (fe.isfinite(w, x) and fe.isfinite(w, y)) or X == 0 or fam == 'pow' and X < 0 or not 2.0 ** -126 <= abs(X): return False
    e = mp.mpf(Y) * mp.log(abs(mp.mpf(X)))
    if abs(e) > 80: return False
    v = mp.exp(e) * (-1 if X < 0 else 1)
    return not fe.isfinite(w, o) or abs(mp.mpf(fe.pyval(w, o)) - v) > tol * (1 + abs(e)) * abs(v)
def pow_search(call, cfg, n, envs, tol=1e-6, rounds=60):
    rng = random.Random(11); w = call.w
    for k in range(rounds + len(envs)):
        A = [fe.bits(w, rng.choice((rng.uniform(0, 4), 2.0 ** rng.uniform(-30, 30), 1 + rng.uniform(-1e-3, 1e-3), float(rng.randint(1, 12)), 10.0 ** rng.randint(-5, 5))) * (rng.choice((1, -1)) if call.fam == 'spow' else 1)) for _ in range(n)]
        B = [fe.bits(w, rng.choice((rng.uniform(-4, 4), float(rng.randint(-6, 6)), rng.uniform(-0.01, 0.01), rng.choice((0.5, -0.5, 1.0, 2.0, 0.0, 3.0)), rng.uniform(-40, 40)))) for _ in range(n)]
        if k < len(envs):
            for i in range(n): A[i] = envs[k].get('a[%d]' % i, A[i]); B[i] = envs[k].get('b[%d]' % i, B[i])
        vals = {b.name: [0] * n for b in call.bufs}; sc = {}
        if 'a' in vals: vals['a'] = A
        if 'b' in vals: vals['b'] = B
        if 'sa' in call.scalars: sc['sa'] = A[0]; A = [A[0]] * n
        if 'sb' in call.scalars: sc['sb'] = B[0]; B = [B[0]] * n
        try: out, ret, can = E.native(call, cfg, n, vals, sc)
        except build.Crash as ex: return {'confirmed': True, 'observed': 'native run: %s' % ex}
        except RuntimeError: return None
        for i in range(n):
            if pow_bad(call.fam, w, A[i], B[i], out['o'][i], tol):
                return {'confirmed': True, 'x': '%.9g' % fe.pyval(w, A[i]), 'y': '%.9g' % fe.pyval(w, B[i]), 'output': '%.9g' % fe.pyval(w, out['o'][i]), 'index': i}
    return None
def powlib_task(call, cfg, n):
    """forms that use the C library's pow"""
    t0, res = rel.begin(call, cfg, n)
    try: r = E.sym_run(call, cfg, n)
    except symex.Unsupported as ex: return rel.unsup(res, t0, ex)
    rel.acc(res, r); w = call.w
    bad = ['no path returns'] if r.dead else []
    arg = lambda j, i: r.x.i('ab'[j], i) if call.kinds[j] == 'p' else r.x.s('s' + 'ab'[j])
    Z = T.const(w, 0)
    for i in range(0 if r.dead else n):
        res['items'] += 1
        x, y = arg(0, i), arg(1, i); o = r.out['o'][i]
        if call.fam == 'pow': it = [('o[%d]' % i, [], T.feq_or_nan(o, T.libm('pow', [x, y], w)))]
        else:
            p = T.libm('pow', [T.fabs(x), y], w)
            it = [('o[%d]' % i, [T.bnot(T.fcmp('feq', x, Z)), T.bnot(T.fisnan(x))], T.feq_or_nan(o, T.ite(T.fcmp('flt', x, Z), T.fneg(p), p)))]
        vs = solve.decide(it, fp=False, npts=0)
        if vs: bad.append('o[%d]: %s' % (i, vs[0].note or vs[0].how)); break
    if not bad: return E.finish(res, t0)
    res['notes'] = bad
    f = pow_search(call, cfg, n, [], tol=1e-6 if w == 32 else 1e-14)
    if f: res.update(status='violation', replay=f, label='%s: not x^y' % call.fam)
    else: res['status'] = 'undecided'
    return E.finish(res, t0)

@prop('C18')
def c18(tier):
    pc = pow_calls()
    ps = C.ew_family(['pow', 'spow'], tier, kindf=lambda ar: ['pp', 'ps', 'sp'], ns=(1,) if tier == 'quick' else (1, 2, 3))
    def more(ck, calls):
        for c, g in pairs_of(pc, SIMD):
            for n in c.lens('quick', g): ck.task(pow_task, c, g, n)
        for c, g in pairs_of(ps, CF):
            if c.F == 'double' or g in ('gen', 'sse1') or c.form == 'vec':
                for n in (c.lens('quick', g) if c.form != 'simd' else c.lens('quick', g)[:2]): ck.task(powlib_task, c, g, n)
        # unit conversions that go through the C library
        for w, F, tab in ((32, 'float', C18F), (64, 'double', C18D)):
            for fam, reqs in tab.items():
                if fam in LIBM: continue
                fl = [(c, g) for c, g in pairs_of([c for c in calls if c.fam == fam and c.F == F], CF) if F == 'double' or g in ('gen', 'sse1') or c.form == 'vec']
                for rl, ab, lo, hi, signs in reqs:
                    for s in signs: ck.task(acc_task, fam, fl, rl, ab, lo, hi, s, w)
    return accuracy('C18', tier, C18F, {'inputs': 'every float/double of the audio range; log2, log10 every positive normal float; pow all positive finite bases', 'lengths': 'one vector, one block, compile-time blocks'},
                    ASM + ['C library log/exp/pow within 3 half-units in the last place', 'pow: bit equality with exp(y*log x) of the library, whose accuracy is C17'], more, pc + ps)
