"""One function per property: builds the harness, lists the tasks, runs them."""
import os, sys
import terms as T, fpeval as fe, solve
import engine as E
from engine import Check, Call, Buf, spec_task, validate_task
import build, catalog as C, ramps as RP, loops

CF = ['sse2', 'sse41', 'avx', 'gen']
CFX = CF + ['fma', 'sse1']      # further builds: AVX with fused multiply-add, SSE without SSE2
def cf(tier): return CF if tier == 'quick' else CFX
CHECKS = {}
def prop(pid):
    def d(f): CHECKS[pid] = f; return f
    return d

def vcount(tier): return 60 if tier == 'quick' else 300

def add_validation(ck, calls, cfgs, tier, count=None):
    import random
    rng = random.Random(ck.seed)
    pairs = [(c, g) for c in calls for g in cfgs if c.on(g) and c.chunk is not None and g in c.chunk.ll]
    # group by chunk so that few native objects are built
    ch = sorted({(c.chunk.idx, g) for c, g in pairs})
    rng.shuffle(ch); ch = set(ch[:8 if tier == 'quick' else 24])
    pairs = [p for p in pairs if (p[0].chunk.idx, p[1]) in ch]
    rng.shuffle(pairs)
    for c, g in pairs[:count or vcount(tier)]:
        ck.task(validate_task, c, g, c.lens('quick', g)[-1], seed=ck.seed)

def bounded(ck, calls, cfgs, tier, spec=None, **kw):
    h = build.Harness(calls, cfgs).compile()
    if h.dropped: ck.extra['not_compiled'] = h.dropped
    for c in calls:
        for g in cfgs:
            if not c.on(g) or g not in c.chunk.ll: continue
            for n in c.lens(tier, g): ck.task(spec_task, c, g, n, spec=spec, **kw)
    return h

@prop('C01')
def c01(tier):
    ck = Check('C01', tier, {'lengths': 'scalar 1,2,3,5,8,17; vectorised 1..3 blocks; compile-time 1 and 3 blocks (thorough: more)', 'configs': CFX, 'values': 'all bit patterns'},
               ['min/max/clip: non-NaN operands; clip with low<=high, limit>=0', '+0 equals -0, NaN payload and sign ignored'])
    calls = C.ew_family(list(C.ARITH), tier, full=(tier != 'quick'))
    bounded(ck, calls, CFX, tier)
    loops.add(ck, calls, CFX)
    add_validation(ck, calls, CFX, tier)
    ck.run()
    return ck.finish()

def std(pid, tier, calls, bounds, assumptions, cfgs=CFX, val=None, sym=True, **kw):
    ck = Check(pid, tier, dict({'configs': list(cfgs)}, **bounds), assumptions)
    bounded(ck, calls, cfgs, tier, **kw)
    if sym: loops.add(ck, calls, cfgs)
    add_validation(ck, calls, cfgs, tier, val)
    ck.run()
    return ck.finish()

LENS = 'scalar 1,2,3,5,8,17; vectorised 1..3 blocks; compile-time 1 and 3 blocks (thorough: scalar 1..19,31,32,33,64,65; vectorised 1,2,3,4,5,8 blocks; compile-time 1..5 blocks)'
@prop('C05')
def c05(tier):
    return std('C05', tier, C.mem_calls(tier), {'lengths': LENS, 'values': 'all bit patterns'}, ['additions: NaN payload/sign and sign of zero ignored'])

@prop('C07')
def c07(tier):
    return std('C07', tier, C.vec_op_calls(), {'lanes': 'all lanes of one vector', 'values': 'all bit patterns'}, ['arithmetic results: NaN payload/sign and sign of zero ignored', 'min/max: non-NaN operands', 'select: mask lanes all ones or zero'], cfgs=CFX)

def poly_tasks(ck, pairs, cfgs, tier, rand=None):
    """pairs: [(call, expect)] already compiled"""
    for c, e in pairs:
        for g in cfgs:
            if not c.on(g) or g not in c.chunk.ll: continue
            for n in c.lens(tier, g): ck.task(RP.poly_task, c, g, n, e, RP.expect_oracle(e), **({'rand': rand} if rand else {}))

@prop('C06')
def c06(tier):
    ck = Check('C06', tier, {'configs': CFX, 'lanes': 'all lanes of one vector', 'values': 'all bit patterns (ramps: all reals, standard rounding model)'}, ['ramps: no overflow or underflow'])
    calls = C.vec_io_calls(); pr = C.vec_ramp_calls()
    h = build.Harness(calls + [c for c, _ in pr], CFX).compile()
    if h.dropped: ck.extra['not_compiled'] = h.dropped
    for c in calls:
        for g in CFX:
            if c.on(g) and g in c.chunk.ll:
                for n in c.lens(tier, g): ck.task(spec_task, c, g, n)
    poly_tasks(ck, pr, CFX, tier)
    add_validation(ck, calls, CFX, tier)
    ck.run()
    return ck.finish()

@prop('C02')
def c02(tier):
    ck = Check('C02', tier, {'configs': cf(tier), 'lengths': LENS, 'values': 'all reals under the standard rounding model (ramp value); all bit patterns (use of the ramp value)'},
               ['no overflow or underflow in the ramp', 'tolerance 4*(i+2)*u*(|start|+(i+1)*|slope|), u = half unit in the last place of 1; exponential ramps 4*(i+2)*u relative'])
    calls = C.ramp_calls(tier); fills = C.fill_calls(tier)
    h = build.Harness(calls + [c for c, _ in fills], cf(tier)).compile()
    if h.dropped: ck.extra['not_compiled'] = h.dropped
    for c in calls:
        for g in cf(tier):
            if not c.on(g) or g not in c.chunk.ll: continue
            ln = c.lens(tier, g)
            for n in ln if tier != 'quick' else ln[-2:]: ck.task(RP.ramp_task, c, g, n)
    poly_tasks(ck, fills, cf(tier), tier)
    loops.add(ck, calls + [c for c, _ in fills], cf(tier))
    add_validation(ck, calls, cf(tier), tier)
    ck.run()
    return ck.finish()

def recip_task(call, cfg, n):
    """single-precision vectorised reciprocal: Newton step on the hardware estimate"""
    import time, solve, realdom, symex
    from fractions import Fraction as Q
    t0 = time.time(); solve.reset_stats()
    res = {'call': call.id, 'cfg': cfg, 'n': n, 'status': 'proved', 'notes': []}
    try: r = E.sym_run(call, cfg, n)
    except symex.Unsupported as ex:
        res.update(status='unsupported', notes=[str(ex)]); return E.finish(res, t0)
    res.update(steps=r.steps, paths=r.forks + 1, funcs=r.funcs)
    outs = r.out['o'] if not r.dead else []
    ok = not r.dead; seen = {}; solve.STATS['terms'] += len(outs); res['items'] = len(outs)
    for i, o in enumerate(outs):
        lv = T.leaves([o])
        if [t.p for t in lv] != ['a[%d]' % i]: ok = False; res['notes'].append('o[%d] depends on %s' % (i, [t.p for t in lv])); break
        if not any(t.op == 'rcp' for t in T.postorder([o])):
            vs = solve.decide([('o[%d]' % i,) + C.sp_recip(32, o, (lv[0],))])
            q = 'not proved' if vs else 'proved'
        else:
            k = solve.canon_key([o])
            if k not in seen: seen[k] = realdom.rcp_query(o, Q(5, 10 ** 7))
            q = seen[k]
        if q != 'proved': ok = False; res['notes'].append('o[%d]: %s' % (i, q)); break
    if ok: return E.finish(res, t0)
    import fpeval as fe, random
    def orc(call, n, vals, sc, out, ret):
        bad = []
        for i in range(n):
            x = vals['a'][i]
            if not 0x00800000 <= x & 0x7fffffff <= 0x7e800000: continue
            if not fe.isfinite(32, out['o'][i]) or abs(fe.to_frac(32, out['o'][i]) * fe.to_frac(32, x) - 1) > Q(5, 10 ** 7): bad.append((i, hex(x), hex(out['o'][i])))
        return bad
    def rnd(call, n, rng, k):
        return {b.name: [fe.bits(32, rng.choice((1, -1)) * rng.uniform(1, 2) * 2.0 ** rng.choice((rng.randint(-100, 100), 0, 1, 2, 10))) if rng.random() < .8 else rng.choice((0x3f800000, 0x3f000000, 0x00800000, 0x7e800000, 0x40400000)) for _ in range(n)] for b in call.bufs}, {}
    bad = RP.search(call, cfg, n, orc, (), tries=60, rand=rnd)
    if bad: res.update(status='violation', replay=bad, label='o%s' % bad['observed'][0][0] if isinstance(bad['observed'], list) else 'crash')
    else: res['status'] = 'undecided'
    return E.finish(res, t0)

@prop('C08')
def c08(tier):
    ck = Check('C08', tier, {'configs': CFX, 'lengths': LENS, 'values': 'all bit patterns; single-precision vectorised reciprocal: standard rounding model for 2^-100 <= |x| <= 2^100'},
               ['hardware reciprocal estimate has relative error at most 1.5*2^-12 (Intel/AMD manuals)', 'NaN input unspecified'])
    calls = C.unary_calls(C.HELP, tier, vec=[('abs', C.sp_abs), ('sign', C.sp_sgn), ('undenormalize', C.sp_undenorm), ('signed_sqrt', C.sp_ssqrt), ('reciprocal', C.sp_recip)])
    for F in ('float', 'double'): calls.append(C.vcall('sqrt', F, 'a', 'sqrt(x)', C.lanes(lambda x, i: C.sp_sqrt(x.w, x.o('o', i), (x.i('a', i),))[1]), only=C.SIMD_CFG))
    h = build.Harness(calls, CFX).compile()
    if h.dropped: ck.extra['not_compiled'] = h.dropped
    for c in calls:
        for g in CFX:
            if not c.on(g) or g not in c.chunk.ll: continue
            for n in c.lens(tier, g):
                if 'reciprocal' in c.id and c.F == 'float' and g != 'gen' and c.form != 'vec': ck.task(recip_task, c, g, n)
                else: ck.task(spec_task, c, g, n)
    loops.add(ck, calls, CFX)
    add_validation(ck, calls, CFX, tier)
    ck.run()
    return ck.finish()

@prop('C09')
def c09(tier):
    calls = C.unary_calls(C.ROUNDF, tier, vec=list(C.ROUNDF.items()))
    return std('C09', tier, calls, {'lengths': LENS, 'values': 'all bit patterns'}, ['NaN input unspecified; sign of zero ignored'], fp_ms=120000)

def triple(pid, tier, triples, bounds, assumptions, rand=None, extra_tasks=None, **kw):
    ck = Check(pid, tier, dict({'configs': CFX}, **bounds), assumptions)
    calls = [c for c, _, _ in triples]
    h = build.Harness(calls, CFX).compile()
    if h.dropped: ck.extra['not_compiled'] = h.dropped
    for c, sp, e in triples:
        for g in CFX:
            if not c.on(g) or g not in c.chunk.ll: continue
            for n in c.lens(tier, g):
                if sp: ck.task(spec_task, c, g, n, spec=sp, **kw)
                if e: ck.task(RP.poly_task, c, g, n, e, RP.expect_oracle(e), **({'rand': rand} if rand else {}))
    if extra_tasks: extra_tasks(ck)
    loops.add(ck, calls, CFX)
    add_validation(ck, calls, CFX, tier)
    ck.run()
    return ck.finish()

@prop('C10')
def c10(tier):
    return triple('C10', tier, C.red_calls(tier), {'lengths': 'scalar 1,2,3,5,8,17; vectorised 1..3 blocks', 'values': 'min/max: all non-NaN bit patterns; sums: all reals, standard rounding model'},
                  ['sums: no overflow or underflow; tolerance 2*(n+4)*u*sum|x|'])
@prop('C11')
def c11(tier):
    return triple('C11', tier, C.meter_calls(tier), {'lengths': 'scalar 1,2,3,5,8,17; vectorised 1..3 blocks', 'values': 'peak: all non-NaN bit patterns; squared sum: all reals, standard rounding model'},
                  ['previous peak non-negative', 'squared sum: no overflow or underflow; tolerance 2*(n+4)*u*(|old|+sum x^2)'])
@prop('C12')
def c12(tier):
    return triple('C12', tier, C.pan_calls(tier), {'lengths': LENS, 'values': 'constant gains: all bit patterns; ramps: all reals, standard rounding model'}, ['ramps: no overflow or underflow; tolerance 8*(i+2)*u*|in|*(|gain|+(i+1)*|slope|)'])

@prop('C13')
def c13(tier):
    ck = Check('C13', tier, {'configs': cf(tier), 'lengths': LENS, 'values': 'all bit patterns'}, ['non-NaN input, low <= high, limit >= 0', 'division of a by b with |a| <= |b| is at most 1 in magnitude (monotonicity of rounding, used as an axiom)'])
    tr = []
    for F in ('float', 'double'):
        for form in C.FORMS:
            for N in ([None] if form != 'N' else [m * C.BLOCK[F] for m in ((1, 3, 4) if tier == 'quick' else (1, 2, 3, 5))]):
                for k in C.kinds_for(3, True): tr.append((C.ew_call('clip', k, F, form, N, C.ARITH['clip'][1]), [C.elem_spec(k, C.sp_clip_b)]))
                for k in C.kinds_for(2, True): tr.append((C.ew_call('clip2', k, F, form, N, C.ARITH['clip2'][1]), [C.elem_spec(k, C.sp_clip2_b)]))
                tr.append((C.ew_call('softclip', 'p', F, form, N, None), [C.elem_spec('p', C.sp_softclip), C.elem_spec('p', C.sp_softclip_b)]))
    calls = [c for c, _ in tr]
    h = build.Harness(calls, cf(tier)).compile()
    if h.dropped: ck.extra['not_compiled'] = h.dropped
    for c, sps in tr:
        for g in cf(tier):
            if not c.on(g) or g not in c.chunk.ll: continue
            for n in c.lens(tier, g):
                for sp in sps: ck.task(spec_task, c, g, n, spec=sp, fp_ms=60000)
    loops.add(ck, calls, cf(tier))
    add_validation(ck, calls, cf(tier), tier)
    ck.run()
    return ck.finish()

@prop('C21')
def c21(tier):
    return std('C21', tier, C.util_calls(), {'values': 'all bit patterns'}, ['horizontal min/max: non-NaN lanes', 'select: mask lanes all ones or zero'], cfgs=['sse2', 'sse41', 'avx', 'sse1'])

_LEM = {}
def sign_lemmas(pred):
    """proved facts about the sign of computed values that are combined with a sign bit by a bitwise or: positive between the
    branch limits (Taylor models, as in C17), NaN for NaN (solver)"""
    import tm
    out = []
    nodes = T.postorder([pred]); cand = []
    def arms(t):
        if t.op == 'ite': return arms(t.args[1]) + arms(t.args[2])
        return [t] if t.op in ('fadd', 'fsub', 'fmul', 'fdiv') else []
    for t in nodes:
        if t.op == 'or' and t.w == 32: cand += [m for x in t.args for m in arms(x)]
    lim = sorted({abs(fe.pyval(32, x.p)) for t in nodes if t.op in ('flt', 'fle') for x in t.args if T.is_c(x) and fe.isfinite(32, x.p)} - {0.0})
    if not lim: return out
    for m in {m.id: m for m in cand}.values():
        lv = T.leaves([m], ('var',))
        if len(lv) != 1 or lv[0].w != 32: continue
        x = lv[0]; ax = T.fabs(x); key = (solve.canon_key([m]), tuple(lim))
        if key not in _LEM:
            segs = [(tm.positive(m, x.p, 32, a, b), a, b) for a, b in list(zip(lim, lim[1:]))[:6]]; cells = sum(k[0] for k in segs)
            nan = solve.check('fp', [T.fisnan(x), T.bnot(T.fisnan(m))], 8000)[0] == 'unsat'
            solve.STATS['lemma_cells'] = solve.STATS.get('lemma_cells', 0) + cells
            # holds for the magnitude; the term has to be even for the negative side
            y = T.substitute(m, {x: T.fneg(x)})
            even = y is m or not solve.decide([('even', [], T.eq(y, m))], fp=False, npts=2000)
            _LEM[key] = ([k[1:] for k in segs if k[0] and even], nan)
        pos, nan = _LEM[key]
        for lo, hi in pos:
            inr = T.and_(T.fcmp('fle', T.fconst(32, lo), ax), T.fcmp('fle', ax, T.fconst(32, hi)))
            out.append(T.or_(T.bnot(inr), T.fcmp('flt', T.const(32, 0), m)))
        if nan: out.append(T.or_(T.bnot(T.fisnan(x)), T.fisnan(m)))
    return out

@prop('C14')
def c14(tier):
    calls = C.sym_pair_calls() + C.edge_calls()
    return std('C14', tier, calls, {'lengths': 'one block (16) run-time and compile-time length, one vector', 'values': 'all bit patterns'}, ['sign of zero and NaN payload ignored'], cfgs=['sse2', 'sse41', 'avx', 'fma'], fp_ms=30000, lemma=sign_lemmas)
