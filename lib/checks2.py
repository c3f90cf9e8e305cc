"""Relational and memory-safety checks."""
import os
import terms as T, engine as E, build, catalog as C, rel, loops
from engine import Check
from checks import prop, CF, cf, add_validation, LENS
SIMD = ['sse2', 'sse41', 'avx']

def ew_all(tier, types=('float', 'double'), arith=True, other=True, kindf=None):
    out = []
    kf = kindf or (lambda ar: {1: ['p'], 2: ['pp', 'ps', 'sp'], 3: ['ppp', 'pss', 'spp'], 4: ['pppp', 'psps']}[ar] if tier == 'quick' else C.kinds_for(ar, True))
    fams = (list(C.ARITH) if arith else []) + ((C.UNARY_OTHER + C.BINARY_OTHER) if other else [])
    return C.ew_family(fams, tier, types=types, kindf=kf, ns=(3, 4) if tier == 'quick' else (1, 2, 3, 5))
def lens_of(c, g, tier):
    l = c.lens('quick', g)
    if tier == 'quick': return l[-1:] if c.form != 'vec' or not c.has_n else [l[0], l[-1]]
    return c.lens('thorough', g) if c.form in ('simd', 'V') else [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33] if c.has_n and c.fixedn is None else l
def compile_(ck, calls, cfgs, kinds=('light',)):
    h = build.Harness(calls, cfgs, kinds).compile()
    if h.dropped: ck.extra['not_compiled'] = h.dropped
    return h
def live(c, g): return c.on(g) and c.chunk is not None and g in c.chunk.ll

@prop('C20')
def c20(tier):
    ck = Check('C20', tier, {'configs': cf(tier), 'lengths': 'vectorised 1 and 3 blocks, compile-time 3 blocks, scalar 5, 17', 'values': 'all bit patterns'},
               ['sign of zero and NaN payload ignored', 'min, max, clip, sign: non-NaN operands', 'inner nodes are merged up to NaN payload'])
    exact = dict(C.ARITH); ex = list(C.ARITH) + ['floor', 'ceil', 'trunc', 'frac', 'signed_sqrt', 'undenormalize', 'softclip']
    sps = {k: v[1] for k, v in C.ARITH.items()}; sps.update({'floor': C.ROUNDF['floor'], 'ceil': C.ROUNDF['ceil'], 'trunc': C.ROUNDF['trunc'], 'frac': C.ROUNDF['frac'], 'signed_sqrt': C.sp_ssqrt, 'undenormalize': C.sp_undenorm, 'softclip': C.sp_softclip})
    calls = [c for c in ew_all(tier) if c.fam in ex]
    tr = [f for f in C.UNARY_OTHER + C.BINARY_OTHER if f not in ex and f not in ('round', 'reciprocal')]
    calls2 = [c for c in ew_all(tier, types=('float',), arith=False) if c.fam in tr and c.form != 'vec']
    mem = [c for c in C.mem_calls(tier, ns=(3, 4) if tier == 'quick' else None)]
    compile_(ck, calls + calls2 + mem, cf(tier))
    def asmf(c):
        sp = sps.get(c.fam)
        if sp is None: return None
        def f(x, i):
            a = [x.i(C.A[j], i) if k == 'p' else x.s('s' + C.A[j]) for j, k in enumerate(c.kinds)]
            return sp(x.w, x.c(0.0), a)[0]
        return f
    for c in calls + mem:
        gs = [g for g in cf(tier) if live(c, g) and not (g == 'fma' and c.fam == 'muladd')]
        if len(gs) < 2: continue
        for n in ([5, 17] if c.form == 'vec' else [E.BLOCK[c.F], 3 * E.BLOCK[c.F]] if c.form == 'simd' else [c.fixedn]): ck.task(rel.isa_task, c, gs, n, asmf(c))
    for c in calls2:
        gs = [g for g in (SIMD if tier == 'quick' else SIMD + ['fma']) if live(c, g)]
        if len(gs) < 2: continue
        for n in ([16] if c.form == 'simd' else [c.fixedn]): ck.task(rel.isa_task, c, gs, n)
    loops.add(ck, calls + calls2 + mem, cf(tier))
    ck.run()
    return ck.finish()

@prop('C22')
def c22(tier):
    ck = Check('C22', tier, {'configs': cf(tier), 'lengths': 'per call all of: vectorised 1..3 blocks, scalar 1,2,3,5,8,17; compile-time 1 and 3 blocks compared', 'values': 'all bit patterns'}, ['NaN payload ignored'])
    calls = ew_all(tier)
    compile_(ck, calls, cf(tier))
    for c in calls:
        for g in cf(tier):
            if live(c, g): ck.task(rel.indep_task, c, g, c.lens('quick', g) if tier == 'quick' else lens_of(c, g, tier))
    loops.add(ck, calls, cf(tier))
    ck.run()
    return ck.finish()

def inplace_aliases(c):
    if c.fam == 'pan': return [{'a': 'o'}, {'a': 'p'}]
    ins = [b.name for b in c.bufs if b.role == 'in']
    if not ins: return []
    l = [{k: 'o'} for k in ins]
    if len(ins) > 1: l.append({k: 'o' for k in ins})
    return l
@prop('C04')
def c04(tier):
    ck = Check('C04', tier, {'configs': cf(tier), 'lengths': 'vectorised 3 blocks, compile-time 3 blocks, scalar 1 and 17 (thorough: more)', 'values': 'all bit patterns', 'aliasing': 'output identical to each input, to all inputs; panning: input identical to either output'}, ['NaN payload ignored'])
    kf = lambda ar: {1: ['p'], 2: ['pp', 'ps', 'sp', 'pr'], 3: ['ppp', 'psp', 'pss', 'prr'], 4: ['pppp', 'psps', 'prpr']}[ar]
    calls = [c for c in ew_all(tier, kindf=kf) if not ('r' in c.kinds and c.fam in ('pow', 'spow'))] + [c for c in C.mem_calls(tier, ns=(3, 4) if tier == 'quick' else None) if c.fam == 'addvec'] + [c for c, _, _ in C.pan_calls(tier)]
    compile_(ck, calls, cf(tier))
    for c in calls:
        for g in cf(tier):
            if not live(c, g): continue
            for n in lens_of(c, g, tier):
                for al in inplace_aliases(c): ck.task(rel.alias_task, c, g, n, al)
    loops.add(ck, calls, cf(tier), aliases=inplace_aliases)
    ck.run()
    return ck.finish()

def everything(tier):
    q = 'quick' if tier == 'quick' else 'thorough'
    kf = lambda ar: {1: ['p'], 2: ['pp', 'ps', 'sp', 'pr'], 3: ['ppp', 'sss', 'prp'], 4: ['pppp', 'psps', 'prpr']}[ar]
    l = [c for c in ew_all(tier, kindf=kf if tier == 'quick' else None) if not ('r' in c.kinds and c.fam in ('pow', 'spow'))]
    if tier != 'quick': l += C.ramp_calls('quick')
    l += C.mem_calls(tier, ns=(3, 4) if tier == 'quick' else None) + [c for c, _ in C.fill_calls(tier)] + [c for c, _, _ in C.pan_calls(tier)] + [c for c, _, _ in C.red_calls(tier)] + [c for c, _, _ in C.meter_calls(tier)]
    return list({c.id: c for c in l}.values())
def vectype(): return C.vec_op_calls() + C.vec_io_calls() + [c for c, _ in C.vec_ramp_calls()] + C.util_calls()

@prop('C23')
def c23(tier):
    ck = Check('C23', tier, {'configs': cf(tier), 'lengths': 'vectorised 3 blocks, compile-time 3 blocks, scalar 17', 'history': 'one earlier call of the same function, or of any other function that writes a global this one reads; no global write: any history', 'values': 'all bit patterns'}, ['NaN payload ignored'])
    calls = everything(tier) + vectype()
    compile_(ck, calls, cf(tier))
    for c in calls:
        for g in cf(tier):
            if live(c, g):
                for n in lens_of(c, g, 'quick')[-1:]: ck.task(rel.state_task, c, g, n)
    ck.run()
    # cross-function histories: writers of a global against readers of it
    if not ck.viol:
        by = {}
        for r in ck.results:
            for o in r.get('writes', []) or []: by.setdefault((r['cfg'], o), ([], []))[0].append((r['call'], r['n']))
        for r in ck.results:
            for o in set(r.get('reads', [])) | ({'@mxcsr'} if 'reads' in r else set()):
                if (r['cfg'], o) in by: by[(r['cfg'], o)][1].append((r['call'], r['n']))
        ck.extra['globals_written'] = sorted('%s %s' % k for k in by)
        todo = []
        for (g, o), (ws, rs) in by.items():
            for wc, wn in ws[:2]:
                for rc, rn in rs:
                    if rc != wc: todo.append((C.BYID[wc], C.BYID[rc], g, wn, rn))
        todo = todo[:60]
        mods = {}
        for wc, rc, g, wn, rn in todo: mods.setdefault((wc.id, rc.id), (wc, rc))
        for (a, b), (wc, rc) in list(mods.items()):
            h = build.Harness([wc, rc], [t[2] for t in todo if t[0] is wc and t[1] is rc]).compile() if False else None
        idx = 1000
        for wc, rc, g, wn, rn in todo:
            idx += 1
            ck.task(pair_compiled, wc, rc, g, wn, rn, idx)
        ck.run()
    return ck.finish()
def pair_compiled(wc, rc, g, wn, rn, idx):
    ch = build.Chunk(idx, [wc, rc]); r = build.cc_ir(ch.src(g), g, ('light',))
    if isinstance(r, str): return {'status': 'unsupported', 'call': rc.id, 'cfg': g, 'notes': [r[-200:]], 'stats': {}}
    ch.ll[g] = r; wc.chunk = rc.chunk = ch
    return rel.pair_task(None, wc, rc, g, wn, rn)

@prop('C03')
def c03(tier):
    ck = Check('C03', tier, {'configs': cf(tier), 'lengths': 'vectorised 1..3 blocks, compile-time 3 blocks, scalar 1,2,3,5,8,17', 'values': 'all bit patterns', 'memory': 'every load and store of the unoptimised IR'},
               ['accesses are judged on clang IR before optimisation; documented alignment only'])
    calls = everything(tier)
    compile_(ck, calls, cf(tier), ('raw', 'light'))
    for c in calls:
        for g in cf(tier):
            if not live(c, g): continue
            ln = c.lens('quick', g)
            if tier == 'quick' and c.form == 'vec' and c.has_n: ln = [1, 3, 8]
            if tier == 'quick' and c.form == 'simd': ln = [ln[0], ln[-1]]
            if tier != 'quick': ln = lens_of(c, g, tier)
            for n in ln: ck.task(rel.safe_task, c, g, n)
    loops.add(ck, calls, cf(tier), kinds=('raw', 'light'), safe=True)
    ck.run()
    return ck.finish()
