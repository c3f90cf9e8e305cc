"""Relational checks: two symbolic runs compared (aliasing, instruction sets, positions, call histories) and memory safety."""
import os, time, random
import numpy as np
import terms as T, fpeval as fe, solve, symex, engine as E, build
import catalog as C

def same(a, b, strict=True):
    """bit-identical, or both NaN; not strict: also +0 = -0"""
    if a is b: return T.true()
    if not strict: return T.feq_or_nan(a, b)
    return T.or_(T.eq(a, b), T.and_(T.fisnan(a), T.fisnan(b)))

def differ(w, a, b, strict=True):
    if a == b or (fe.isnan(w, a) and fe.isnan(w, b)): return False
    if not strict and (a | b) & T.mask(w - 1) == 0: return False
    return True

# ------------------------------------------------------------------------------------------ sweeping: merge equal inner nodes first
def sweep(a, b, tries=6, fp_ms=60000):
    """rewrite a so that inner nodes proved equal to nodes of b (cut at shared nodes) become those nodes.
    Merging is up to the payload of NaNs."""
    for _ in range(tries):
        if a is b: return a
        A = T.postorder([a]); B = T.postorder([b]); sb = {t.id for t in B}; sa = {t.id for t in A}
        shared = sa & sb
        oa = [t for t in A if t.id not in shared and t.w in (32, 64)]
        ob = [t for t in B if t.id not in shared and t.w in (32, 64)]
        if not oa or not ob: return a
        names = {t.p: t.w for t in T.leaves([a, b], ('var',))}
        rng = np.random.default_rng(7); N = 4000
        env = solve.sample_env(names, N, rng)
        try: va = solve.np_eval(oa + ob, env, N)
        except TypeError: return a
        key = {}
        def sig(t, v):
            f = v.view(solve.FT[t.w]); v = v.copy(); v[np.isnan(f)] = fe.QNAN[t.w]; return (t.w, v.tobytes())
        for t, v in zip(ob, va[len(oa):]): key.setdefault(sig(t, v), t)
        done = False
        for t, v in zip(oa, va):
            u = key.get(sig(t, v))
            if u is None: continue
            # cut both at shared nodes
            m = cut([t, u], shared)
            x, y = T.substitute([t, u], m)
            vs = solve.decide([('merge', [], same(x, y))], fp_ms=fp_ms)
            if not vs:
                a = T.substitute(a, {t: u}); done = True; break
            key[sig(t, v)] = None
        if not done: return a
    return a
def cut(roots, shared):
    """{topmost shared non-constant node below the roots: fresh variable}"""
    m = {}; st = list(roots); seen = set()
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.id in shared and t.op != 'const':
            if t.op != 'var': m[t] = T.var('cut!%d' % len(m), t.w)
            continue
        st.extend(t.args)
    return m

def decide_eq(label, asm, a, b, strict=True, fp_ms=30000, twin=True):
    """verdict for a == b; sweeps when the terms differ"""
    p = same(a, b, strict)
    if a is b:
        # one node after normalisation: put the two-copy query (own inputs equal => outputs equal) to the solver all the same
        solve.STATS['terms'] += 1
        k = ('twin', solve.canon_key([a]))
        if twin and k not in solve.CACHE and len(k[1][0]) < 150:
            vs = T.leaves([a]); m = {t: T.var('%s~' % t.p, t.w) for t in vs}
            r, _ = solve.check('uf', [T.eq(t, u) for t, u in m.items()] + [T.bnot(same(a, T.substitute(a, m)))], 3000, False)
            solve.CACHE[k] = r
        return []
    vs = solve.decide([(label, asm, p)], fp=False)
    if not vs: return []
    if vs[0].status == 'cex': return vs
    a2 = sweep(a, b)
    if a2 is not a:
        v2 = solve.decide([(label, asm, same(a2, b, strict))], fp=False)
        if not v2: return []
    return solve.decide([(label, asm, p)], fp_ms=fp_ms)

def begin(call, cfg, n):
    solve.reset_stats()
    return time.time(), {'call': call.id, 'cfg': cfg, 'n': n, 'status': 'proved', 'notes': [], 'items': 0, 'steps': 0, 'paths': 0, 'funcs': []}
def acc(res, r):
    res['steps'] += r.steps; res['paths'] += r.forks + 1; res['funcs'] = sorted(set(res['funcs']) | set(r.funcs))
def unsup(res, t0, why):
    res.update(status='unsupported', notes=[str(why)]); return E.finish(res, t0)
def envs_plus(call, n, envs, seed=1, k=12):
    out = list(envs)
    rng = random.Random(seed); sp = solve.special(call.w)
    for j in range(k):
        e = {}
        for b in call.bufs:
            for i in range(b.len(n)): e['%s[%d]' % (b.name, i)] = fe.bits(call.w, rng.uniform(-3, 3)) if rng.random() < 0.7 else rng.choice(sp)
        for s in call.scalars: e[s] = fe.bits(call.w, rng.uniform(-3, 3))
        out.append(e)
    return out

# ------------------------------------------------------------------------------------------ C20: instruction sets
def isa_task(call, cfgs, n, asmf=None, strict=False):
    t0, res = begin(call, '/'.join(cfgs), n)
    runs = []
    for g in cfgs:
        try: r = E.sym_run(call, g, n)
        except symex.Unsupported as ex: return unsup(res, t0, ex)
        acc(res, r)
        if r.dead: return unsup(res, t0, 'no path returns on ' + g)
        runs.append(r)
    R0 = runs[0]
    for r, g in zip(runs[1:], cfgs[1:]):
        for b in R0.out:
            for i, (x, y) in enumerate(zip(R0.out[b], r.out[b])):
                asm = asmf(R0.x, i) if asmf else []
                res['items'] += 1
                vs = decide_eq('%s[%d] %s vs %s' % (b, i, cfgs[0], g), asm, x, y, strict)
                for v in vs:
                    if v.status == 'undecided': res['status'] = 'undecided'; res['notes'].append('%s: %s' % (v.label, v.note)); continue
                    rp = isa_replay(call, cfgs[0], g, n, v.envs, asmf, strict)
                    if rp: res.update(status='violation', replay=rp, label=v.label); return E.finish(res, t0)
                    res['status'] = 'undecided'; res['notes'].append(v.label + ': counterexample not reproduced natively')
                if len(res['notes']) > 3: return E.finish(res, t0)
    return E.finish(res, t0)
def isa_replay(call, g0, g1, n, envs, asmf, strict):
    for e in envs_plus(call, n, envs):
        vals, sc = E.inputs_from_env(call, n, e)
        try:
            o0, r0, _ = E.native(call, g0, n, vals, sc); o1, r1, _ = E.native(call, g1, n, vals, sc)
        except build.Crash as ex: return {'confirmed': True, 'observed': 'native run: %s' % ex, 'inputs': E.show_inputs(call, vals, sc)}
        except RuntimeError: return None
        x = E.concrete_x(call, g0, n, vals, sc, o0, r0)
        bad = []
        for b in call.bufs:
            if b.role == 'in': continue
            for i in range(b.len(n)):
                if asmf and not all(T.evaluate(asmf(x, i), {})): continue
                if differ(call.w, o0[b.name][i], o1[b.name][i], strict): bad.append('%s[%d]: %s %#x, %s %#x' % (b.name, i, g0, o0[b.name][i], g1, o1[b.name][i]))
        if bad: return {'confirmed': True, 'observed': bad[:4], 'inputs': E.show_inputs(call, vals, sc)}
    return None

# ------------------------------------------------------------------------------------------ C04: in-place
def alias_task(call, cfg, n, alias):
    t0, res = begin(call, cfg, n); tag = ','.join('%s=%s' % kv for kv in sorted(alias.items()))
    try: r0 = E.sym_run(call, cfg, n); r1 = E.sym_run(call, cfg, n, alias=alias)
    except symex.Unsupported as ex: return unsup(res, t0, ex)
    acc(res, r0); acc(res, r1)
    if r0.dead: return unsup(res, t0, 'no path returns')
    if r1.dead:
        rp = alias_replay(call, cfg, n, alias, [])
        if rp: res.update(status='violation', replay=rp, label='in place (%s): no normal return' % tag)
        else: res.update(status='unsupported', notes=['in-place run does not return symbolically'])
        return E.finish(res, t0)
    m = {}
    # alias: {input: output}; in the aliased run both are the storage (and initial values) of the output buffer
    for a, o in alias.items():
        for i in range(n): m[T.var('%s[%d]' % (a, i), call.w)] = T.var('%s[%d]' % (o, i), call.w)
    for b in r0.out:
        for i, x in enumerate(r0.out[b]):
            y = r1.out[b][i]; x = T.substitute(x, m); res['items'] += 1
            vs = decide_eq('in place (%s): %s[%d]' % (tag, b, i), [], x, y, twin=i < 2 or i == n - 1)
            for v in vs:
                if v.status == 'undecided': res['status'] = 'undecided'; res['notes'].append('%s: %s' % (v.label, v.note)); continue
                rp = alias_replay(call, cfg, n, alias, v.envs)
                if rp: res.update(status='violation', replay=rp, label=v.label); return E.finish(res, t0)
                res['status'] = 'undecided'; res['notes'].append(v.label + ': counterexample not reproduced natively')
            if len(res['notes']) > 3: return E.finish(res, t0)
    return E.finish(res, t0)
def alias_replay(call, cfg, n, alias, envs):
    for e in envs_plus(call, n, envs):
        e = dict(e)
        for a, o in alias.items():
            for i in range(n):
                v = e.get('%s[%d]' % (o, i), e.get('%s[%d]' % (a, i), E.default_bits(call.w, i)))
                e['%s[%d]' % (a, i)] = e['%s[%d]' % (o, i)] = v
        vals, sc = E.inputs_from_env(call, n, e)
        try: o0, r0, _ = E.native(call, cfg, n, vals, sc)
        except (build.Crash, RuntimeError): return None
        try: o1, r1, _ = E.native(call, cfg, n, vals, sc, alias=alias)
        except build.Crash as ex: return {'confirmed': True, 'observed': 'in-place native run: %s' % ex, 'inputs': E.show_inputs(call, vals, sc)}
        bad = ['%s[%d]: separate %#x, in place %#x' % (b.name, i, o0[b.name][i], o1[b.name][i]) for b in call.bufs if b.role != 'in' and b.name not in alias for i in range(n) if differ(call.w, o0[b.name][i], o1[b.name][i])]
        if bad: return {'confirmed': True, 'observed': bad[:4], 'alias': alias, 'inputs': E.show_inputs(call, vals, sc)}
    return None

# ------------------------------------------------------------------------------------------ C22: independence of other samples, position, length
def indep_task(call, cfg, lens):
    t0, res = begin(call, cfg, lens)
    gen = None; where = None
    ins = [b.name for b in call.bufs if b.role != 'out']
    outs = [b.name for b in call.bufs if b.role != 'in']
    for n in lens:
        try: r = E.sym_run(call, cfg, n)
        except symex.Unsupported as ex: return unsup(res, t0, ex)
        acc(res, r)
        if r.dead: return unsup(res, t0, 'no path returns')
        for b in outs:
            for i, x in enumerate(r.out[b]):
                own = {'%s[%d]' % (k, i) for k in ins + outs} | set(call.scalars)
                other = [t for t in T.leaves([x], ('var',)) if t.p not in own]
                y = T.substitute(x, {t: T.var(t.p + "'", t.w) for t in other}) if other else x
                res['items'] += 2
                vs = decide_eq('%s[%d] of %d depends on other samples' % (b, i, n), [], x, y)
                g = T.substitute(x, {T.var('%s[%d]' % (k, i), call.w): T.var('%s@' % k, call.w) for k in ins + outs})
                if gen is None: gen = {}
                if b not in gen: gen[b] = (g, i, n)
                elif not vs: vs = decide_eq('%s[%d] of %d differs from %s[%d] of %d on the same sample' % (b, i, n, b, gen[b][1], gen[b][2]), [], g, gen[b][0])
                for v in vs:
                    if v.status == 'undecided': res['status'] = 'undecided'; res['notes'].append('%s: %s' % (v.label, v.note)); continue
                    rp = indep_replay(call, cfg, b, i, n, gen[b], v.envs, ins)
                    if rp: res.update(status='violation', replay=rp, label=v.label); return E.finish(res, t0)
                    res['status'] = 'undecided'; res['notes'].append(v.label + ': counterexample not reproduced natively')
                if len(res['notes']) > 3: return E.finish(res, t0)
    return E.finish(res, t0)
def indep_replay(call, cfg, b, i, n, g, envs, ins):
    """native runs with the same sample at i of n: other samples changed; same sample at the reference position/length"""
    _, gi, gn = g
    rng = random.Random(1); sp = solve.special(call.w)
    tests = []
    for e in envs:
        own = {}
        for k in ins:
            for nm in ('%s@' % k, '%s[%d]' % (k, i)):
                if nm in e: own[k] = e[nm]
        e1 = {k: v for k, v in e.items() if not k.endswith("'")}; e2 = dict(e1)
        for k, v in e.items():
            if k.endswith("'"): e2[k[:-1]] = v
        tests.append((own, e1, e2))
    for j in range(40):
        own = {k: rng.choice(sp) if rng.random() < .5 else fe.bits(call.w, rng.uniform(-3, 3)) for k in ins}
        mk = lambda: {('%s[%d]' % (k, q)): rng.choice(sp) if rng.random() < .4 else fe.bits(call.w, rng.uniform(-3, 3) * 10 ** rng.uniform(-2, 2)) for k in ins for q in range(max(n, gn))}
        sc = {s: fe.bits(call.w, rng.uniform(0, 3)) for s in call.scalars}
        a, c = mk(), mk(); a.update(sc); c.update(sc); tests.append((own, a, c))
    for own, e1, e2 in tests:
        rs = []
        for e, idx, ln in ((e1, i, n), (e2, i, n), (e1, gi, gn), (e2, gi, gn)):
            e = dict(e)
            for k in ins:
                if k in own: e['%s[%d]' % (k, idx)] = own[k]
                else: own[k] = e.setdefault('%s[%d]' % (k, idx), E.default_bits(call.w, 1))
            vals, sc = E.inputs_from_env(call, ln, e)
            try: o, r, _ = E.native(call, cfg, ln, vals, sc)
            except (build.Crash, RuntimeError): return None
            rs.append((o[b][idx], idx, ln, E.show_inputs(call, vals, sc)))
        for q in rs[1:]:
            if differ(call.w, rs[0][0], q[0]):
                return {'confirmed': True, 'observed': '%s[%d] of %d = %#x but %s[%d] of %d = %#x on the same sample' % (b, rs[0][1], rs[0][2], rs[0][0], b, q[1], q[2], q[0]), 'inputs': [rs[0][3], q[3]]}
    return None

# ------------------------------------------------------------------------------------------ C23: statelessness
def state_task(call, cfg, n):
    """global variables (and the SSE control register) written by the call, and what a second call in that state returns"""
    t0, res = begin(call, cfg, n)
    try: r = E.sym_run(call, cfg, n)
    except symex.Unsupported as ex: return unsup(res, t0, ex)
    acc(res, r)
    if r.dead: return unsup(res, t0, 'no path returns')
    res['reads'] = sorted(o.name for o in r.e.globs.values() if not o.ro); res['items'] = 1
    w = {}
    for o, off, pc in r.e.gwrites: w[o.name] = T.or_(w.get(o.name, T.false()), pc)
    # is a write reachable at all
    q = T.disj(list(w.values()))
    vs = solve.decide([('writes a global', [], T.bnot(q))], fp=False)
    if not vs: res['writes'] = []; return E.finish(res, t0)
    res['writes'] = sorted(w)
    # second call after the first, in the same memory: must compute what a fresh call computes
    nm = {b.name: b.name + '2' for b in call.bufs}; nm.update({s: s + '2' for s in call.scalars})
    try:
        e2 = r.e; r2 = E.sym_run(call, cfg, n, names=nm, st=r.st, e=e2)
    except symex.Unsupported as ex: return unsup(res, t0, ex)
    acc(res, r2)
    m = {}
    for b in call.bufs:
        for i in range(b.len(n)): m[T.var('%s[%d]' % (b.name, i), call.w)] = T.var('%s[%d]' % (nm[b.name], i), call.w)
    for s in call.scalars: m[T.var(s, call.w)] = T.var(nm[s], call.w)
    pairs = [('%s[%d]' % (b, i), x, r2.out[b][i]) for b in r.out for i, x in enumerate(r.out[b])] + ([('returned value', r.ret, r2.ret)] if call.ret else [])
    for lab, x, y in pairs:
        res['items'] += 1
        vs = decide_eq('second call: ' + lab, [], T.substitute(x, m), y)
        for v in vs:
            if v.status == 'undecided': res['status'] = 'undecided'; res['notes'].append('%s: %s' % (v.label, v.note)); continue
            rp = seq_replay(call, call, cfg, n, n, v.envs)
            if rp: res.update(status='violation', replay=rp, label=v.label); return E.finish(res, t0)
            res['status'] = 'undecided'; res['notes'].append(v.label + ': counterexample not reproduced natively')
        if len(res['notes']) > 3: break
    return E.finish(res, t0)

def pair_task(src_calls, w, r, cfg, n1, n2):
    """call w, then call r in the same memory (one module containing both)"""
    t0, res = begin(r, cfg, n2); res['call'] = '%s after %s' % (r.id, w.id)
    try:
        r0 = E.sym_run(r, cfg, n2)
        r1 = E.sym_run(w, cfg, n1, names={**{b.name: b.name + '1' for b in w.bufs}, **{s: s + '1' for s in w.scalars}})
        if r1.dead or r0.dead: return unsup(res, t0, 'dead')
        r2 = E.sym_run(r, cfg, n2, st=r1.st, e=r1.e)
    except symex.Unsupported as ex: return unsup(res, t0, ex)
    acc(res, r0); acc(res, r2)
    pairs = [('%s[%d]' % (b, i), x, r2.out[b][i]) for b in r0.out for i, x in enumerate(r0.out[b])] + ([('returned value', r0.ret, r2.ret)] if r.ret else [])
    for lab, x, y in pairs:
        res['items'] += 1
        vs = decide_eq('%s of %s after %s' % (lab, r.id, w.id), [], x, y)
        for v in vs:
            if v.status == 'undecided': res['status'] = 'undecided'; res['notes'].append('%s: %s' % (v.label, v.note)); continue
            rp = seq_replay(w, r, cfg, n1, n2, v.envs)
            if rp: res.update(status='violation', replay=rp, label=v.label); return E.finish(res, t0)
            res['status'] = 'undecided'; res['notes'].append(v.label + ': counterexample not reproduced natively')
        if len(res['notes']) > 3: break
    return E.finish(res, t0)

def seq_so(calls, cfg):
    p = os.path.join(build.work(), 'q_%s_%s.cpp' % ('_'.join(sorted({c.id for c in calls}))[:120], cfg))
    if not os.path.exists(p):
        q = p + '.%d' % os.getpid()
        build.write(q, build.head(cfg) + '\n'.join(c.code() for c in {c.id: c for c in calls}.values()) + '\n'); os.rename(q, p)
    return build.cc_so(p, cfg)
def seq_replay(w, r, cfg, n1, n2, envs, tries=20):
    """fresh process: r alone; fresh process: w then r"""
    so = seq_so([w, r], cfg)
    if so is None: return None
    rng = random.Random(1)
    for e in envs_plus(r, n2, envs, k=tries):
        pre = {}
        for b in w.bufs:
            for i in range(b.len(n1)):
                for nm in ('%s1[%d]' % (b.name, i), '%s[%d]' % (b.name, i)):
                    if nm in e: pre['%s[%d]' % (b.name, i)] = e[nm]; break
        second = {}
        for k, v in e.items():
            base = k.split('[')[0]
            if base.endswith('2') and base[:-1] in {b.name for b in r.bufs} | set(r.scalars): second[base[:-1] + k[len(base):]] = v
            elif k not in second and not base.endswith('1'): second.setdefault(k, v)
        pv, ps = E.inputs_from_env(w, n1, pre or envs_plus(w, n1, [], seed=rng.randint(0, 9999), k=1)[0])
        v, s = E.inputs_from_env(r, n2, second)
        try:
            E.runner().close(); o0, r0, _ = E.native(r, cfg, n2, v, s, so=so)
            E.runner().close(); E.native(w, cfg, n1, pv, ps, so=so); o1, r1, _ = E.native(r, cfg, n2, v, s, so=so)
        except (build.Crash, RuntimeError): return None
        finally: E.runner().close()
        bad = ['%s[%d]: alone %#x, after the earlier call %#x' % (b.name, i, o0[b.name][i], o1[b.name][i]) for b in r.bufs if b.role != 'in' for i in range(b.len(n2)) if differ(r.w, o0[b.name][i], o1[b.name][i])]
        if r.ret and differ(r.w, r0, r1): bad.append('returned: alone %#x, after the earlier call %#x' % (r0, r1))
        if bad: return {'confirmed': True, 'observed': bad[:4], 'first_call': w.code(), 'first_inputs': E.show_inputs(w, pv, ps), 'inputs': E.show_inputs(r, v, s)}
    return None

# ------------------------------------------------------------------------------------------ C03: memory safety
def safe_task(call, cfg, n, kind='raw'):
    t0, res = begin(call, cfg, n)
    try: r = E.sym_run(call, cfg, n, kind, max_steps=20000000)
    except symex.Unsupported as ex: return unsup(res, t0, ex)
    acc(res, r)
    kinds = {}
    for o in r.obl:
        if o.kind in ('div0',): continue
        kinds.setdefault((o.kind, o.info), []).append(o)
    res['items'] = 1 + len(kinds)
    bad = T.disj([o.pc for l in kinds.values() for o in l])
    vs = solve.decide([('memory', [], T.bnot(bad))], fp_ms=30000)
    if not vs:
        if r.dead: return unsup(res, t0, 'no path returns')
        # undefined values in outputs
        roots = [t for b in r.out for t in r.out[b]] + ([r.ret] if call.ret else [])
        und = [t for t in T.leaves(roots, ('undef',))]
        if und:
            m = {t: T.var('u%d' % k, t.w) for k, t in enumerate(und)}; m2 = {t: T.var("u%d'" % k, t.w) for k, t in enumerate(und)}
            for x in roots:
                if not any(t.op == 'undef' for t in T.postorder([x])): continue
                res['items'] += 1
                vs = decide_eq('undefined value in a result', [], T.substitute(x, m), T.substitute(x, m2))
                if vs:
                    rp = undef_replay(call, cfg, n, [e for v in vs for e in v.envs])
                    if rp: res.update(status='violation', replay=rp, label='undefined value reaches a result')
                    else: res.update(status='undecided', notes=['undefined value may reach a result; builds agree'])
                    break
        return E.finish(res, t0)
    for v in vs:
        if v.status == 'undecided': res['status'] = 'undecided'; res['notes'].append(v.note); continue
        lab = '; '.join('%s: %s' % k for k in list(kinds)[:2])
        rp = safe_replay(call, cfg, n, v.envs)
        if rp: res.update(status='violation', replay=rp, label=lab)
        else: res['status'] = 'undecided'; res['notes'].append(lab + ': not reproduced natively')
    return E.finish(res, t0)
def safe_replay(call, cfg, n, envs):
    for e in (envs or [{}])[:3]:
        vals, sc = E.inputs_from_env(call, n, e)
        for opt in ('-O0', '-O1'):
            for place in ('end', 'start', 'odd'):
                try: out, ret, canary = E.native(call, cfg, n, vals, sc, opt=opt, place=place)
                except build.Crash as ex: return {'confirmed': True, 'observed': '%s build, buffers at %s of guarded pages (inputs read-only): %s' % (opt, place, ex), 'inputs': E.show_inputs(call, vals, sc)}
                except RuntimeError: return None
                if not canary: return {'confirmed': True, 'observed': '%s build: bytes outside the buffer changed' % opt, 'inputs': E.show_inputs(call, vals, sc)}
                bad = [b.name for b in call.bufs if b.role == 'in' and out[b.name] != vals[b.name]]
                if bad: return {'confirmed': True, 'observed': 'input buffer %s modified' % bad, 'inputs': E.show_inputs(call, vals, sc)}
    return None
def undef_replay(call, cfg, n, envs):
    for e in (envs or [{}])[:3] + [{}]:
        vals, sc = E.inputs_from_env(call, n, e); seen = None
        for dirty in (False, True):
            for cc, opt in (('g++', '-O1'), ('g++', '-O0'), ('clang++', '-O0'), ('g++', '-O2'), ('clang++', '-O1')):
                so = E.so_for(call, cfg, opt, dirty=dirty, cc=cc)
                if so is None: continue
                try: o, r, _ = E.native(call, cfg, n, vals, sc, so=so)
                except build.Crash: continue
                z = [v for b in call.bufs if b.role != 'in' for v in o[b.name]] + ([r] if call.ret else [])
                if seen is None: seen = z
                elif any(differ(call.w, p, q) for p, q in zip(seen, z)):
                    return {'confirmed': True, 'observed': 'result depends on the build / register contents: %s vs %s (%s %s)' % ([hex(v) for v in seen][:8], [hex(v) for v in z][:8], cc, opt), 'inputs': E.show_inputs(call, vals, sc)}
    return None
