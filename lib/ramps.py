"""Ramped arguments and fills: real-arithmetic decision plus exact-rational oracle for replay."""
import itertools, random, time
from fractions import Fraction as Q
import terms as T, fpeval as fe, solve, symex, engine as E, build
import realdom as R
from realdom import U

K = 4            # tolerance multiple
def ramp_poly(r, d, i): 
    p = {(r,): Q(1)}
    if i: p[(d,)] = Q(i)
    return p
def ramp_tol(w, r, d, i): return {(r,): K * (i + 2) * U[w], (d,): K * (i + 2) * (i + 1) * U[w]}

# exact value and magnitude of each family
def _cmp(f): return (lambda *a: Q(1) if f(*a) else Q(0), lambda *a: Q(0))
def _clip(v, lo, hi): return max(lo, min(hi, v))
REAL = {
 'plus': (lambda a, b: a + b, lambda a, b: abs(a) + abs(b)), 'minus': (lambda a, b: a - b, lambda a, b: abs(a) + abs(b)),
 'times': (lambda a, b: a * b, lambda a, b: abs(a * b)), 'over': (lambda a, b: a / b, lambda a, b: abs(a / b)),
 'min': (min, lambda a, b: abs(a) + abs(b)), 'max': (max, lambda a, b: abs(a) + abs(b)),
 'less': _cmp(lambda a, b: a < b), 'less_equal': _cmp(lambda a, b: a <= b), 'greater': _cmp(lambda a, b: a > b), 'greater_equal': _cmp(lambda a, b: a >= b),
 'equal': _cmp(lambda a, b: a == b), 'notequal': _cmp(lambda a, b: a != b),
 'clip2': (lambda v, l: _clip(v, -l, l), lambda v, l: abs(v) + abs(l)), 'sum': (lambda a, b: a + b, lambda a, b: abs(a) + abs(b)),
 'clip': (_clip, lambda v, a, b: abs(v) + abs(a) + abs(b)), 'muladd': (lambda a, b, c: a * b + c, lambda a, b, c: abs(a * b) + abs(c)),
 'ampmod': (lambda s, m, k: s * (1 + m * k), lambda s, m, k: abs(s) * (1 + abs(m * k))), 'sum3': (lambda a, b, c: a + b + c, lambda a, b, c: abs(a) + abs(b) + abs(c)),
 'mix': (lambda x, f, y, g: x * f + y * g, lambda x, f, y, g: abs(x * f) + abs(y * g)), 'sum4': (lambda *a: sum(a), lambda *a: sum(abs(x) for x in a)),
}

def hull(w, fam, kinds, vals, sc, i):
    """interval allowed for output i (None: not specified for these inputs)"""
    f, mag = REAL[fam]
    corners = []
    for j, k in enumerate(kinds):
        n = 'abcd'[j]
        if k == 'p': b = vals[n][i]; corners.append([b])
        elif k == 's': corners.append([sc['s' + n]])
        else:
            r, d = sc['r' + n], sc['d' + n]
            if not (fe.isfinite(w, r) and fe.isfinite(w, d)): return None
            r, d = fe.to_frac(w, r), fe.to_frac(w, d)
            t = 2 * K * (i + 2) * U[w] * (abs(r) + (i + 1) * abs(d))
            x = r + i * d
            corners.append([x - t, x, x + t]); continue
        if not fe.isfinite(w, corners[-1][0]): return None
        corners[-1] = [fe.to_frac(w, corners[-1][0])]
    lim = Q(10) ** (30 if w == 32 else 200)
    lo = hi = None; m = Q(0)
    if fam == 'over' and min(corners[1]) <= 0 <= max(corners[1]): return None
    if fam == 'clip' and max(corners[1]) > min(corners[2]): return None
    if fam == 'clip2' and min(corners[1]) < 0: return None
    if fam in ('equal', 'notequal') and any(len(c) > 1 for c in corners):
        a, b = corners
        if not (max(a) < min(b) or max(b) < min(a)): return None
    for c in itertools.product(*corners):
        if any(abs(x) > lim or (x and abs(x) < 1 / lim) for x in c): return None
        v = f(*c); lo = v if lo is None else min(lo, v); hi = v if hi is None else max(hi, v); m = max(m, mag(*c))
    if m and (m > lim or m < 1 / lim): return None
    e = 8 * U[w] * m
    return lo - e, hi + e

def oracle(call, n, vals, sc, out):
    """indices of the outputs outside what the ramp definition allows"""
    w = call.w; bad = []
    for i in range(n):
        h = hull(w, call.fam, call.kinds, vals, sc, i)
        if h is None: continue
        o = out['o'][i]
        if not fe.isfinite(w, o): bad.append((i, 'not finite')); continue
        v = fe.to_frac(w, o)
        if not h[0] <= v <= h[1]: bad.append((i, '%.9g not in [%.9g, %.9g]' % (float(v), float(h[0]), float(h[1]))))
    return bad

def rand_inputs(call, n, rng, mode=0):
    w = call.w
    def rv():
        s = rng.choice((1.0, -1.0)) if mode % 2 else 1.0
        return fe.bits(w, s * rng.uniform(0.1, 4) * (1 + rng.random() * 1e-9))
    vals = {b.name: [rv() for _ in range(b.len(n))] for b in call.bufs}
    sc = {}
    for s in call.scalars:
        v = rv()
        if s[0] == 'd': v = fe.bits(w, rng.choice([0.0, 1.0, -1.0, 0.01, 1 / 3.0, -0.37, 1e-4]) if mode else rng.uniform(-1, 1))
        sc[s] = v
    if call.fam == 'clip':
        for k, nm in ((1, 'b'), (2, 'c')):
            for key in ('s' + nm, 'r' + nm):
                if key in sc: sc[key] = fe.bits(w, (-1 if k == 1 else 1) * rng.uniform(30, 60))
            if nm in vals: vals[nm] = [fe.bits(w, (-1 if k == 1 else 1) * rng.uniform(30, 60)) for _ in vals[nm]]
        for s in sc:
            if s[0] == 'd' and s[1] in 'bc': sc[s] = fe.bits(w, rng.uniform(-.2, .2))
    return vals, sc

def search(call, cfg, n, oracle, envs=(), tries=24, seed=1, rand=rand_inputs):
    """native runs looking for an input that breaks the oracle"""
    rng = random.Random(seed)
    tr = []
    for e in envs: tr.append(E.inputs_from_env(call, n, e))
    for k in range(tries): tr.append(rand(call, n, rng, k))
    for vals, sc in tr:
        try: out, ret, can = E.native(call, cfg, n, vals, sc)
        except build.Crash as ex: return {'confirmed': True, 'observed': 'native run: %s' % ex, 'inputs': E.show_inputs(call, vals, sc)}
        except RuntimeError: return None
        bad = oracle(call, n, vals, sc, out) if oracle.__code__.co_argcount == 5 else oracle(call, n, vals, sc, out, ret)
        if bad: return {'confirmed': True, 'observed': bad[:4], 'inputs': E.show_inputs(call, vals, sc), 'outputs': {k: ['%#x' % v for v in l] for k, l in out.items()}, 'ret': ret}
    return None

def cond_env(conds, ms=6000):
    """an input that satisfies the branch conditions, of ordinary magnitude if there is one"""
    vs = T.leaves(conds, ('var',)); c = lambda t, v: T.fconst(t.w, v)
    for lo, hi in ((0.05, 8.0), (1e-6, 1e6), (None, None)):
        ex = []
        for v in vs:
            if v.w not in (32, 64): continue
            a = T.fabs(v)
            if lo is None: ex.append(T.fcmp('flt', a, T.const(v.w, fe.INF[v.w])))
            else: ex.append(T.or_(T.fcmp('feq', a, c(v, 0.0)), T.and_(T.fcmp('fle', c(v, lo), a), T.fcmp('fle', a, c(v, hi)))))
        st, env = solve.check('fp', list(conds) + ex, ms)
        if st == 'sat': return env
    return None if st == 'unsat' else {}

def split_cases(roots, limit=32, only=None):
    """[(conditions, roots under them)]: case distinction on the conditions of selects whose arms are different polynomials"""
    done = []; todo = [((), tuple(roots))]
    while todo and len(done) + len(todo) <= limit:
        pc, rs = todo.pop()
        memo = {}; R.analyse(list(rs), memo)
        pick = None
        for t in T.postorder(list(rs)):
            if t.op == 'ite' and memo.get(t.id) is None and not T.is_c(t.args[0]) and (only is None or only(t.args[0])): pick = t.args[0]; break
        if pick is None: done.append((pc, rs)); continue
        for val in (True, False):
            k = T.true() if val else T.false()
            m = {pick: k}
            done_rs = tuple(T.substitute(r, m) for r in rs)
            todo.append((pc + ((pick if val else T.bnot(pick)),), done_rs))
    return done + todo

def case_envs(roots, names):
    """inputs that drive the code through each of its data-independent branches"""
    only = lambda c: all(v.p in names for v in T.leaves([c], ('var',)))
    envs = []
    for pc, _ in split_cases(roots, 24, only):
        if pc:
            e = cond_env(pc)
            if e: envs.append(e)
    return envs

def zero_envs(roots, limit=8):
    """inputs that make a divisor in the computation zero: the one place where an expression that is right over the
    reals (a quotient of polynomials) can differ from the polynomial it simplifies to"""
    envs = []; seen = set()
    for t in T.postorder(list(roots)):
        if t.op != 'fdiv' or T.is_c(t.args[1]) or t.args[1].id in seen: continue
        seen.add(t.args[1].id)
        e = cond_env([T.fcmp('feq', t.args[1], T.fconst(t.w, 0.0))], 3000)
        if e: envs.append(e)
        if len(seen) >= limit: break
    return envs

def ramp_task(call, cfg, n):
    """element-wise function with ramped arguments"""
    t0 = time.time(); solve.reset_stats()
    res = {'call': call.id, 'cfg': cfg, 'n': n, 'status': 'proved', 'notes': []}
    try: r = E.sym_run(call, cfg, n)
    except symex.Unsupported as ex:
        res.update(status='unsupported', notes=[str(ex)]); return E.finish(res, t0)
    res.update(steps=r.steps, paths=r.forks + 1, funcs=r.funcs)
    if r.dead: res.update(status='unsupported', notes=['no path returns']); return E.finish(res, t0)
    from catalog import ARITH
    sp = ARITH[call.fam][1]; w = call.w
    outs = r.out['o']; memo = {}
    R.analyse(outs, memo)
    items = []; weak = False
    ri = [j for j, k in enumerate(call.kinds) if k == 'r']
    for i in range(n):
        cand = {j: [] for j in ri}
        for t in T.postorder([outs[i]]):
            v = memo.get(t.id)
            if v is None or t.op == 'const' or t.w != w: continue
            for j in ri:
                rn, dn = 'r' + 'abcd'[j], 'd' + 'abcd'[j]
                if v.p == ramp_poly(rn, dn, i) and R.lra_within(v, ramp_poly(rn, dn, i), ramp_tol(w, rn, dn, i)) == 'proved': cand[j].append(t)
        if not all(cand.values()): weak = True; res['notes'].append('o[%d]: no subterm is the ramp value' % i); break
        ps = []; asm = []
        for combo in itertools.islice(itertools.product(*[c[-3:] for c in cand.values()]), 27):
            m = dict(zip(cand, combo))
            a = [m[j] if k == 'r' else (r.x.i('abcd'[j], i) if k == 'p' else r.x.s('s' + 'abcd'[j])) for j, k in enumerate(call.kinds)]
            am, p = sp(w, outs[i], a)
            ps.append(p if not am else T.or_(T.bnot(T.conj(am)), p))
        pred = T.disj(ps)
        if all(len(c) == 1 for c in cand.values()):
            # the ramp value stands for an arbitrary number from here on
            pred = T.substitute(pred, {c[0]: T.var('R!' + 'abcd'[j], w) for j, c in cand.items()})
        items.append(('o[%d]' % i, asm, pred))
    res['items'] = n
    envs = []
    if not weak:
        vs = solve.decide(items, fp=False, npts=20000)
        if not vs: return E.finish(res, t0)
        for v in vs: envs += [e for e in v.envs if e]; res['notes'].append('%s: %s' % (v.label, v.note or v.how))
    if weak: envs += zero_envs(outs) + case_envs(outs, set(call.scalars))
    bad = search(call, cfg, n, oracle, envs[:24])
    if bad: res.update(status='violation', replay=bad, label='o%s' % (bad['observed'][0][0] if isinstance(bad['observed'], list) else ''))
    else: res['status'] = 'undecided'
    return E.finish(res, t0)

def poly_task(call, cfg, n, expect, orc, rand=rand_inputs, kind='light', want_ret=False):
    """outputs that are polynomials of the inputs: expect(call, n, w) -> {(buf, i) or 'ret': (poly, tol)}; orc: replay oracle"""
    t0 = time.time(); solve.reset_stats()
    res = {'call': call.id, 'cfg': cfg, 'n': n, 'status': 'proved', 'notes': []}
    try: r = E.sym_run(call, cfg, n, kind)
    except symex.Unsupported as ex:
        res.update(status='unsupported', notes=[str(ex)]); return E.finish(res, t0)
    res.update(steps=r.steps, paths=r.forks + 1, funcs=r.funcs)
    exp = expect(call, n, call.w)
    ok = not r.dead; envs = []
    if ok:
        keys = list(exp); roots = [r.ret if k == 'ret' else r.out[k[0]][k[1]] for k in keys]
        solve.STATS['terms'] += len(keys); res['items'] = len(keys)
        pv = R.analyse(roots)
        cs = [((), roots)] if all(v is not None for v in pv) else split_cases(roots)
        if len(cs) > 1: res['cases'] = len(cs)
        for pc, rs in cs:
            bad = None
            for k, v in zip(keys, R.analyse(list(rs))):
                if v is None: bad = '%s: outside the polynomial domain' % (k,); break
                q = R.lra_within(v, exp[k][0], exp[k][1])
                if q != 'proved': bad = '%s: %s' % (k, q); break
            if not bad: continue
            if pc:
                ev = cond_env(pc)
                if ev is None: continue        # no finite input takes this path
                envs.append(ev)
            res['notes'].append(bad); ok = False
        if not ok: envs = zero_envs(roots) + envs
    if ok: return E.finish(res, t0)
    bad = search(call, cfg, n, orc, envs[:32], rand=rand)
    if bad: res.update(status='violation', replay=bad, label=str(res['notes'][:1]))
    else: res['status'] = 'undecided'
    return E.finish(res, t0)

def expect_oracle(expect, slack=2, retkey=False):
    """replay oracle that evaluates the expected polynomials exactly"""
    def orc(call, n, vals, sc, out, ret):
        w = call.w; env = {}
        for b in call.bufs:
            for i, v in enumerate(vals[b.name]):
                env['%s[%d]' % (b.name, i)] = v
        env.update(sc)
        if not all(fe.isfinite(w, v) for v in env.values()): return []
        q = {k: fe.to_frac(w, v) for k, v in env.items()}
        def ev(p, a=False):
            s = Q(0)
            for m, c in p.items():
                x = c
                for v in m: x *= abs(q[v]) if a else q[v]
                s += x
            return s
        bad = []
        lim = Q(10) ** (30 if w == 32 else 250)
        for k, (p, tol) in expect(call, n, w).items():
            o = ret if k == 'ret' else out[k[0]][k[1]]
            e = ev(p); t = slack * ev(tol, True)
            if ev(R.pabs(p), True) > lim: continue
            t += Q(1, 10 ** 36) if w == 32 else Q(1, 10 ** 290)
            if not fe.isfinite(w, o): bad.append((str(k), 'not finite')); continue
            if abs(fe.to_frac(w, o) - e) > t: bad.append((str(k), '%.9g expected %.9g +- %.3g' % (float(fe.to_frac(w, o)), float(e), float(t))))
        return bad
    return orc
