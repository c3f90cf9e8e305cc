"""Calls (harness functions), their bounded symbolic runs, native replay, and the check driver."""
import os, sys, json, time, random, traceback, re, struct, signal
import multiprocessing as mp
import terms as T
import fpeval as fe
import ir, symex, solve, build

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VSIZE = {'float': {'sse2': 4, 'sse41': 4, 'avx': 8, 'gen': 4, 'fma': 8, 'sse1': 4},
         'double': {'sse2': 2, 'sse41': 2, 'avx': 4, 'gen': 4, 'fma': 4, 'sse1': 4}}
ESZ = {'float': 4, 'double': 8}
BLOCK = {'float': 16, 'double': 8}          # documented samples_per_loop

class Buf(object):
    def __init__(self, name, role, length='n', F=None):
        self.name = name; self.role = role; self.length = length      # role: in / out / inout
    def len(self, n): return n if self.length == 'n' else self.length

class Call(object):
    def __init__(self, id, F, bufs, body, scalars=(), ret=False, form='vec', fixedn=None, spec=None, fam='', kinds='', has_n=True, only=None, aligned=None, **extra):
        self.id = id; self.F = F; self.w = 8 * ESZ[F]; self.bufs = bufs; self.body = body; self.scalars = list(scalars)
        self.ret = ret; self.form = form; self.fixedn = fixedn; self.spec = spec; self.fam = fam; self.kinds = kinds
        self.has_n = has_n and fixedn is None
        self.only = only; self.off = set(); self.chunk = None
        self.aligned = aligned if aligned is not None else form in ('simd', 'N')
        self.extra = extra
    def on(self, cfg):
        return cfg not in self.off and (self.only is None or cfg in self.only)
    def sig(self):
        a = []
        for b in self.bufs: a.append('%s%s *%s' % ('const ' if b.role == 'in' else '', self.F, b.name))
        for s in self.scalars: a.append('%s %s' % (self.F, s))
        if self.has_n: a.append('unsigned int n')
        return '%s %s(%s)' % (self.F if self.ret else 'void', self.id, ', '.join(a))
    def code(self):
        return 'extern "C" %s { typedef %s F; %s }' % (self.sig(), self.F, self.body)
    def align(self, cfg, buf=None):
        e = ESZ[self.F]
        a = self.aligned if not isinstance(self.aligned, set) else (buf in self.aligned)
        return max(e, VSIZE[self.F][cfg] * e) if a else e
    def lens(self, tier, cfg=None):
        if self.fixedn is not None: return [self.fixedn]
        if self.form == 'V': return [VSIZE[self.F][cfg]] if cfg else sorted(set(VSIZE[self.F].values()))
        if not self.has_n: return [1]
        if 'lens' in self.extra:
            l = self.extra['lens']
            return l(VSIZE[self.F][cfg] if cfg else 4) if callable(l) else l
        if self.form == 'simd':
            b = BLOCK[self.F]
            return [b, 2 * b, 3 * b] if tier == 'quick' else [b * k for k in (1, 2, 3, 4, 5, 8)]
        return [1, 2, 3, 5, 8, 17] if tier == 'quick' else list(range(1, 20)) + [31, 32, 33, 64, 65]

class X(object):
    """accessor handed to specifications"""
    def __init__(self, call, n, ins, outs, scal, ret, cfg):
        self.call = call; self.n = n; self._i = ins; self._o = outs; self._s = scal; self.ret = ret; self.w = call.w; self.cfg = cfg
    def i(self, b, k): return self._i[b][k]
    def o(self, b, k): return self._o[b][k]
    def s(self, n): return self._s[n]
    def c(self, v): return T.fconst(self.w, v)

_MODS = {}
def module(path):
    m = _MODS.get(path)
    if m is None:
        m = _MODS[path] = ir.Module(open(path).read())
    return m

class Run(object): pass

def sym_run(call, cfg, n, kind='light', alias=None, misalign=False, hook=None, max_steps=3000000, names=None, st=None, e=None):
    """bounded symbolic execution; alias: {buf: other buf} maps a buffer onto the storage of another"""
    mod = module(call.chunk.ll[cfg][kind])
    if e is None: e = symex.Exec(mod, max_steps=max_steps)
    if st is None: st = e.run_ctors(symex.State())
    if hook: hook(e)
    es = ESZ[call.F]
    objs = {}; names = names or {}
    for b in call.bufs:
        if alias and b.name in alias: continue
        ro = b.role == 'in'
        if alias and ro and b.name in alias.values(): ro = False
        o = e.buffer(names.get(b.name, b.name), b.len(n) * es, es, call.align(cfg, b.name) if b.length == 'n' else es, ro)
        e.objs[o.id] = o; objs[b.name] = o
    for b in call.bufs:
        if alias and b.name in alias: objs[b.name] = objs[alias[b.name]]
    args = [symex.Ptr(objs[b.name], 0) for b in call.bufs]
    args += [T.var(names.get(s, s), call.w) for s in call.scalars]
    if call.has_n: args.append(T.const(32, n))
    r = e.call_function(st, '@' + call.id, args)
    R = Run(); R.e = e; R.objs = objs; R.call = call; R.cfg = cfg; R.n = n; R.dead = r is None
    R.obl = e.obl; R.steps = e.steps; R.forks = e.forks; R.funcs = sorted(e.funcs)
    if r is None: return R
    R.st, R.ret = r
    R.out = {b.name: [e.load_at(R.st, ('f', call.w), objs[b.name], k * es) for k in range(b.len(n))] for b in call.bufs if b.role != 'in'}
    R.ins = {b.name: [T.var('%s[%d]' % (objs[b.name].name, k), call.w) for k in range(b.len(n))] for b in call.bufs}
    R.scal = {s: T.var(names.get(s, s), call.w) for s in call.scalars}
    R.x = X(call, n, R.ins, R.out, R.scal, R.ret, cfg)
    return R

# ------------------------------------------------------------------------------------------------ native replay
_RUN = [None]
def runner():
    if _RUN[0] is None: _RUN[0] = build.Runner()
    return _RUN[0]

def dirty_prefix(cfg):
    """inline assembly that leaves recognisable garbage in the vector registers and the stack below"""
    regs = 'ymm' if cfg in ('avx', 'fma') else 'xmm'; mv = 'vmovups' if regs == 'ymm' else 'movups'
    a = ' '.join('%s %%0, %%%%%s%d;' % (mv, regs, k) for k in range(16))
    return ('{ struct D { float v[8]; }; static const D d_ = {{1.25f,2.5f,-3.5f,4.75f,5.125f,-6.5f,7.25f,8.5f}}; volatile char st_[512]; for (int i_ = 0; i_ < 512; ++i_) st_[i_] = 0x41; '
            'asm volatile("%s" :: "m"(d_) : %s, "memory"); } ' % (a, ', '.join('"xmm%d"' % k for k in range(16))))
def so_for(call, cfg, opt='-O1', whole=False, dirty=False, cc='g++'):
    if whole: return build.cc_so(call.chunk.src(cfg), cfg, opt)
    p = os.path.join(build.work(), 's%s_%s_%s.cpp' % ('d' if dirty else '', call.id, cfg))
    if not os.path.exists(p):
        q = p + '.%d' % os.getpid()
        code = call.code()
        if dirty: code = code.replace('{ typedef %s F; ' % call.F, '{ typedef %s F; %s' % (call.F, dirty_prefix(cfg)), 1)
        build.write(q, build.head(cfg) + code + '\n'); os.rename(q, p)
    return build.cc_so(p, cfg, opt, cc)

def default_bits(w, k):
    vals = [1.0, -0.75, 2.5, 0.125, -3.0, 0.5, -1.5, 7.0, -0.25, 11.0, 0.375, -5.5, 4.25, -9.0, 0.0625, 6.5, -2.25]
    return fe.bits(w, vals[k % len(vals)])

def hexof(w, l): return b''.join(struct.pack('<I' if w == 32 else '<Q', x) for x in l).hex()
def unhex(w, h):
    b = bytes.fromhex(h); s = w // 8
    return [int.from_bytes(b[i:i + s], 'little') for i in range(0, len(b), s)]

def inputs_from_env(call, n, env):
    vals = {}; k = 0
    for b in call.bufs:
        l = []
        for j in range(b.len(n)):
            v = env.get('%s[%d]' % (b.name, j))
            if v is None: v = default_bits(call.w, k); 
            k += 1
            l.append(v)
        vals[b.name] = l
    sc = {s: env.get(s, default_bits(call.w, 3 + i)) for i, s in enumerate(call.scalars)}
    if 'derive' in call.extra: call.extra['derive'](vals, sc)
    return vals, sc

def native(call, cfg, n, vals, sc, opt='-O1', place='end', ro=True, alias=None, whole=False, so=None):
    so = so or so_for(call, cfg, opt, whole)
    if so is None: raise RuntimeError('native build failed')
    args = []; idx = {}
    for b in call.bufs:
        if alias and b.name in alias:
            args.append(('alias', alias[b.name])); continue
        args.append(('buf', b))
    # aliases refer to the position of the aliased buffer: order buffers first
    req = []; pos = {}
    for j, b in enumerate(call.bufs): pos[b.name] = j
    order = []
    for j, a in enumerate(args):
        if a[0] == 'buf':
            b = a[1]; r = ro and b.role == 'in' and not (alias and b.name in alias.values())
            req.append({'t': 'buf', 'data': hexof(call.w, vals[b.name]), 'align': call.align(cfg, b.name) if b.length == 'n' else ESZ[call.F], 'place': place, 'ro': r})
        else: req.append({'t': 'alias', 'i': pos[a[1]]})
    # an alias may precede its target: swap data holder
    for j, q in enumerate(req):
        if q['t'] == 'alias' and q['i'] > j:
            k = q['i']; req[j], req[k] = req[k], {'t': 'alias', 'i': j}
    t = 'f32' if call.w == 32 else 'f64'
    for s in call.scalars: req.append({'t': t, 'bits': sc[s]})
    if call.has_n: req.append({'t': 'u32', 'v': n})
    r = runner().call({'so': so, 'fn': call.id, 'args': req, 'ret': t if call.ret else None})
    out = {}
    for j, b in enumerate(call.bufs):
        h = r['bufs'][j]
        if h is None: h = r['bufs'][req[j]['i']]
        out[b.name] = unhex(call.w, h)
    return out, r.get('ret'), r['canary']

def concrete_x(call, cfg, n, vals, sc, out, ret):
    w = call.w
    c = lambda v: T.const(w, v)
    return X(call, n, {k: [c(v) for v in l] for k, l in vals.items()}, {k: [c(v) for v in l] for k, l in out.items()},
             {k: c(v) for k, v in sc.items()}, None if ret is None else c(ret), cfg)

def eval_items(items):
    """[(label, assumes, pred)] over constants -> labels that fail"""
    bad = []
    for label, a, p in items:
        r = T.evaluate(list(a) + [p], {})
        if all(r[:-1]) and not r[-1]: bad.append(label)
    return bad

def replay_spec(call, cfg, n, env, spec, undef=False):
    """run the real code on the counterexample and evaluate the specification on what it returns"""
    if undef:
        # the result depends on an undefined value: build at several optimisation levels with garbage in the registers
        for cc, opt in (('g++', '-O1'), ('g++', '-O0'), ('clang++', '-O0'), ('g++', '-O2'), ('clang++', '-O1'), ('clang++', '-O2')):
            so = so_for(call, cfg, opt, dirty=True, cc=cc)
            if so is None: continue
            r = replay1(call, cfg, n, env, spec, so)
            if r['confirmed']: r['build'] = cc + ' ' + opt + ', vector registers and stack filled beforehand'; return r
    return replay1(call, cfg, n, env, spec)
def replay1(call, cfg, n, env, spec, so=None):
    vals, sc = inputs_from_env(call, n, env)
    try: out, ret, canary = native(call, cfg, n, vals, sc, so=so)
    except build.Crash as ex:
        return {'confirmed': True, 'observed': 'native run: %s' % ex, 'inputs': show_inputs(call, vals, sc)}
    bad = eval_items(spec(concrete_x(call, cfg, n, vals, sc, out, ret)))
    return {'confirmed': bool(bad), 'observed': bad[:6], 'inputs': show_inputs(call, vals, sc), 'outputs': {b.name: ['%#x' % v for v in out[b.name]] for b in call.bufs if b.role != 'in'}, 'ret': ret}

def show_inputs(call, vals, sc):
    d = {k: ['%#x' % v for v in l] for k, l in vals.items()}
    d.update({k: '%#x' % v for k, v in sc.items()})
    return d

# ------------------------------------------------------------------------------------------------ generic task: spec on bounded runs
def spec_task(call, cfg, n, spec=None, kind='light', fp_ms=20000, npts=40000, lemma=None):
    """decide spec(X) on a bounded symbolic run.  Returns result dict."""
    t0 = time.time()
    solve.reset_stats()
    spec = spec or call.spec
    res = {'call': call.id, 'cfg': cfg, 'n': n, 'status': 'proved', 'notes': []}
    try: R = sym_run(call, cfg, n, kind)
    except symex.Unsupported as ex:
        res.update(status='unsupported', notes=[str(ex)]); return finish(res, t0)
    except Exception as ex:
        res.update(status='unsupported', notes=['internal: %r' % ex]); return finish(res, t0)
    res.update(steps=R.steps, paths=R.forks + 1, funcs=R.funcs)
    if R.dead:
        # every path ends in an assertion/trap: show it natively
        rp = replay_spec(call, cfg, n, {}, spec)
        if rp['confirmed']: res.update(status='violation', replay=rp, label='no normal return')
        else: res.update(status='unsupported', notes=['no path returns symbolically'])
        return finish(res, t0)
    items = spec(R.x)
    res['items'] = len(items)
    und = any(t.op == 'undef' for t in T.postorder([p for _, _, p in items]))
    if lemma: items = [(l, list(a) + lemma(p), p) for l, a, p in items]
    vs = solve.decide(items, fp_ms=fp_ms, npts=npts)
    for v in vs:
        if v.status == 'undecided':
            res['status'] = 'undecided'; res['notes'].append('%s: %s' % (v.label, v.note)); continue
        ok = False
        for env in v.envs or [{}]:
            rp = replay_spec(call, cfg, n, env, spec, und)
            if rp['confirmed']:
                res.update(status='violation', replay=rp, label=v.label, how=v.how); ok = True; break
        if ok: break
        res['status'] = 'undecided'; res['notes'].append('%s: counterexample not reproduced natively' % v.label)
    return finish(res, t0)

def finish(res, t0):
    res['wall'] = round(time.time() - t0, 3)
    res['stats'] = dict(solve.STATS)
    return res

def validate_task(call, cfg, n, seed=1, rcp_ok=False):
    """translator validation: symbolic terms evaluated on concrete inputs must equal what the g++ build computes"""
    t0 = time.time(); solve.reset_stats()
    res = {'call': call.id, 'cfg': cfg, 'n': n, 'status': 'validated', 'notes': []}
    try:
        R = sym_run(call, cfg, n)
        if R.dead: raise symex.Unsupported('dead')
        roots = [t for l in R.out.values() for t in l] + ([R.ret] if call.ret else [])
        if any(t.op in ('rcp', 'undef') for t in T.postorder(roots)):
            res['status'] = 'skipped'; return finish(res, t0)
        rng = random.Random(seed)
        env = {}
        sp = solve.special(call.w)
        for t in T.leaves(roots, ('var',)):
            env[t.p] = rng.choice(sp) if rng.random() < 0.5 else fe.bits(call.w, rng.uniform(-4, 4))
        vals, sc = inputs_from_env(call, n, env)
        for b, l in vals.items():
            for k, v in enumerate(l): env['%s[%d]' % (b, k)] = v
        env.update(sc)
        ev = T.evaluate(roots, env)
        out, ret, can = native(call, cfg, n, vals, sc, whole=True)
        got = [v for b in R.out for v in out[b]] + ([ret] if call.ret else [])
        for a, b in zip(ev, got):
            if a != b and not (fe.isnan(call.w, a) and fe.isnan(call.w, b)) and not ((a | b) & (T.sgnbit(call.w) - 1) == 0):
                res['status'] = 'mismatch'; res['notes'].append('%#x vs native %#x' % (a, b)); break
    except build.Crash as ex: res['status'] = 'mismatch'; res['notes'].append('native %s' % ex)
    except Exception as ex: res['status'] = 'skipped'; res['notes'].append(repr(ex)[:200])
    return finish(res, t0)

# ------------------------------------------------------------------------------------------------ check driver
TASKS = []
class TooLong(Exception): pass
LIMIT = [200]       # seconds one task may take
def _alarm(*_): raise TooLong()
def _work(i):
    fn, a, k = TASKS[i]
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(LIMIT[0])
    try: return _work1(i, fn, a, k)
    except TooLong:
        c = a[0] if a else None
        return {'status': 'undecided', 'notes': ['stopped after %d s' % LIMIT[0]], 'call': getattr(c, 'id', str(c)[:80]), 'stats': {}, 'task': i}
    finally: signal.alarm(0)
def _work1(i, fn, a, k):
    try:
        if len(T._tab) > 1500000:
            T.reset(); solve.CACHE.clear()
        r = fn(*a, **k)
    except TooLong: raise
    except Exception as ex:
        r = {'status': 'error', 'notes': [traceback.format_exc()[-1500:]], 'call': str(a[0] if a else fn)[:80], 'stats': {}}
        if hasattr(a[0] if a else None, 'id'): r['call'] = a[0].id
    r['task'] = i
    return r

class Check(object):
    def __init__(self, pid, tier, bounds, assumptions, budget=None):
        self.pid = pid; self.tier = tier; self.bounds = bounds; self.assumptions = assumptions; self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.budget = budget or (600 if tier == 'quick' else 3000)
        self.results = []; self.viol = []; self.known = []; LIMIT[0] = 200 if tier == 'quick' else 1000
        self.extra = {}
        self.findings = load_findings(pid)
    def task(self, fn, *a, **k): TASKS.append((fn, a, k))
    def run(self, workers=8):
        n = len(TASKS)
        left = self.budget - (time.time() - self.t0)
        skipped = 0
        if n == 0: return
        ctx = mp.get_context('fork')
        pool = ctx.Pool(workers)
        try:
            it = pool.imap_unordered(_work, range(n), chunksize=1)
            done = 0
            while done < n:
                left = self.budget - (time.time() - self.t0)
                if left <= 0: break
                try: r = it.next(timeout=left)
                except mp.TimeoutError: break
                done += 1
                self.results.append(r)
                if r['status'] == 'violation': self.report(r)
                if len(self.viol) >= 12: break
            skipped = n - done
        finally:
            pool.terminate(); pool.join()
        self.extra['tasks_not_finished'] = self.extra.get('tasks_not_finished', 0) + skipped
        del TASKS[:]
    def report(self, r):
        key = '%s %s %s' % (r.get('call'), r.get('cfg'), r.get('label'))
        for pat, text in self.findings:
            if re.fullmatch(pat, key):
                if text not in self.known:
                    self.known.append(text); print('KNOWN-FINDING: property=%s %s' % (self.pid, text)); sys.stdout.flush()
                return
        d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.pid, len(self.viol) + 1))
        x = {k: v for k, v in r.items() if k not in ('stats',)}
        x['property'] = self.pid
        try:
            from catalog import BYID
            c = BYID.get(r.get('call'))
            if c is not None: x['harness'] = c.code(); x['flags'] = ' '.join(build.CFG.get(r.get('cfg'), []))
        except Exception: pass
        with open(p, 'w') as f: json.dump(x, f, indent=1, default=str)
        self.viol.append((key, p))
        if len(self.viol) <= 5:
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            print('  %s cfg=%s n=%s: %s' % (r.get('call'), r.get('cfg'), r.get('n'), r.get('label'))); sys.stdout.flush()
    def finish(self):
        st = {}
        for r in self.results: st[r['status']] = st.get(r['status'], 0) + 1
        S = {}
        for r in self.results:
            for k, v in (r.get('stats') or {}).items(): S[k] = S.get(k, 0) + v
        funcs = sorted({f for r in self.results for f in r.get('funcs', [])})
        proved = [r for r in self.results if r['status'] == 'proved']
        samples = [{k: r.get(k) for k in ('call', 'cfg', 'n', 'status', 'items', 'steps', 'how', 'label')} for r in (proved[:: max(1, len(proved) // 6)])[:8]]
        und = [{k: r.get(k) for k in ('call', 'cfg', 'n', 'status', 'label', 'notes')} for r in self.results if r['status'] not in ('proved', 'validated', 'violation', 'skipped')][:40]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol),
              'coverage': {'states': sum(r.get('paths', 0) for r in self.results), 'transitions': sum(r.get('steps', 0) for r in self.results),
                           'traces_validated_against_impl': st.get('validated', 0), 'samples': samples,
                           'obligations': S.get('terms', 0), 'outcomes': st, 'queries': S.get('queries', 0), 'queries_by_theory': {k: S.get(k, 0) for k in ('uf', 'ord', 'fp', 'real', 'bv') if S.get(k)},
                           'solver_unknown': S.get('unknown', 0), 'solver_s': round(S.get('solver_s', 0), 2), 'bounds': self.bounds,
                           'functions_encoded': funcs[:400], 'functions_encoded_count': len(funcs), 'undecided': und,
                           'states_means': 'symbolic paths executed', 'transitions_means': 'LLVM instructions executed symbolically'},
              'assumptions': self.assumptions + ['clang -O1 front-end IR of the harness stands for the code; replay and sampled translation validation use the g++ build',
                                                 'round-to-nearest, no flush-to-zero, x86 semantics of the SSE/AVX intrinsics as modelled in lib/symex.py']}
        ev['coverage'].update(self.extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        print('%s %s: %s; %d queries, solver %.1f s, wall %.1f s' % (self.pid, self.tier, st, S.get('queries', 0), S.get('solver_s', 0), time.time() - self.t0))
        if self.viol: return 1
        return 0

def load_findings(pid):
    p = os.path.join(VERIF, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out
