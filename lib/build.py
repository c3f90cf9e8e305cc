"""Compilation of harness chunks: clang -> LLVM IR (RAW and LIGHT), g++ -> shared object for replay."""
import os, time, signal, subprocess, tempfile, shutil, atexit, hashlib, json, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('NOVA_REPO', '/repo')
CFG = {'sse2': [], 'sse41': ['-msse4.1'], 'avx': ['-mavx'], 'gen': ['-U__SSE__', '-U__SSE2__'], 'fma': ['-mavx', '-mfma'], 'sse1': ['-U__SSE2__']}
VBYTES = {'sse2': 16, 'sse41': 16, 'avx': 32, 'gen': 32, 'fma': 32, 'sse1': 16}
_work = None
def work():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='nova-verif-')
        pid = os.getpid()
        os.environ['TMPDIR'] = _work
        def rm():
            if os.getpid() != pid: return
            for k in range(20):
                shutil.rmtree(_work, ignore_errors=True)
                if not os.path.exists(_work): break
                time.sleep(0.2)
        atexit.register(rm)
    return _work

HEAD = r'''
#include <cmath>
#include <cstdio>
#include <algorithm>
#include "simd_unary_arithmetic.hpp"
#include "simd_binary_arithmetic.hpp"
#include "simd_ternary_arithmetic.hpp"
#include "simd_math.hpp"
#include "simd_memory.hpp"
#include "simd_mix.hpp"
#include "simd_pan.hpp"
#include "simd_peakmeter.hpp"
#include "simd_horizontal_functions.hpp"
#include "simd_unit_conversion.hpp"
#include "simd_unroll_constraints.hpp"
#include "softclip.hpp"
#include "simd_utils.hpp"
#include "vec.hpp"
'''
def head(cfg):
    if cfg in ('gen',): return HEAD.replace('#include "simd_utils.hpp"\n', '')
    return HEAD

def _pdeath():
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=_pdeath, **k)

def write(path, text):
    with open(path, 'w') as f: f.write(text)
    return path

def cc_ir(src, cfg, kinds):
    """returns {kind: path} or error string"""
    b = src[:-4] + '.' + cfg
    raw = b + '.raw.ll'
    r = run(['clang++', '-std=gnu++14', '-O1', '-w', '-ffp-contract=off'] + CFG[cfg] + ['-I', REPO, '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', src, '-o', raw])
    if r.returncode: return r.stderr[-3000:]
    out = {}
    if 'raw' in kinds: out['raw'] = raw
    if 'light' in kinds:
        l = b + '.light.ll'
        r = run(['opt', '-S', '-passes=module(function(sroa)),cgscc(inline),function(sroa,simplifycfg),globaldce', '-inline-threshold=1000000', raw, '-o', l])
        if r.returncode: return r.stderr[-3000:]
        out['light'] = l
        if 'raw' not in kinds: os.unlink(raw)
    return out

def cc_so(src, cfg, opt='-O1', cc='g++'):
    so = src[:-4] + '.' + cfg + opt + ('' if cc == 'g++' else '.' + cc) + '.so'
    if os.path.exists(so): return so
    tmp = so + '.%d.tmp' % os.getpid()
    r = run([cc, '-std=gnu++14', opt, '-w', '-shared', '-fPIC'] + (['-ffp-contract=off'] if cc != 'g++' else ['-fno-gnu-unique']) + CFG[cfg] + (['-ffp-contract=off'] if cfg == 'fma' else []) + ['-I', REPO, src, '-o', tmp])
    if r.returncode: return None
    os.rename(tmp, so)
    return so

class Chunk(object):
    """a harness translation unit: list of calls"""
    def __init__(self, idx, calls):
        self.idx = idx; self.calls = calls; self.ll = {}; self.err = {}
    def text(self, cfg):
        return head(cfg) + '\n'.join(c.code() for c in self.calls if c.on(cfg)) + '\n'
    def src(self, cfg):
        p = os.path.join(work(), 'h%d_%s.cpp' % (self.idx, cfg))
        if not os.path.exists(p): write(p, self.text(cfg))
        return p

class Harness(object):
    def __init__(self, calls, cfgs, kinds=('light',), size=None):
        work(); self.calls = calls; self.cfgs = cfgs; self.kinds = kinds
        if size is None: size = max(8, min(40, -(-len(calls) * len(cfgs) // 8)))
        self.chunks = []
        for i in range(0, len(calls), size): self.chunks.append(Chunk(len(self.chunks), calls[i:i + size]))
        for c in self.chunks:
            for k in c.calls: k.chunk = c
        self.dropped = []
    def compile(self, cfg_filter=None):
        jobs = [(c, g) for c in self.chunks for g in self.cfgs if any(k.on(g) for k in c.calls)]
        def one(j):
            c, g = j
            r = cc_ir(c.src(g), g, self.kinds)
            if isinstance(r, str):
                # find the calls that do not compile and leave them out
                ok = []
                for k in list(c.calls):
                    if not k.on(g): continue
                    p = write(os.path.join(work(), 't%d_%s_%s.cpp' % (c.idx, g, k.id)), head(g) + k.code() + '\n')
                    x = run(['clang++', '-std=gnu++14', '-w', '-fsyntax-only'] + CFG[g] + ['-I', REPO, p])
                    if x.returncode == 0: ok.append(k)
                    else:
                        k.off.add(g); self.dropped.append((k.id, g, (x.stderr.strip().splitlines() or [''])[0].split('error:')[-1][:100]))
                os.unlink(c.src(g))
                r = cc_ir(c.src(g), g, self.kinds)
                if isinstance(r, str):
                    self.dropped.append(('chunk%d' % c.idx, g, r[-300:])); c.err[g] = r; return
            c.ll[g] = r
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
        return self

class Crash(Exception): pass
class Runner(object):
    def __init__(self): self.p = None
    def call(self, req, timeout=30):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'runner.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=_pdeath)
        import select
        try:
            self.p.stdin.write(json.dumps(req) + '\n'); self.p.stdin.flush()
        except BrokenPipeError: pass
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.p.kill(); self.p.wait(); self.p = None
            raise Crash('timeout')
        line = self.p.stdout.readline()
        if not line:
            rc = self.p.wait(); self.p = None
            raise Crash('signal %d' % -rc if rc < 0 else 'exit %d' % rc)
        return json.loads(line)
    def close(self):
        if self.p is not None:
            self.p.kill(); self.p.wait(); self.p = None
