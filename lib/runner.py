"""Subprocess that calls functions of the natively compiled harness with guard pages around every buffer.
JSON lines on stdin/stdout.  A crash of the called function ends this process; the parent reports the signal."""
import sys, json, ctypes, struct
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
PG = 4096
LIBS = {}

def place(data, align, where, ro):
    n = len(data)
    pages = max(1, -(-(n + align) // PG))
    tot = (pages + 2) * PG
    base = libc.mmap(None, tot, 3, 0x22, -1, 0)
    ctypes.memset(base, 0xA5, tot)
    lo, hi = base + PG, base + PG + pages * PG
    if where == 'end': a = (hi - n) // align * align
    elif where == 'odd':                       # aligned to `align` and to nothing more
        a = lo + align
        if a + n > hi: a = lo
    else: a = lo
    ctypes.memmove(a, data, n)
    libc.mprotect(base, PG, 0); libc.mprotect(hi, PG, 0)
    if ro: libc.mprotect(lo, hi - lo, 1)
    return (base, tot, a, n, lo, hi)

def region(nbytes, align):
    """read/write region of nbytes that ends right before a guard page"""
    pages = -(-(nbytes + align) // PG); tot = (pages + 2) * PG
    base = libc.mmap(None, tot, 3, 0x4022, -1, 0)
    if base in (None, ctypes.c_void_p(-1).value): raise MemoryError()
    hi = base + PG + pages * PG; a = (hi - nbytes) // align * align
    libc.mprotect(base, PG, 0); libc.mprotect(hi, PG, 0)
    return base, tot, a
def repeated(nbytes, pat):
    """read-only region of nbytes filled with the repeated pattern, sharing physical pages"""
    import os
    unit = len(pat)
    while unit % PG: unit += len(pat)
    while unit < (48 << 20): unit *= 2
    fd = os.memfd_create('p'); os.ftruncate(fd, unit)
    blk = pat * (unit // len(pat)); os.pwrite(fd, blk, 0); del blk
    tot = -(-nbytes // PG) * PG + 2 * PG
    base = libc.mmap(None, tot, 0, 0x4022, -1, 0)
    if base in (None, ctypes.c_void_p(-1).value): raise MemoryError()
    a = base + PG; end = -(-nbytes // PG) * PG; o = 0
    while o < end:
        l = min(unit, end - o)
        if libc.mmap(a + o, l, 1, 0x11, fd, 0) != a + o: raise MemoryError()
        o += l
    os.close(fd)
    return base, tot, a
def view(np, a, n, w):
    t = ctypes.c_float if w == 32 else ctypes.c_double
    return np.ctypeslib.as_array((t * n).from_address(a))
def big(q):
    """one call at a large length.  map: every output element must be what calls on small pieces give; reduce: every probed element must matter"""
    import numpy as np
    np.seterr(all='ignore')
    lib = LIBS.get(q['so']) or LIBS.setdefault(q['so'], ctypes.CDLL(q['so']))
    f = getattr(lib, q['fn']); w = q['w']; es = w // 8; n = q['n']; m = q['small']
    ct = ctypes.c_float if w == 32 else ctypes.c_double; dt = np.float32 if w == 32 else np.float64
    f.restype = ct if q['ret'] else None
    sc = [ct(v) for v in q['scalars']]
    per = m * 37; rng = np.random.default_rng(5)
    regs = []
    def mk(k, ln):
        r = region(ln * es, q['bufs'][k]['align']); regs.append(r)
        return r[2], view(np, r[2], ln, w)
    pat = []
    for b in q['bufs']:
        v = rng.uniform(0.6, 3.0, per).astype(dt) * np.where(rng.random(per) < 0.5, -1, 1).astype(dt)
        if b['role'] == 'out': v[:] = dt(12345.678)
        pat.append(v)
    B = q['bufs']; out = {'bad': []}; al = {int(k): v for k, v in q.get('alias', {}).items()}
    for k, v in al.items(): pat[v] = pat[k]
    if q.get('ramps'):
        # bases and slopes are small integers: the ramp itself is exact
        small = [mk(k, m) for k in range(len(B))]; arrs = []
        for k in range(len(B)):
            if k in al: arrs.append(arrs[al[k]]); continue
            a, v = mk(k, n); arrs.append((a, v)); v[:] = np.tile(pat[k], -(-n // per))[:n]
        f(*([ctypes.c_void_p(a) for a, _ in arrs] + sc + [ctypes.c_uint32(n)]))
        nc = n // m; r2 = np.random.default_rng(3)
        for c in sorted({0, 1, 2, 3, nc // 2, nc - 2, nc - 1} | set(int(x) for x in r2.integers(0, nc, 100))):
            if not 0 <= c < nc: continue
            for k in range(len(B)): small[k][1][:] = np.tile(pat[k], 3)[(c * m) % per:(c * m) % per + m]
            s2 = [ct(x.value) for x in sc]
            for ri, di in q['ramps']: s2[ri] = ct(sc[ri].value + c * m * sc[di].value) if not q['exp'] else ct(sc[ri].value * sc[di].value ** ((c * m) % 2))
            f(*([ctypes.c_void_p(x[0]) for x in small] + s2 + [ctypes.c_uint32(m)]))
            for k, b in enumerate(B):
                if b['role'] == 'in': continue
                x = arrs[k][1][c * m:(c + 1) * m]; y = small[k][1]
                ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= 1e-5 * (1 + np.abs(y)))
                if not ok.all() and not out['bad']:
                    i = int(np.argmin(ok)); out['bad'].append('%s[%d] = %r, expected %r (ramp)' % (b['name'], c * m + i, float(x[i]), float(y[i])))
    elif q['mode'] == 'map':
        exp = [p.copy() for p in pat]
        small = [mk(k, m) for k in range(len(B))]
        for c in range(37):
            for k in range(len(B)): small[k][1][:] = pat[k][c * m:(c + 1) * m]
            f(*([ctypes.c_void_p(x[0]) for x in small] + sc + [ctypes.c_uint32(m)]))
            for k in range(len(B)): exp[k][c * m:(c + 1) * m] = small[k][1]
        arrs = []; slab = per * max(1, (1 << 20) // per)
        for k in range(len(B)):
            if k in al: arrs.append(arrs[al[k]]); continue
            if B[k]['role'] == 'in' and n * es > (1 << 28):
                r = repeated(n * es, pat[k].tobytes()); regs.append(r); arrs.append((r[2], None)); continue
            a, v = mk(k, n); arrs.append((a, v)); t = np.tile(pat[k], slab // per)
            for s in range(0, n, slab): e = min(n, s + slab); v[s:e] = t[:e - s]
        f(*([ctypes.c_void_p(a) for a, _ in arrs] + sc + [ctypes.c_uint32(n)]))
        for k, b in enumerate(B):
            if b['role'] == 'in': continue
            t = np.tile(exp[k], slab // per); v = arrs[k][1]
            for s in range(0, n, slab):
                e = min(n, s + slab); x = v[s:e]; y = t[:e - s]
                ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= 1e-5 * (1 + np.abs(y)))
                if not ok.all():
                    i = int(np.argmin(ok)); out['bad'].append('%s[%d] = %r, expected %r' % (b['name'], s + i, float(x[i]), float(y[i]))); break
    else:
        arrs = []
        for k, b in enumerate(B): arrs.append(mk(k, n if b['n'] else 1))
        big_ = [k for k, b in enumerate(B) if b['n']]
        def go():
            for k, b in enumerate(B):
                if not b['n']: arrs[k][1][:] = 0
            r = f(*([ctypes.c_void_p(a) for a, _ in arrs] + sc + [ctypes.c_uint32(n)]))
            return [float(arrs[k][1][0]) for k, b in enumerate(B) if not b['n']] + ([float(r)] if q['ret'] and q['useret'] else [])
        base = go(); ref = None
        pos = sorted({p for p in [0, 1, 2, 3, m, n // 2, n - 1, n - 2, n - m, n - 2 * m, n - 3 * m, 4095, 65536, 65535 * m, 65536 * m, (n // 3) // m * m] + q.get('pos', []) if 0 <= p < n})
        for p in pos:
            res = []
            for v in (1000.0, -1000.0):
                for k in big_: arrs[k][1][p] = v
                res.append(go())
                for k in big_: arrs[k][1][p] = 0
            if all(r == base for r in res): out['bad'].append('element %d does not matter' % p); break
            if ref is None: ref = res
            if res != ref: out['bad'].append('element %d: %r, element %d: %r' % (p, res, pos[0], ref)); break
    for b, t, a in regs:
        if a > b + PG and any(ctypes.string_at(b + PG, a - b - PG)): out['slack'] = True
        libc.munmap(b, t)
    return out
def main():
    for line in sys.stdin:
        q = json.loads(line)
        if 'big' in q:
            try: o = big(q)
            except MemoryError: o = {'bad': [], 'nomem': True}
            sys.stdout.write(json.dumps(o) + '\n'); sys.stdout.flush()
            continue
        lib = LIBS.get(q['so'])
        if lib is None: lib = LIBS[q['so']] = ctypes.CDLL(q['so'])
        f = getattr(lib, q['fn'])
        args = []; bufs = []
        for a in q['args']:
            t = a['t']
            if t == 'buf':
                p = place(bytes.fromhex(a['data']), a.get('align', 16), a.get('place', 'end'), a.get('ro', False))
                bufs.append(p); args.append(ctypes.c_void_p(p[2]))
            elif t == 'alias':
                bufs.append(None); args.append(ctypes.c_void_p(bufs[a['i']][2]))
            elif t == 'f32': args.append(ctypes.c_float.from_buffer_copy(struct.pack('<I', a['bits'])))
            elif t == 'f64': args.append(ctypes.c_double.from_buffer_copy(struct.pack('<Q', a['bits'])))
            elif t == 'u32': args.append(ctypes.c_uint32(a['v']))
        rt = q.get('ret')
        f.restype = {'f32': ctypes.c_float, 'f64': ctypes.c_double, None: None}[rt]
        r = f(*args)
        out = {'bufs': [], 'canary': True}
        for b in bufs:
            if b is None: out['bufs'].append(None); continue
            base, tot, a, n, lo, hi = b
            out['bufs'].append(ctypes.string_at(a, n).hex())
            for s, e in ((lo, a), (a + n, hi)):
                if e > s and ctypes.string_at(s, e - s) != b'\xa5' * (e - s): out['canary'] = False
            libc.munmap(base, tot)
        if rt: out['ret'] = struct.unpack('<I', struct.pack('<f', r))[0] if rt == 'f32' else struct.unpack('<Q', struct.pack('<d', r))[0]
        sys.stdout.write(json.dumps(out) + '\n'); sys.stdout.flush()
main()
