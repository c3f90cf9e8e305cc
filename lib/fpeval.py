"""Concrete IEEE-754 evaluation on bit patterns (binary32/binary64, round to nearest even)."""
import struct, math
from fractions import Fraction
import numpy as np
np.seterr(all='ignore')

def f32(b): return np.frombuffer(struct.pack('<I', b), dtype=np.float32)[0]
def f64(b): return np.frombuffer(struct.pack('<Q', b), dtype=np.float64)[0]
def val(w, b): return f32(b) if w == 32 else f64(b)
def pyval(w, b): return struct.unpack('<f', struct.pack('<I', b))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', b))[0]
def bits(w, v):
    if w == 32: return int(np.float32(v).view(np.uint32))
    return int(np.float64(v).view(np.uint64))
def bits_of(w, v): return bits(w, v)
QNAN = {32: 0x7fc00000, 64: 0x7ff8000000000000}
INF = {32: 0x7f800000, 64: 0x7ff0000000000000}
MANT = {32: 23, 64: 52}
EMIN = {32: -126, 64: -1022}
EMAX = {32: 127, 64: 1023}
def isnan(w, b): return (b & ((1 << (w - 1)) - 1)) > INF[w]
def isinf(w, b): return (b & ((1 << (w - 1)) - 1)) == INF[w]
def isfinite(w, b): return (b & ((1 << (w - 1)) - 1)) < INF[w]

def to_frac(w, b):
    s = b >> (w - 1); m = MANT[w]
    e = (b >> m) & ((1 << (w - 1 - m)) - 1); f = b & ((1 << m) - 1)
    if e == 0: v = Fraction(f) * Fraction(2) ** (EMIN[w] - m)
    else: v = Fraction(f | (1 << m)) * Fraction(2) ** (e - EMAX[w] - m)
    return -v if s else v

def round_frac(w, x, neg_zero=False):
    """round a Fraction to nearest even; returns bits"""
    m = MANT[w]
    s = 1 if x < 0 or (x == 0 and neg_zero) else 0
    x = abs(x)
    if x == 0: return s << (w - 1)
    n, d = x.numerator, x.denominator
    e = n.bit_length() - d.bit_length()
    if Fraction(2) ** e > x: e -= 1
    e = max(e, EMIN[w])
    q = x / Fraction(2) ** (e - m)
    r = q.numerator // q.denominator
    rem = q - r
    if rem > Fraction(1, 2) or (rem == Fraction(1, 2) and r & 1): r += 1
    if r >= (1 << (m + 1)): r >>= 1; e += 1
    if r < (1 << m): return (s << (w - 1)) | r           # subnormal
    if e > EMAX[w]: return (s << (w - 1)) | INF[w]
    return (s << (w - 1)) | ((e + EMAX[w]) << m) | (r - (1 << m))

def apply(op, w, a):
    if op == 'ffma':
        x, y, z = a
        if isfinite(w, x) and isfinite(w, y) and isfinite(w, z):
            fx, fy, fz = to_frac(w, x), to_frac(w, y), to_frac(w, z)
            r = fx * fy + fz
            if r == 0:
                ps = (x ^ y) >> (w - 1); zs = z >> (w - 1)
                if fx * fy == 0 and fz == 0: return (1 << (w - 1)) if (ps and zs) else 0
                return 0
            return round_frac(w, r)
        p = apply('fmul', 64 if w == 32 else w, [convert(w, x, 64), convert(w, y, 64)] if w == 32 else [x, y])
        if w == 32:
            return convert(64, apply('fadd', 64, [p, convert(32, z, 64)]), 32)
        # infinities / NaN only: finite*finite never reaches here unless z is non-finite
        if isfinite(w, x) and isfinite(w, y): return z if not isnan(w, z) else QNAN[w]
        return apply('fadd', w, [p, z])
    v = [val(w, x) for x in a]
    if op == 'fadd': r = v[0] + v[1]
    elif op == 'fsub': r = v[0] - v[1]
    elif op == 'fmul': r = v[0] * v[1]
    elif op == 'fdiv': r = v[0] / v[1]
    elif op == 'fsqrt': r = np.sqrt(v[0])
    elif op == 'frem': r = np.fmod(v[0], v[1])
    else: raise KeyError(op)
    b = bits(w, r)
    return QNAN[w] if isnan(w, b) else b

def cmp(op, w, a, b):
    na, nb = isnan(w, a), isnan(w, b)
    if op == 'funo': return int(na or nb)
    if na or nb: return 0
    x, y = pyval(w, a), pyval(w, b)
    if op == 'feq': return int(x == y)
    if op == 'flt': return int(x < y)
    if op == 'fle': return int(x <= y)
    raise KeyError(op)

def rint(mode, w, b):
    if not isfinite(w, b): return QNAN[w] if isnan(w, b) else b
    f = to_frac(w, b); s = b >> (w - 1)
    fl = f.numerator // f.denominator
    if mode == 'floor': r = fl
    elif mode == 'ceil': r = -((-f.numerator) // f.denominator)
    elif mode == 'trunc': r = fl if f >= 0 else -((-f.numerator) // f.denominator)
    else:
        d = f - fl
        if d < Fraction(1, 2): r = fl
        elif d > Fraction(1, 2): r = fl + 1
        elif mode == 'rne': r = fl if fl % 2 == 0 else fl + 1
        else: r = fl + 1 if f > 0 else fl          # rna
    return round_frac(w, Fraction(r), neg_zero=bool(s)) if r == 0 else round_frac(w, Fraction(r))

def cvtt(w, b, iw):
    lim = 1 << (iw - 1)
    if not isfinite(w, b): return lim
    f = to_frac(w, b)
    r = abs(f).numerator // abs(f).denominator
    if f < 0: r = -r
    if r >= lim or r < -lim: return lim
    return r & ((1 << iw) - 1)

def of_int(w, i): return round_frac(w, Fraction(i))

def convert(w, b, w2):
    if isnan(w, b): return QNAN[w2]
    return bits(w2, val(w, b))

_LIBM = {}
def libm(name, w, a):
    """the C library function as used by the compiled code (through ctypes)"""
    import ctypes
    f = _LIBM.get((name, w))
    if f is None:
        lib = ctypes.CDLL('libm.so.6')
        cn = name + ('f' if w == 32 else '')
        f = getattr(lib, cn)
        t = ctypes.c_float if w == 32 else ctypes.c_double
        f.restype = t; f.argtypes = [t] * len(a)
        _LIBM[(name, w)] = f
    r = bits(w, f(*[pyval(w, x) for x in a]))
    return QNAN[w] if isnan(w, r) else r

def rcp(w, b):
    """a value within the documented rcpps error (the exact one is micro-architectural): 1/x with a 12-bit mantissa"""
    if isnan(w, b): return QNAN[w]
    if isinf(w, b): return b & (1 << 31)
    if to_frac(w, b) == 0 or abs(to_frac(w, b)) < Fraction(2) ** -126: return INF[w] | (b & (1 << 31))
    r = apply('fdiv', 32, [0x3f800000, b])
    if (r & 0x7f800000) == 0: return r & (1 << 31)
    return ((r & 0x7fffffff) + 0x400 & 0xfffff800) | (r & (1 << 31))
