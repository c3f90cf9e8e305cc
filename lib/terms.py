"""Hash-consed bit-vector / IEEE-754 term DAG.

All values are bit-vectors; floating-point values are carried as their bit patterns (width 32 or 64).
Booleans are width-1 bit-vectors.  Smart constructors fold constants exactly (IEEE semantics through
`fpeval`) and normalise the mask idioms of SIMD code (compare masks, and/andnot/or selects, sign-bit
manipulation) so that the same computation written with different intrinsics gives the same term.
"""
import fpeval as fe

class T(object):
    __slots__ = ('op', 'args', 'w', 'p', 'id')
    def __init__(self, op, args, w, p, id):
        self.op = op; self.args = args; self.w = w; self.p = p; self.id = id
    def __repr__(self):
        return show(self, 4)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o

_tab = {}
_cnt = [0]

def mk(op, args, w, p=None):
    key = (op, w, p) + tuple(a.id for a in args)
    t = _tab.get(key)
    if t is None:
        _cnt[0] += 1
        t = T(op, tuple(args), w, p, _cnt[0])
        _tab[key] = t
    return t

def reset():
    """drop all terms (caches keyed by id must be dropped too)"""
    _tab.clear()

def mask(w): return (1 << w) - 1

def const(w, v): return mk('const', (), w, v & ((1 << w) - 1))
def var(name, w): return mk('var', (), w, name)
TRUE = None; FALSE = None
def _init():
    global TRUE, FALSE
    TRUE = const(1, 1); FALSE = const(1, 0)
_init()
def true(): return const(1, 1)
def false(): return const(1, 0)
def is_c(t): return t.op == 'const'

_undef = [0]
def undef(w, why='undef'):
    _undef[0] += 1
    return mk('undef', (), w, '%s!%d' % (why, _undef[0]))

# ---------------------------------------------------------------- booleans / bit-vectors
def bnot(a):
    if a.w == 1:
        if is_c(a): return const(1, 1 - a.p)
        if a.op == 'xor' and is_c(a.args[0]) and a.args[0].p == 1: return a.args[1]
    return xor(const(a.w, mask(a.w)), a)

def _sorted(a, b):
    # constants first, then by id: canonical order for commutative operators
    if is_c(b) and not is_c(a): return b, a
    if is_c(a) and not is_c(b): return a, b
    return (a, b) if a.id <= b.id else (b, a)

def _ite_parts(t):
    """t as (cond, then, else) if it is an ite"""
    return t.args if t.op == 'ite' else None

def _distribute(fn, a, b):
    """push a bit operation through an ite whose arms are all-ones / zero constants"""
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and is_c(x.args[1]) and is_c(x.args[2]):
            c1, c2 = x.args[1].p, x.args[2].p
            m = mask(x.w)
            if c1 in (0, m) and c2 in (0, m):
                return ite(x.args[0], fn(x.args[1], y), fn(x.args[2], y))
    return None

def and_(a, b):
    if a is b: return a
    a, b = _sorted(a, b)
    if is_c(a):
        if is_c(b): return const(a.w, a.p & b.p)
        if a.p == 0: return a
        if a.p == mask(a.w): return b
        if b.op == 'and' and is_c(b.args[0]):
            return and_(const(a.w, a.p & b.args[0].p), b.args[1])
        if b.op == 'ite' and is_c(b.args[1]) and is_c(b.args[2]):
            return ite(b.args[0], and_(a, b.args[1]), and_(a, b.args[2]))
        if b.op == 'xor' and is_c(b.args[0]) :
            # (c ^ x) & m  ->  (c&m) ^ (x&m)
            return xor(const(a.w, a.p & b.args[0].p), and_(a, b.args[1]))
        if b.op == 'or' and is_c(b.args[0]):
            return or_(const(a.w, a.p & b.args[0].p), and_(a, b.args[1]))
        if b.op in ('or', 'xor'):
            l = and_(a, b.args[0]); r = and_(a, b.args[1])
            if is_c(l) or is_c(r) or l is b.args[0] or r is b.args[1]:
                return or_(l, r) if b.op == 'or' else xor(l, r)
    else:
        d = _distribute(and_, a, b)
        if d is not None: return d
        # absorb: x & (x & c)
        for x, y in ((a, b), (b, a)):
            if y.op == 'and' and x in y.args: return y
            if x.w == 1:
                if y.op == 'xor' and is_c(y.args[0]) and y.args[1] is x: return false()
                if y.op == 'or' and x in y.args: return x
    return mk('and', (a, b), a.w)

def or_(a, b):
    if a is b: return a
    a, b = _sorted(a, b)
    if is_c(a):
        if is_c(b): return const(a.w, a.p | b.p)
        if a.p == 0: return b
        if a.p == mask(a.w): return a
        if b.op == 'ite' and is_c(b.args[1]) and is_c(b.args[2]):
            return ite(b.args[0], or_(a, b.args[1]), or_(a, b.args[2]))
        if b.op == 'or' and is_c(b.args[0]):
            return or_(const(a.w, a.p | b.args[0].p), b.args[1])
    else:
        d = _distribute(or_, a, b)
        if d is not None: return d
        # select idiom after distribution: ite(c,x,0) | ite(c,0,y)
        if a.op == 'ite' and b.op == 'ite':
            if a.args[0] is b.args[0]:
                if _z(a.args[2]) and _z(b.args[1]): return ite(a.args[0], a.args[1], b.args[2])
                if _z(a.args[1]) and _z(b.args[2]): return ite(a.args[0], b.args[1], a.args[2])
            if a.args[0] is bnot_try(b.args[0]):
                if _z(a.args[2]) and _z(b.args[2]): return ite(a.args[0], a.args[1], b.args[1])
        if a.w == 1:
            for x, y in ((a, b), (b, a)):
                if y.op == 'and' and x in y.args: return x
                if y.op == 'xor' and is_c(y.args[0]) and y.args[1] is x: return true()
        # (x & m) | (x & ~m) -> x
        if a.op == 'and' and b.op == 'and' and is_c(a.args[0]) and is_c(b.args[0]) and a.args[1] is b.args[1]:
            return and_(const(a.w, a.args[0].p | b.args[0].p), a.args[1])
    return mk('or', (a, b), a.w)

def bnot_try(c):
    if c.w == 1: return bnot(c)
    return None

def _z(t): return is_c(t) and t.p == 0

def xor(a, b):
    if a is b: return const(a.w, 0)
    a, b = _sorted(a, b)
    if is_c(a):
        if is_c(b): return const(a.w, a.p ^ b.p)
        if a.p == 0: return b
        if b.op == 'xor' and is_c(b.args[0]): return xor(const(a.w, a.p ^ b.args[0].p), b.args[1])
        if b.op == 'ite' and is_c(b.args[1]) and is_c(b.args[2]):
            return ite(b.args[0], xor(a, b.args[1]), xor(a, b.args[2]))
    else:
        d = _distribute(xor, a, b)
        if d is not None: return d
        for x, y in ((a, b), (b, a)):
            if y.op == 'xor':
                if y.args[0] is x: return y.args[1]
                if y.args[1] is x: return y.args[0]
                if is_c(y.args[0]): return xor(y.args[0], xor(y.args[1], x))
            # x ^ (x & m)  ->  x & ~m
            if y.op == 'and' and is_c(y.args[0]) and y.args[1] is x:
                return and_(const(x.w, ~y.args[0].p), x)
        # (p^q)&sign forms: (x&s)^(y&s) keep
    return mk('xor', (a, b), a.w)

def _affine(t):
    """t as (base, const) with t = base + const"""
    if t.op == 'add' and is_c(t.args[0]): return t.args[1], t.args[0].p
    return t, 0

def add(a, b):
    a, b = _sorted(a, b)
    if is_c(a):
        if is_c(b): return const(a.w, a.p + b.p)
        if a.p == 0: return b
        if b.op == 'add' and is_c(b.args[0]): return add(const(a.w, a.p + b.args[0].p), b.args[1])
        if b.op == 'ite' and is_c(b.args[1]) and is_c(b.args[2]):
            return ite(b.args[0], add(a, b.args[1]), add(a, b.args[2]))
    else:
        for x, y in ((a, b), (b, a)):
            if y.op == 'add' and is_c(y.args[0]):
                return add(y.args[0], add(y.args[1], x))
    return mk('add', (a, b), a.w)

def sub(a, b):
    if a is b: return const(a.w, 0)
    if is_c(b): return add(const(a.w, -b.p), a)
    ab, ac = _affine(a); bb, bc = _affine(b)
    if ab is bb: return const(a.w, ac - bc)
    if is_c(a) and b.op == 'ite' and is_c(b.args[1]) and is_c(b.args[2]):
        return ite(b.args[0], sub(a, b.args[1]), sub(a, b.args[2]))
    return mk('sub', (a, b), a.w)

def mul(a, b):
    a, b = _sorted(a, b)
    if is_c(a):
        if is_c(b): return const(a.w, a.p * b.p)
        if a.p == 0: return a
        if a.p == 1: return b
        if b.op == 'add' and is_c(b.args[0]):
            return add(const(a.w, a.p * b.args[0].p), mul(a, b.args[1]))
        if b.op == 'mul' and is_c(b.args[0]): return mul(const(a.w, a.p * b.args[0].p), b.args[1])
    return mk('mul', (a, b), a.w)

def _s(w, v): return v - (1 << w) if v >> (w - 1) else v

def udiv(a, b):
    if is_c(a) and is_c(b) and b.p: return const(a.w, a.p // b.p)
    if is_c(b) and b.p == 1: return a
    if is_c(b) and b.p and (b.p & (b.p - 1)) == 0: return lshr(a, const(a.w, b.p.bit_length() - 1))
    return mk('udiv', (a, b), a.w)
def urem(a, b):
    if is_c(a) and is_c(b) and b.p: return const(a.w, a.p % b.p)
    if is_c(b) and b.p and (b.p & (b.p - 1)) == 0: return and_(const(a.w, b.p - 1), a)
    return mk('urem', (a, b), a.w)
def sdiv(a, b):
    if is_c(a) and is_c(b) and b.p:
        x, y = _s(a.w, a.p), _s(a.w, b.p)
        q = abs(x) // abs(y)
        return const(a.w, q if (x < 0) == (y < 0) else -q)
    return mk('sdiv', (a, b), a.w)
def srem(a, b):
    if is_c(a) and is_c(b) and b.p:
        x, y = _s(a.w, a.p), _s(a.w, b.p)
        r = abs(x) % abs(y)
        return const(a.w, r if x >= 0 else -r)
    return mk('srem', (a, b), a.w)

def shl(a, b):
    if is_c(b):
        if b.p == 0: return a
        if b.p >= a.w: return const(a.w, 0)
        if is_c(a): return const(a.w, a.p << b.p)
        if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
            return ite(a.args[0], shl(a.args[1], b), shl(a.args[2], b))
        if a.op == 'lshr' and is_c(a.args[1]) and a.args[1].p == b.p:
            return and_(const(a.w, (mask(a.w) >> b.p) << b.p), a.args[0])
    return mk('shl', (a, b), a.w)
def lshr(a, b):
    if is_c(b):
        if b.p == 0: return a
        if b.p >= a.w: return const(a.w, 0)
        if is_c(a): return const(a.w, a.p >> b.p)
        if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
            return ite(a.args[0], lshr(a.args[1], b), lshr(a.args[2], b))
        if a.op == 'shl' and is_c(a.args[1]) and a.args[1].p == b.p:
            return and_(const(a.w, mask(a.w) >> b.p), a.args[0])
    return mk('lshr', (a, b), a.w)
def ashr(a, b):
    if is_c(b):
        if b.p == 0: return a
        if is_c(a): return const(a.w, _s(a.w, a.p) >> min(b.p, a.w - 1))
        if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
            return ite(a.args[0], ashr(a.args[1], b), ashr(a.args[2], b))
        if b.p >= a.w - 1:
            return ite(slt(a, const(a.w, 0)), const(a.w, mask(a.w)), const(a.w, 0))
    return mk('ashr', (a, b), a.w)

def eq(a, b):
    if a is b: return true()
    a, b = _sorted(a, b)
    if is_c(a) and is_c(b): return const(1, int(a.p == b.p))
    if a.w == 1 and is_c(a): return b if a.p else bnot(b)
    if is_c(a):
        if b.op == 'add' and is_c(b.args[0]): return eq(const(a.w, a.p - b.args[0].p), b.args[1])
        if b.op == 'xor' and is_c(b.args[0]): return eq(const(a.w, a.p ^ b.args[0].p), b.args[1])
        if b.op == 'ite':
            x, y = b.args[1], b.args[2]
            if is_c(x) and is_c(y):
                return ite(b.args[0], eq(a, x), eq(a, y))
            if is_c(x) and x.p != a.p: return and_(bnot(b.args[0]), eq(a, y))
            if is_c(y) and y.p != a.p: return and_(b.args[0], eq(a, x))
        if b.op == 'zext':
            iw = b.args[0].w
            if a.p >> iw: return false()
            return eq(const(iw, a.p), b.args[0])
    else:
        ab, ac = _affine(a); bb, bc = _affine(b)
        if ab is bb: return const(1, int(((ac - bc) & mask(a.w)) == 0))
    return mk('eq', (a, b), 1)
def ne(a, b): return bnot(eq(a, b))
def ult(a, b):
    if a is b: return false()
    if is_c(a) and is_c(b): return const(1, int(a.p < b.p))
    if is_c(b) and b.p == 0: return false()
    return mk('ult', (a, b), 1)
def ule(a, b): return bnot(ult(b, a))
def slt(a, b):
    if a is b: return false()
    if is_c(a) and is_c(b): return const(1, int(_s(a.w, a.p) < _s(a.w, b.p)))
    if is_c(b) and b.p == 0:
        # sign test: canonicalise through extract of the top bit
        return extract(a, a.w - 1, a.w - 1)
    return mk('slt', (a, b), 1)
def sle(a, b): return bnot(slt(b, a))

def ite(c, a, b):
    if is_c(c): return a if c.p else b
    if a is b: return a
    if c.op == 'xor' and is_c(c.args[0]):      # not
        return ite(c.args[1], b, a)
    if a.w == 1:
        if is_c(a) and is_c(b): return c if a.p else bnot(c)
        if is_c(a): return or_(c, b) if a.p else and_(bnot(c), b)
        if is_c(b): return or_(bnot(c), a) if b.p else and_(c, a)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk('ite', (c, a, b), a.w)

def extract(a, hi, lo):
    w = hi - lo + 1
    if w == a.w: return a
    if is_c(a): return const(w, a.p >> lo)
    if a.op == 'concat':
        h, l = a.args
        if hi < l.w: return extract(l, hi, lo)
        if lo >= l.w: return extract(h, hi - l.w, lo - l.w)
        return concat(extract(h, hi - l.w, 0), extract(l, l.w - 1, lo))
    if a.op == 'extract': return extract(a.args[0], hi + a.p[1], lo + a.p[1])
    if a.op == 'ite' and (is_c(a.args[1]) or is_c(a.args[2])):
        return ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo))
    if a.op in ('and', 'or', 'xor') :
        x = extract(a.args[0], hi, lo); y = extract(a.args[1], hi, lo)
        return {'and': and_, 'or': or_, 'xor': xor}[a.op](x, y)
    if a.op == 'zext':
        iw = a.args[0].w
        if hi < iw: return extract(a.args[0], hi, lo)
        if lo >= iw: return const(w, 0)
    if a.op == 'sext':
        iw = a.args[0].w
        if hi < iw: return extract(a.args[0], hi, lo)
    if a.op in ('add', 'sub', 'mul') and lo == 0:
        f = {'add': add, 'sub': sub, 'mul': mul}[a.op]
        return f(extract(a.args[0], hi, 0), extract(a.args[1], hi, 0))
    return mk('extract', (a,), w, (hi, lo))

def concat(h, l):
    if is_c(h) and is_c(l): return const(h.w + l.w, (h.p << l.w) | l.p)
    if h.op == 'extract' and l.op == 'extract' and h.args[0] is l.args[0] and h.p[1] == l.p[0] + 1:
        return extract(h.args[0], h.p[0], l.p[1])
    if h.op == 'ite' and l.op == 'ite' and h.args[0] is l.args[0]:
        return ite(h.args[0], concat(h.args[1], l.args[1]), concat(h.args[2], l.args[2]))
    return mk('concat', (h, l), h.w + l.w)

def zext(a, w):
    if a.w == w: return a
    if is_c(a): return const(w, a.p)
    if a.w == 1: return ite(a, const(w, 1), const(w, 0))
    if a.op == 'zext': return zext(a.args[0], w)
    return mk('zext', (a,), w)
def sext(a, w):
    if a.w == w: return a
    if is_c(a): return const(w, _s(a.w, a.p))
    if a.w == 1: return ite(a, const(w, mask(w)), const(w, 0))
    return mk('sext', (a,), w)
def trunc(a, w): return extract(a, w - 1, 0)

# ---------------------------------------------------------------- floating point
COMM = {'fadd', 'fmul'}
def fconst(w, v):
    return const(w, fe.bits_of(w, v))
def sgnbit(w): return 1 << (w - 1)
def fneg(a): return xor(const(a.w, sgnbit(a.w)), a)
def fabs(a): return and_(const(a.w, sgnbit(a.w) - 1), a)

def fop(op, *args):
    w = args[0].w
    if all(is_c(a) for a in args):
        return const(w, fe.apply(op, w, [a.p for a in args]))
    if op == 'fsub':
        # a - b == a + (-b) exactly in IEEE arithmetic (NaN sign aside)
        return fop('fadd', args[0], fneg(args[1]))
    if op in COMM:
        args = _sorted(*args)
    if op in ('fmul', 'fdiv'):
        # pull sign flips out: (-a)*b == -(a*b)
        a, b = args; s = 0
        a, fa = _strip_neg(a); b, fb = _strip_neg(b)
        if fa ^ fb:
            return fneg(fop(op, a, b))
        if fa or fb: return fop(op, a, b)
        if is_c(a) and (a.p >> (w - 1)) and not fe.isnan(w, a.p):
            return fneg(fop(op, const(w, a.p ^ sgnbit(w)), b))
        if is_c(b) and (b.p >> (w - 1)) and not fe.isnan(w, b.p):
            return fneg(fop(op, a, const(w, b.p ^ sgnbit(w))))
        args = _sorted(a, b) if op == 'fmul' else (a, b)
    if op == 'ffma':
        a, b, c = args
        a, b = _sorted(a, b)
        args = (a, b, c)
    return mk(op, args, w)

def _strip_neg(t):
    if t.op == 'xor' and is_c(t.args[0]) and t.args[0].p == sgnbit(t.w): return t.args[1], True
    return t, False

def fcmp(op, a, b):
    """op in feq flt fle funo"""
    if is_c(a) and is_c(b): return const(1, fe.cmp(op, a.w, a.p, b.p))
    w = a.w
    for x in (a, b):
        if is_c(x) and fe.isnan(w, x.p): return const(1, 1 if op == 'funo' else 0)
    if op in ('feq', 'funo'): a, b = _sorted(a, b)
    if op == 'funo':
        if is_c(a): a = b          # NaN test of b
        if a is b or is_c(a):
            return mk('fisnan', (_strip_sign(b),), 1)
        return or_(fcmp('funo', a, a), fcmp('funo', b, b))
    if a is b:
        if op == 'flt': return false()
        return bnot(fcmp('funo', a, a))
    return mk(op, (a, b), 1)

def _strip_sign(t):
    while True:
        if t.op == 'xor' and is_c(t.args[0]) and t.args[0].p == sgnbit(t.w): t = t.args[1]
        elif t.op == 'and' and is_c(t.args[0]) and t.args[0].p == sgnbit(t.w) - 1: t = t.args[1]
        else: return t

def fisnan(a): return fcmp('funo', a, a)

def fcmp_pred(pred, a, b):
    if pred == 'false': return false()
    if pred == 'true': return true()
    base = {'oeq': lambda: fcmp('feq', a, b), 'olt': lambda: fcmp('flt', a, b), 'ole': lambda: fcmp('fle', a, b),
            'ogt': lambda: fcmp('flt', b, a), 'oge': lambda: fcmp('fle', b, a),
            'one': lambda: or_(fcmp('flt', a, b), fcmp('flt', b, a)),
            'uno': lambda: fcmp('funo', a, b), 'ord': lambda: bnot(fcmp('funo', a, b)),
            'une': lambda: bnot(fcmp('feq', a, b)), 'uge': lambda: bnot(fcmp('flt', a, b)),
            'ugt': lambda: bnot(fcmp('fle', a, b)), 'ule': lambda: bnot(fcmp('flt', b, a)),
            'ult': lambda: bnot(fcmp('fle', b, a)),
            'ueq': lambda: bnot(or_(fcmp('flt', a, b), fcmp('flt', b, a)))}
    return base[pred]()

def frint(mode, a):
    if is_c(a): return const(a.w, fe.rint(mode, a.w, a.p))
    return mk('frint', (a,), a.w, mode)
def cvtt(a, w):
    """x86 truncating conversion to a signed w-bit integer (out of range / NaN -> 1<<(w-1))"""
    if is_c(a): return const(w, fe.cvtt(a.w, a.p, w))
    return mk('cvtt', (a,), w)
def cvtr(a, w):
    """x86 rounding (nearest-even) conversion"""
    if is_c(a): return const(w, fe.cvtt(a.w, fe.rint('rne', a.w, a.p), w))
    return mk('cvtt', (frint('rne', a),), w)
def sitofp(a, w):
    if is_c(a): return const(w, fe.of_int(w, _s(a.w, a.p)))
    return mk('sitofp', (a,), w)
def uitofp(a, w):
    if is_c(a): return const(w, fe.of_int(w, a.p))
    if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
        return ite(a.args[0], uitofp(a.args[1], w), uitofp(a.args[2], w))
    if a.w == 1: return ite(a, const(w, fe.of_int(w, 1)), const(w, 0))
    return mk('uitofp', (a,), w)
def fpext(a, w):
    if is_c(a): return const(w, fe.convert(a.w, a.p, w))
    return mk('fpext', (a,), w)
def fptrunc(a, w):
    if is_c(a): return const(w, fe.convert(a.w, a.p, w))
    if a.op == 'fpext' and a.args[0].w == w: return a.args[0]
    return mk('fptrunc', (a,), w)
def libm(name, args, w):
    return mk('libm', args, w, name)
def rcp(a): return mk('rcp', (a,), a.w)

def fmin_x86(a, b): return ite(fcmp('flt', a, b), a, b)
def fmax_x86(a, b): return ite(fcmp('flt', b, a), a, b)

# ---------------------------------------------------------------- traversal helpers
def postorder(roots):
    seen = set(); out = []
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done: out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id)
        st.append((t, True))
        for a in t.args:
            if a.id not in seen: st.append((a, False))
    return out

def leaves(roots, ops=('var', 'undef')):
    return [t for t in postorder(roots) if t.op in ops]

def substitute(root, m, rebuild=True):
    """m: {T: T}"""
    memo = {k.id: v for k, v in m.items()}
    for t in postorder([root] if isinstance(root, T) else root):
        if t.id in memo: continue
        if not t.args: memo[t.id] = t; continue
        na = [memo[a.id] for a in t.args]
        if all(x is y for x, y in zip(na, t.args)): memo[t.id] = t
        else: memo[t.id] = rebuild_op(t, na)
    if isinstance(root, T): return memo[root.id]
    return [memo[r.id] for r in root]

_RB = {'and': and_, 'or': or_, 'xor': xor, 'add': add, 'sub': sub, 'mul': mul, 'udiv': udiv, 'urem': urem,
       'sdiv': sdiv, 'srem': srem, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'eq': eq, 'ult': ult, 'slt': slt,
       'ite': ite, 'concat': concat, 'rcp': rcp}
def rebuild_op(t, na):
    op = t.op
    if op in _RB: return _RB[op](*na)
    if op == 'extract': return extract(na[0], *t.p)
    if op == 'zext': return zext(na[0], t.w)
    if op == 'sext': return sext(na[0], t.w)
    if op in ('feq', 'flt', 'fle'): return fcmp(op, *na)
    if op == 'fisnan': return fisnan(na[0])
    if op == 'frint': return frint(t.p, na[0])
    if op == 'cvtt': return cvtt(na[0], t.w)
    if op == 'sitofp': return sitofp(na[0], t.w)
    if op == 'uitofp': return uitofp(na[0], t.w)
    if op == 'fpext': return fpext(na[0], t.w)
    if op == 'fptrunc': return fptrunc(na[0], t.w)
    if op == 'libm': return libm(t.p, na, t.w)
    if op in ('fadd', 'fmul', 'fdiv', 'fsqrt', 'ffma', 'frem'): return fop(op, *na)
    raise KeyError(op)

def evaluate(roots, env, libm_eval=None, rcp_eval=None, undef_eval=None):
    """env: {var name: int bits}; returns list of ints"""
    memo = {}
    for t in postorder(roots):
        op = t.op
        if op == 'const': v = t.p
        elif op == 'var': v = env[t.p] & mask(t.w)
        elif op == 'undef': v = undef_eval(t) if undef_eval else 0
        else:
            a = [memo[x.id] for x in t.args]
            if op == 'libm': v = (libm_eval or fe.libm)(t.p, t.w, a)
            elif op == 'rcp': v = (rcp_eval or fe.rcp)(t.w, a[0])
            elif op in ('fadd', 'fmul', 'fdiv', 'fsqrt', 'ffma', 'frem'): v = fe.apply(op, t.w, a)
            elif op in ('feq', 'flt', 'fle'): v = fe.cmp(op, t.args[0].w, a[0], a[1])
            elif op == 'fisnan': v = int(fe.isnan(t.args[0].w, a[0]))
            elif op == 'frint': v = fe.rint(t.p, t.w, a[0])
            elif op == 'cvtt': v = fe.cvtt(t.args[0].w, a[0], t.w)
            elif op == 'sitofp': v = fe.of_int(t.w, _s(t.args[0].w, a[0]))
            elif op == 'uitofp': v = fe.of_int(t.w, a[0])
            elif op in ('fpext', 'fptrunc'): v = fe.convert(t.args[0].w, a[0], t.w)
            elif op == 'ite': v = a[1] if a[0] else a[2]
            else:
                cs = [const(x.w, y) for x, y in zip(t.args, a)]
                r = rebuild_op(t, cs)
                assert r.op == 'const', (t.op, r.op)
                v = r.p
        memo[t.id] = v
    return [memo[r.id] for r in roots]

def show(t, depth=6):
    if t.op == 'const': return '#%x:%d' % (t.p, t.w)
    if t.op == 'var': return t.p
    if t.op == 'undef': return '?' + t.p
    if depth == 0: return '..'
    return '(%s%s %s)' % (t.op, '' if t.p is None else '[%s]' % (t.p,), ' '.join(show(a, depth - 1) for a in t.args))

def conj(l):
    r = true()
    for x in l: r = and_(r, x)
    return r
def disj(l):
    r = false()
    for x in l: r = or_(r, x)
    return r

def feq_or_nan(a, b):
    """equal as IEEE values (+0 == -0) or both NaN"""
    if a is b: return true()
    return or_(fcmp('feq', a, b), and_(fisnan(a), fisnan(b)))
