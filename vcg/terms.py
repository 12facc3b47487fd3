"""Hash-consed bit-vector terms with local simplification, and lowering to z3.

Width 1 terms are Booleans.  Every other term is a bit-vector of width w.
Terms carry unsigned bounds lo..hi (sound for every valuation) used only to
fold comparisons.
"""
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ('op', 'a', 'w', 'id', 'v', 'lo', 'hi', 'ptr', '_lin', '_z', 'neg', 'm', 'k1')

    def __repr__(self):
        return pp(self, 4)


_tab = {}
_cnt = 0
bases = {}      # obj id -> concrete address (for lowering)
uf_decl = {}    # name -> (arg widths, ret width)


def _mk(op, a, w, lo=0, hi=None, ptr=False):
    global _cnt
    key = (op, w, a)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.w = w
    t.v = None
    t.lo = lo
    t.hi = ((1 << w) - 1) if hi is None else hi
    t.ptr = ptr
    t._lin = None
    t._z = None
    t.neg = None
    t.id = _cnt
    _cnt += 1
    _tab[key] = t
    _known(t)
    return t


def _known(t):
    """m: bits that may be one; k1: bits known to be one (sound for every valuation)."""
    op, a, w = t.op, t.a, t.w
    full = (1 << w) - 1
    m, k = full, 0
    if op == 'c':
        t.m = t.k1 = a
        return
    if op == 'and':
        m, k = a[0].m & a[1].m, a[0].k1 & a[1].k1
    elif op == 'or':
        m, k = a[0].m | a[1].m, a[0].k1 | a[1].k1
    elif op == 'zext':
        m, k = a[0].m, a[0].k1
    elif op == 'ite':
        m, k = a[1].m | a[2].m, a[1].k1 & a[2].k1
    elif op == 'ext':
        m, k = (a[0].m >> a[1]) & full, (a[0].k1 >> a[1]) & full
    elif op == 'bit':
        m, k = (a[0].m >> a[1]) & 1, (a[0].k1 >> a[1]) & 1
    elif op == 'cat':
        m, k = a[0].m << a[1].w | a[1].m, a[0].k1 << a[1].w | a[1].k1
    elif op == 'lshr' and a[1].v is not None:
        m, k = a[0].m >> a[1].v, a[0].k1 >> a[1].v
    elif op == 'mul' and w > 1:
        c = a[1].v
        if c is not None and c & (c - 1) == 0 and c:
            sh = c.bit_length() - 1
            m, k = (a[0].m << sh) & full, (a[0].k1 << sh) & full
        else:
            tz = _tz(a[0].m) + _tz(a[1].m)
            m = full & ~((1 << tz) - 1)
    elif op == 'add' and w > 1:
        x, y = a[0].m, a[1].m
        if x & y == 0:
            m, k = x | y, a[0].k1 | a[1].k1
        else:
            m = full & ~((1 << min(_tz(x), _tz(y))) - 1)
    t.m = m & ((1 << t.hi.bit_length()) - 1)
    t.k1 = k


def _tz(m):
    return (m & -m).bit_length() - 1 if m else 64


def const(v, w):
    v &= (1 << w) - 1
    key = ('c', w, v)
    t = _tab.get(key)
    if t is None:
        t = _mk('c', v, w, v, v)
        t.v = v
    return t


TRUE = const(1, 1)
FALSE = const(0, 1)


def boolc(b):
    return TRUE if b else FALSE


def var(name, w, lo=0, hi=None):
    return _mk('x', name, w, lo, hi)


def base(objid):
    return _mk('base', objid, 64, 1, None, True)


def uf(name, args, w):
    uf_decl[name] = (tuple(x.w for x in args), w)
    return _mk('uf', (name,) + tuple(args), w)


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------- booleans
def not_(x):
    n = x.neg
    if n is not None:
        return n
    if x.v is not None:
        n = FALSE if x.v else TRUE
    elif x.op == 'not':
        n = x.a[0]
    elif x.op == 'ult':
        n = ule(x.a[1], x.a[0])
    elif x.op == 'ule':
        n = ult(x.a[1], x.a[0])
    elif x.op == 'slt':
        n = sle(x.a[1], x.a[0])
    elif x.op == 'sle':
        n = slt(x.a[1], x.a[0])
    else:
        n = _mk('not', (x,), 1)
    x.neg = n
    if n.neg is None:
        n.neg = x
    return n


def and_(x, y):
    if x is y:
        return x
    if x.v is not None:
        return y if x.v else FALSE
    if y.v is not None:
        return x if y.v else FALSE
    if x.neg is y or y.neg is x:
        return FALSE
    if x.id > y.id:
        x, y = y, x
    # absorb: x & (x & z)
    if y.op == 'and' and y.w == 1 and (y.a[0] is x or y.a[1] is x):
        return y
    if x.op == 'and' and x.w == 1 and (x.a[0] is y or x.a[1] is y):
        return x
    if y.op == 'or' and y.w == 1 and (y.a[0] is x or y.a[1] is x):
        return x
    if x.op == 'or' and x.w == 1 and (x.a[0] is y or x.a[1] is y):
        return y
    return _mk('and', (x, y), 1)


def or_(x, y):
    if x is y:
        return x
    if x.v is not None:
        return TRUE if x.v else y
    if y.v is not None:
        return TRUE if y.v else x
    if x.neg is y or y.neg is x:
        return TRUE
    # (c & p) | (!c & p) = p
    if x.op == 'and' and y.op == 'and' and x.w == 1:
        for i in (0, 1):
            for j in (0, 1):
                if x.a[i] is y.a[j] and (x.a[1 - i].neg is y.a[1 - j]):
                    return x.a[i]
    if x.id > y.id:
        x, y = y, x
    # c | (!c & p) = c | p
    for u, v in ((x, y), (y, x)):
        if v.op == 'and' and v.w == 1:
            if v.a[0].neg is u:
                return or_(u, v.a[1])
            if v.a[1].neg is u:
                return or_(u, v.a[0])
            if v.a[0] is u or v.a[1] is u:
                return u
    if y.op == 'or' and y.w == 1 and (y.a[0] is x or y.a[1] is x):
        return y
    return _mk('or', (x, y), 1)


def implies(x, y):
    return or_(not_(x), y)


def conj(lits):
    r = TRUE
    for l in lits:
        r = and_(r, l)
        if r is FALSE:
            return r
    return r


def xor1(x, y):
    if x is y:
        return FALSE
    if x.v is not None:
        return not_(y) if x.v else y
    if y.v is not None:
        return not_(x) if y.v else x
    if x.neg is y:
        return TRUE
    return _mk('xor', (x, y) if x.id < y.id else (y, x), 1)


def ite(c, x, y):
    if c.v is not None:
        return x if c.v else y
    if x is y:
        return x
    w = x.w
    if c.op == 'not':
        return ite(c.a[0], y, x)
    if w == 1:
        if x.v is not None:
            return or_(c, y) if x.v else and_(not_(c), y)
        if y.v is not None:
            return or_(not_(c), x) if y.v else and_(c, x)
        if x.neg is y:
            return not_(xor1(c, x))
    if x.op == 'ite':
        if x.a[0] is c:
            x = x.a[1]
        elif x.a[0].neg is c:
            x = x.a[2]
        if x is y:
            return x
    if y.op == 'ite':
        if y.a[0] is c:
            y = y.a[2]
        elif y.a[0].neg is c:
            y = y.a[1]
        if x is y:
            return x
        if y.op == 'ite':
            # ite(c, x, ite(d, x, z)) = ite(c|d, x, z)
            if y.a[1] is x:
                return ite(or_(c, y.a[0]), x, y.a[2])
    if x.op == 'ite' and x.a[2] is y:
        # ite(c, ite(d, u, y), y) = ite(c&d, u, y)
        return ite(and_(c, x.a[0]), x.a[1], y)
    return _mk('ite', (c, x, y), w, min(x.lo, y.lo), max(x.hi, y.hi), x.ptr or y.ptr)


# ---------------------------------------------------------------- linear form
def lin(t):
    """t = const + sum coef*atom (mod 2^w); returns (const, {atom: coef})."""
    l = t._lin
    if l is not None:
        return l
    m = (1 << t.w) - 1
    op = t.op
    if op == 'c':
        l = (t.v, {})
    elif op == 'add' or (op == 'or' and t.w > 1 and t.a[0].m & t.a[1].m == 0):
        c1, d1 = lin(t.a[0])
        c2, d2 = lin(t.a[1])
        d = dict(d1)
        for k, v in d2.items():
            n = (d.get(k, 0) + v) & m
            if n:
                d[k] = n
            else:
                d.pop(k, None)
        l = ((c1 + c2) & m, d)
    elif op == 'mul' and t.a[1].v is not None:
        k = t.a[1].v
        c1, d1 = lin(t.a[0])
        d = {}
        for a, v in d1.items():
            n = (v * k) & m
            if n:
                d[a] = n
        l = ((c1 * k) & m, d)
    else:
        l = (0, {t: 1})
    t._lin = l
    return l


def conc(t):
    """Replace object bases by their concrete addresses (pointer bit-twiddling)."""
    if not t.ptr:
        return t
    if t.op == 'base':
        return const(bases[t.a], 64)
    if t.op == 'add':
        return add(conc(t.a[0]), conc(t.a[1]))
    if t.op == 'ite':
        return ite(t.a[0], conc(t.a[1]), conc(t.a[2]))
    return t


# ---------------------------------------------------------------- arithmetic
def add(x, y):
    w = x.w
    if w == 1:
        return xor1(x, y)
    if x.v is not None:
        x, y = y, x
    if y.v is not None:
        if y.v == 0:
            return x
        if x.v is not None:
            return const(x.v + y.v, w)
        if x.op == 'add' and x.a[1].v is not None:
            return add(x.a[0], const(x.a[1].v + y.v, w))
        if x.op == 'ite' and x.a[1].v is not None and x.a[2].v is not None:
            return ite(x.a[0], const(x.a[1].v + y.v, w), const(x.a[2].v + y.v, w))
        lo, hi = x.lo + y.v, x.hi + y.v
        m = 1 << w
        if lo >= m:
            lo -= m
            hi -= m
        elif hi >= m:
            lo, hi = 0, m - 1
        return _mk('add', (x, y), w, lo, hi, x.ptr)
    # hoist constants
    if x.op == 'add' and x.a[1].v is not None:
        return add(add(x.a[0], y), x.a[1])
    if y.op == 'add' and y.a[1].v is not None:
        return add(add(x, y.a[0]), y.a[1])
    if x.id > y.id:
        x, y = y, x
    # cancellation through linear forms
    if x.op in ('add', 'mul') or y.op in ('add', 'mul') or x is y:
        _, d1 = lin(x)
        _, d2 = lin(y)
        if len(d1) + len(d2) <= 12:
            for k in d2:
                if k in d1:
                    return from_lin(_ladd(lin(x), lin(y), w), w)
    lo, hi = x.lo + y.lo, x.hi + y.hi
    if hi >= (1 << w):
        lo, hi = 0, None
    return _mk('add', (x, y), w, lo, hi, x.ptr or y.ptr)


def _ladd(l1, l2, w):
    m = (1 << w) - 1
    d = dict(l1[1])
    for k, v in l2[1].items():
        n = (d.get(k, 0) + v) & m
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return ((l1[0] + l2[0]) & m, d)


def from_lin(l, w):
    c, d = l
    r = None
    for k in sorted(d, key=lambda k: k.id):
        t = mulc(k, d[k])
        if r is None:
            r = t
        else:
            x, y = (r, t) if r.id < t.id else (t, r)
            lo, hi = x.lo + y.lo, x.hi + y.hi
            if hi >= (1 << w):
                lo, hi = 0, None
            r = _mk('add', (x, y), w, lo, hi, x.ptr or y.ptr)
    if r is None:
        return const(c, w)
    return add(r, const(c, w))


def mulc(x, k):
    w = x.w
    k &= (1 << w) - 1
    if k == 0:
        return const(0, w)
    if k == 1:
        return x
    if x.v is not None:
        return const(x.v * k, w)
    if x.op == 'mul' and x.a[1].v is not None:
        return mulc(x.a[0], x.a[1].v * k)
    if x.op in ('or', 'and'):     # bits shifted out do not matter
        low = (1 << (w - _tz(k))) - 1
        if x.m & ~low:
            return mulc(band(x, const(low, w)), k)
    lo, hi = x.lo * k, x.hi * k
    if hi >= (1 << w):
        lo, hi = 0, None
        # negative multiples keep full range
    return _mk('mul', (x, const(k, w)), w, lo, hi)


def neg(x):
    if x.op in ('add', 'mul', 'c'):
        c, d = lin(x)
        m = (1 << x.w) - 1
        return from_lin(((-c) & m, {k: (-v) & m for k, v in d.items()}), x.w)
    return mulc(x, -1)


def sub(x, y):
    if x.w == 1:
        return xor1(x, y)
    if x is y:
        return const(0, x.w)
    if y.v is not None:
        return add(x, const(-y.v, x.w))
    r = add(x, neg(y))
    if r.op == 'add' and r.lo == 0 and r.v is None and x.lo >= y.hi:
        # no wrap possible: tighten bounds
        return r
    return r


def mul(x, y):
    if x.w == 1:
        return and_(x, y)
    if x.v is not None:
        x, y = y, x
    if y.v is not None:
        if x.op == 'add':
            c, d = lin(x)
            if len(d) <= 8 and not x.ptr:
                m = (1 << x.w) - 1
                k = y.v
                dd = {}
                for a, v in d.items():
                    n = v * k & m
                    if n:
                        dd[a] = n
                return from_lin((c * k & m, dd), x.w)
        return mulc(x, y.v)
    if x.id > y.id:
        x, y = y, x
    lo, hi = x.lo * y.lo, x.hi * y.hi
    if hi >= (1 << x.w):
        lo, hi = 0, None
    return _mk('mul', (x, y), x.w, lo, hi)


def is_pow2(v):
    return v > 0 and (v & (v - 1)) == 0


def udiv(x, y):
    w = x.w
    x = conc(x)
    if y.v is not None:
        if y.v == 0:
            return const(-1, w)
        if x.v is not None:
            return const(x.v // y.v, w)
        if is_pow2(y.v):
            return lshr(x, const(y.v.bit_length() - 1, w))
        if x.hi < y.v:
            return const(0, w)
        return _mk('udiv', (x, y), w, x.lo // y.v, x.hi // y.v)
    return _mk('udiv', (x, y), w, 0, x.hi if y.lo > 0 else None)


def urem(x, y):
    w = x.w
    x = conc(x)
    if y.v is not None:
        if y.v == 0:
            return x
        if x.v is not None:
            return const(x.v % y.v, w)
        if is_pow2(y.v):
            return band(x, const(y.v - 1, w))
        if x.hi < y.v:
            return x
        return _mk('urem', (x, y), w, 0, y.v - 1)
    hi = x.hi
    if y.lo > 0:
        hi = min(x.hi, y.hi - 1)
    return _mk('urem', (x, y), w, 0, hi)


def sdiv(x, y):
    w = x.w
    if x.v is not None and y.v is not None and y.v != 0:
        a, b = sx(x.v, w), sx(y.v, w)
        q = abs(a) // abs(b)
        return const(q if (a < 0) == (b < 0) else -q, w)
    half = 1 << (w - 1)
    if x.hi < half and y.hi < half:
        return udiv(x, y)
    return _mk('sdiv', (x, y), w)


def srem(x, y):
    w = x.w
    if x.v is not None and y.v is not None and y.v != 0:
        a, b = sx(x.v, w), sx(y.v, w)
        r = abs(a) % abs(b)
        return const(-r if a < 0 else r, w)
    half = 1 << (w - 1)
    if x.hi < half and y.hi < half:
        return urem(x, y)
    return _mk('srem', (x, y), w)


def band(x, y):
    w = x.w
    if w == 1:
        return and_(x, y)
    if x is y:
        return x
    x = conc(x)
    y = conc(y)
    if x.v is not None:
        x, y = y, x
    if y.v is not None:
        k = y.v
        if x.v is not None:
            return const(x.v & k, w)
        if k == 0:
            return const(0, w)
        if k == (1 << w) - 1:
            return x
        if x.m & ~k == 0:
            return x
        if x.m & k == x.k1 & k:
            return const(x.k1 & k, w)
        if x.op == 'or' or (x.op == 'add' and x.a[0].m & x.a[1].m == 0):
            a, b = x.a
            if a.m & k == a.k1 & k or b.m & k == b.k1 & k:
                return bor(band(a, y), band(b, y))
        if x.op == 'mul' and x.a[1].v is not None and is_pow2(x.a[1].v):
            sh = x.a[1].v.bit_length() - 1
            return mulc(band(x.a[0], const(k >> sh, w)), x.a[1].v)
        if x.op == 'and' and x.a[1].v is not None:
            return band(x.a[0], const(x.a[1].v & k, w))
        if x.op == 'ite' and x.a[1].v is not None and x.a[2].v is not None:
            return ite(x.a[0], const(x.a[1].v & k, w), const(x.a[2].v & k, w))
        tz = (k & -k).bit_length() - 1
        if tz and x.hi < (1 << tz):
            return const(0, w)
        # low bits of sums of multiples of 2^k vanish
        if is_pow2(k + 1) and x.op in ('add', 'mul'):
            c, d = lin(x)
            if all(v & k == 0 for v in d.values()):
                return const(c & k, w)
            # of an or, only the bits that reach below the mask matter
            if len(d) <= 6 and any(t.op == 'or' for t in d):
                nb = k.bit_length()
                r = const(c, w)
                for t in sorted(d, key=lambda t: t.id):
                    need = nb - _tz(d[t])
                    if need > 0:
                        r = add(r, mulc(band(t, const((1 << need) - 1, w)), d[t]))
                if not any(t.op == 'or' for t in lin(r)[1]):
                    return band(r, y)
        # mask of the form ~(2^k-1) of a multiple
        nk = (~k) & ((1 << w) - 1)
        if nk and is_pow2(nk + 1):
            c, d = lin(x)
            if all(v & nk == 0 for v in d.values()):
                if c & nk == 0:
                    return x
                return add(x, const(-(c & nk), w))
        return _mk('and', (x, y), w, 0, min(x.hi, k))
    if x.id > y.id:
        x, y = y, x
    return _mk('and', (x, y), w, 0, min(x.hi, y.hi))


def _up(h):
    return (1 << h.bit_length()) - 1


def bor(x, y):
    w = x.w
    if w == 1:
        return or_(x, y)
    if x is y:
        return x
    x = conc(x)
    y = conc(y)
    if x.v is not None:
        x, y = y, x
    if y.v is not None:
        if x.v is not None:
            return const(x.v | y.v, w)
        if y.v == 0:
            return x
        if y.v == (1 << w) - 1:
            return y
        if y.v & ~x.k1 == 0:
            return x
        if x.op == 'or' and x.a[1].v is not None:
            return bor(x.a[0], const(x.a[1].v | y.v, w))
        return _mk('or', (x, y), w, max(x.lo, y.v), _up(x.hi | y.v))
    if x.id > y.id:
        x, y = y, x
    return _mk('or', (x, y), w, max(x.lo, y.lo), _up(max(x.hi, y.hi)))


def bxor(x, y):
    w = x.w
    if w == 1:
        return xor1(x, y)
    if x is y:
        return const(0, w)
    x = conc(x)
    y = conc(y)
    if x.v is not None:
        x, y = y, x
    if y.v is not None:
        if x.v is not None:
            return const(x.v ^ y.v, w)
        if y.v == 0:
            return x
        if y.v == (1 << w) - 1:
            if x.op == 'xor' and x.a[1] is y:
                return x.a[0]
            return _mk('xor', (x, y), w, (1 << w) - 1 - x.hi, (1 << w) - 1 - x.lo)
        return _mk('xor', (x, y), w, 0, _up(max(x.hi, y.v)))
    if x.id > y.id:
        x, y = y, x
    return _mk('xor', (x, y), w, 0, _up(max(x.hi, y.hi)))


def shl(x, y):
    w = x.w
    if w == 1:
        return and_(x, not_(y))
    x = conc(x)
    if y.v is not None:
        if y.v >= w:
            return const(0, w)
        return mul(x, const(1 << y.v, w))
    if x.v == 0:
        return x
    return _mk('shl', (x, y), w)


def lshr(x, y):
    w = x.w
    if w == 1:
        return and_(x, not_(y))
    x = conc(x)
    if y.v is not None:
        k = y.v
        if k == 0:
            return x
        if k >= w:
            return const(0, w)
        if x.v is not None:
            return const(x.v >> k, w)
        if x.hi >> k == 0:
            return const(0, w)
        if x.op == 'lshr' and x.a[1].v is not None:
            return lshr(x.a[0], const(x.a[1].v + k, w))
        if x.op == 'mul' and x.a[1].v is not None and x.a[1].v % (1 << k) == 0 \
                and x.a[0].hi * x.a[1].v < (1 << w):
            return mulc(x.a[0], x.a[1].v >> k)
        if x.op == 'mul' and x.a[1].v is not None and is_pow2(x.a[1].v):
            sh = x.a[1].v.bit_length() - 1
            t = band(x.a[0], const((1 << (w - sh)) - 1, w))
            return mulc(t, 1 << (sh - k)) if sh >= k else lshr(t, const(k - sh, w))
        return _mk('lshr', (x, y), w, x.lo >> k, x.hi >> k)
    if x.v == 0:
        return x
    return _mk('lshr', (x, y), w, 0, x.hi)


def ashr(x, y):
    w = x.w
    if w == 1:
        return x
    x = conc(x)
    if x.hi < (1 << (w - 1)):
        return lshr(x, y)
    if y.v is not None and x.v is not None:
        return const(sx(x.v, w) >> min(y.v, w - 1), w)
    if y.v == 0:
        return x
    return _mk('ashr', (x, y), w)


def zext(x, w):
    if x.w == w:
        return x
    if x.v is not None:
        return const(x.v, w)
    if x.w == 1:
        return ite(x, const(1, w), const(0, w))
    if x.op == 'zext':
        x = x.a[0]
    if x.op == 'ite' and (x.a[1].v is not None) and (x.a[2].v is not None):
        return ite(x.a[0], zext(x.a[1], w), zext(x.a[2], w))
    return _mk('zext', (x,), w, x.lo, x.hi)


def sext(x, w):
    if x.w == w:
        return x
    if x.v is not None:
        return const(sx(x.v, x.w), w)
    if x.w == 1:
        return ite(x, const(-1, w), const(0, w))
    if x.hi < (1 << (x.w - 1)):
        return zext(x, w)
    return _mk('sext', (x,), w)


def trunc(x, w):
    return extract(x, w - 1, 0)


def extract(x, h, l):
    w = h - l + 1
    if w == x.w:
        return x
    x = conc(x)
    if x.v is not None:
        return const(x.v >> l, w)
    fm = (1 << w) - 1
    if (x.m >> l) & fm == (x.k1 >> l) & fm:
        return const(x.k1 >> l, w)
    op = x.op
    if op == 'or' or (op == 'add' and x.a[0].m & x.a[1].m == 0):
        a, b = x.a
        if (a.m >> l) & fm == 0:
            return extract(b, h, l)
        if (b.m >> l) & fm == 0:
            return extract(a, h, l)
    if op == 'and' and x.a[1].v is not None and (x.a[1].v >> l) & fm == fm:
        return extract(x.a[0], h, l)
    if op == 'zext':
        y = x.a[0]
        if l >= y.w:
            return const(0, w)
        if h < y.w:
            return extract(y, h, l)
        if l == 0:
            return zext(y, w)
        return zext(extract(y, y.w - 1, l), w)
    if op == 'sext' and h < x.a[0].w:
        return extract(x.a[0], h, l)
    if op == 'ext':
        return extract(x.a[0], h + x.a[1], l + x.a[1])
    if op == 'cat':
        hi_, lo_ = x.a
        if h < lo_.w:
            return extract(lo_, h, l)
        if l >= lo_.w:
            return extract(hi_, h - lo_.w, l - lo_.w)
        return cat(extract(hi_, h - lo_.w, 0), extract(lo_, lo_.w - 1, l))
    if op == 'ite':
        if x.a[1].v is not None or x.a[2].v is not None or (x.a[1].op in ('cat', 'zext') and x.a[2].op in ('cat', 'zext')):
            return ite(x.a[0], extract(x.a[1], h, l), extract(x.a[2], h, l))
    if op == 'lshr' and x.a[1].v is not None and h + x.a[1].v < x.w:
        return extract(x.a[0], h + x.a[1].v, l + x.a[1].v)
    if l == 0:
        if op == 'and' and x.a[1].v is not None and w > 1:
            return band(extract(x.a[0], h, 0), const(x.a[1].v, w))
        if op == 'add' and w > 1:
            return add(extract(x.a[0], h, 0), extract(x.a[1], h, 0))
        if op == 'mul' and w > 1:
            return mul(extract(x.a[0], h, 0), extract(x.a[1], h, 0))
    if w == 1:
        return _mk('bit', (x, l), 1)
    hi = None
    if l == 0 and x.hi < (1 << w):
        return _mk('ext', (x, 0, h), w, x.lo, x.hi)
    if l > 0 and (x.hi >> l) < (1 << w):
        hi = x.hi >> l
    # representation: a = (x, l, h)
    return _mk('ext', (x, l, h), w, 0, hi)


def cat(hi, lo):
    if hi.v is not None and lo.v is not None:
        return const((hi.v << lo.w) | lo.v, hi.w + lo.w)
    if hi.v == 0:
        return zext(lo, hi.w + lo.w)
    if hi.op == 'ext' and lo.op == 'ext' and hi.a[0] is lo.a[0] and hi.a[1] == lo.a[2] + 1:
        return extract(hi.a[0], hi.a[2], lo.a[1])
    if hi.w == 1:
        hi = zext_bit(hi)
    if lo.w == 1:
        lo = zext_bit(lo)
    return _mk('cat', (hi, lo), hi.w + lo.w, (hi.lo << lo.w) | lo.lo, (hi.hi << lo.w) | lo.hi)


def zext_bit(b):
    raise ValueError('bit concat')


# ---------------------------------------------------------------- comparison
def eq(x, y):
    if x is y:
        return TRUE
    w = x.w
    if w == 1:
        return not_(xor1(x, y))
    if x.v is not None:
        x, y = y, x
    if y.v is not None:
        k = y.v
        if x.v is not None:
            return boolc(x.v == k)
        if k < x.lo or k > x.hi:
            return FALSE
        op = x.op
        if op == 'base':
            return FALSE if bases[x.a] != k else TRUE
        if x.ptr and op == 'add' and x.a[0].op == 'base':
            return eq(conc(x), y)
        if op == 'add' and x.a[1].v is not None:
            return eq(x.a[0], const(k - x.a[1].v, w))
        if op == 'ite':
            a, b = x.a[1], x.a[2]
            if a.v is not None or b.v is not None or (a.ptr and b.ptr) or k == 0:
                return ite(x.a[0], eq(a, y), eq(b, y))
        if op == 'zext':
            return eq(x.a[0], const(k, x.a[0].w)) if k < (1 << x.a[0].w) else FALSE
        if op == 'mul' and x.a[1].v is not None and x.a[0].hi * x.a[1].v < (1 << w):
            if k % x.a[1].v:
                return FALSE
            return eq(x.a[0], const(k // x.a[1].v, w))
        if op == 'and' and x.a[1].v is not None and (k & ~x.a[1].v):
            return FALSE
        if op == 'and' and x.a[1].v is not None and is_pow2(x.a[1].v):
            b = extract(x.a[0], x.a[1].v.bit_length() - 1, x.a[1].v.bit_length() - 1)
            return b if k else not_(b)
        if op == 'xor' and x.a[1].v is not None:
            return eq(x.a[0], const(k ^ x.a[1].v, w))
    else:
        if x.hi < y.lo or y.hi < x.lo:
            return FALSE
        if x.ptr or y.ptr or x.op == 'add' or y.op == 'add':
            lx, ly = lin(x), lin(y)
            if lx[1] == ly[1]:
                return boolc(lx[0] == ly[0])
            if x.ptr and y.ptr:
                r = _ptr_eq(x, y, lx, ly)
                if r is not None:
                    return r
        if x.op == 'zext' and y.op == 'zext' and x.a[0].w == y.a[0].w:
            return eq(x.a[0], y.a[0])
        if x.op == 'ite' and y.op != 'ite' and (x.ptr and y.ptr):
            return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
        if y.op == 'ite' and (x.ptr and y.ptr):
            return ite(y.a[0], eq(x, y.a[1]), eq(x, y.a[2]))
        if x.id > y.id:
            x, y = y, x
    return _mk('eq', (x, y), 1)


def _ptr_eq(x, y, lx, ly):
    bx = [k for k in lx[1] if k.op == 'base']
    by = [k for k in ly[1] if k.op == 'base']
    if len(bx) == 1 and len(by) == 1 and len(lx[1]) == 1 and len(ly[1]) == 1 and \
            lx[1][bx[0]] == 1 and ly[1][by[0]] == 1:
        return boolc((bases[bx[0].a] + lx[0] - bases[by[0].a] - ly[0]) % (1 << 64) == 0)
    return None


def ult(x, y):
    if x is y:
        return FALSE
    w = x.w
    if w == 1:
        return and_(not_(x), y)
    x = conc(x)
    y = conc(y)
    if x.v is not None and y.v is not None:
        return boolc(x.v < y.v)
    if x.hi < y.lo:
        return TRUE
    if x.lo >= y.hi:
        return FALSE
    if y.v is not None:
        if y.v == 1:
            return eq(x, const(0, w))
        if x.op == 'ite' and (x.a[1].v is not None or x.a[2].v is not None):
            return ite(x.a[0], ult(x.a[1], y), ult(x.a[2], y))
        if x.op == 'zext':
            z = x.a[0]
            if y.v >= (1 << z.w):
                return TRUE
            return ult(z, const(y.v, z.w))
        if x.op == 'mul' and x.a[1].v is not None and x.a[0].hi * x.a[1].v < (1 << w):
            k = x.a[1].v
            return ult(x.a[0], const((y.v + k - 1) // k, w))
    if x.v is not None:
        if x.v == 0:
            return not_(eq(y, x))
        if y.op == 'ite' and (y.a[1].v is not None or y.a[2].v is not None):
            return ite(y.a[0], ult(x, y.a[1]), ult(x, y.a[2]))
        if y.op == 'zext':
            z = y.a[0]
            if x.v >= (1 << z.w):
                return FALSE
            return ult(const(x.v, z.w), z)
    if x.op == 'zext' and y.op == 'zext' and x.a[0].w == y.a[0].w:
        return ult(x.a[0], y.a[0])
    return _mk('ult', (x, y), 1)


def ule(x, y):
    if x is y:
        return TRUE
    w = x.w
    if w == 1:
        return or_(not_(x), y)
    x = conc(x)
    y = conc(y)
    if x.v is not None and y.v is not None:
        return boolc(x.v <= y.v)
    if x.hi <= y.lo:
        return TRUE
    if x.lo > y.hi:
        return FALSE
    if y.v is not None:
        return ult(x, const(y.v + 1, w))
    if x.v is not None:
        return ult(const(x.v - 1, w), y)
    if x.op == 'zext' and y.op == 'zext' and x.a[0].w == y.a[0].w:
        return ule(x.a[0], y.a[0])
    return _mk('ule', (x, y), 1)


def slt(x, y):
    w = x.w
    if x is y:
        return FALSE
    if w == 1:
        return and_(x, not_(y))
    x = conc(x)
    y = conc(y)
    if x.v is not None and y.v is not None:
        return boolc(sx(x.v, w) < sx(y.v, w))
    half = 1 << (w - 1)
    if x.hi < half and y.hi < half:
        return ult(x, y)
    if x.lo >= half and y.lo >= half:
        return ult(x, y)
    if x.hi < half and y.lo >= half:
        return FALSE
    if x.lo >= half and y.hi < half:
        return TRUE
    if y.v is not None and x.op == 'sext':
        z = x.a[0]
        k = sx(y.v, w)
        h = 1 << (z.w - 1)
        if k >= h:
            return TRUE
        if k <= -h:
            return FALSE
        return slt(z, const(k, z.w))
    if y.v == 0:
        return extract(x, w - 1, w - 1)
    if y.v is not None and x.op == 'ite' and (x.a[1].v is not None or x.a[2].v is not None):
        return ite(x.a[0], slt(x.a[1], y), slt(x.a[2], y))
    return _mk('slt', (x, y), 1)


def sle(x, y):
    w = x.w
    if x is y:
        return TRUE
    if w == 1:
        return or_(x, not_(y))
    x = conc(x)
    y = conc(y)
    if x.v is not None and y.v is not None:
        return boolc(sx(x.v, w) <= sx(y.v, w))
    half = 1 << (w - 1)
    if x.hi < half and y.hi < half:
        return ule(x, y)
    if x.lo >= half and y.lo >= half:
        return ule(x, y)
    if x.hi < half and y.lo >= half:
        return FALSE
    if x.lo >= half and y.hi < half:
        return TRUE
    if y.v is not None and sx(y.v, w) != half - 1:
        return slt(x, const(y.v + 1, w))
    if x.v is not None and sx(x.v, w) != -half:
        return slt(const(x.v - 1, w), y)
    return _mk('sle', (x, y), 1)


# ---------------------------------------------------------------- bit tricks
def popcnt(x):
    if x.v is not None:
        return const(bin(x.v).count('1'), x.w)
    return _mk('popcnt', (x,), x.w, 0, x.w)


def ctlz(x):
    if x.v is not None:
        return const(x.w - x.v.bit_length(), x.w)
    return _mk('ctlz', (x,), x.w, 0, x.w)


def cttz(x):
    if x.v is not None:
        return const(x.w if x.v == 0 else (x.v & -x.v).bit_length() - 1, x.w)
    return _mk('cttz', (x,), x.w, 0, x.w)


def bswap(x):
    n = x.w // 8
    r = None
    for i in range(n):
        b = extract(x, 8 * i + 7, 8 * i)
        r = b if r is None else cat(r, b)
    return r


def fop(name, args, w):
    """Uninterpreted (floating-point) operation."""
    return uf('fp.' + name + '.%d' % w + ''.join('_%d' % a.w for a in args), args, w)


# ---------------------------------------------------------------- printing
def pp(t, d=6):
    if t.v is not None:
        return ('%d' % t.v) if t.w > 1 else ('T' if t.v else 'F')
    if t.op == 'x':
        return t.a
    if t.op == 'base':
        return '&obj%s' % t.a
    if d == 0:
        return '..'
    return '(%s %s)' % (t.op, ' '.join(pp(x, d - 1) if isinstance(x, T) else str(x) for x in t.a))


# ---------------------------------------------------------------- evaluation
def evaluate(t, env, memo):
    """Evaluate under env(name,w)->int, env for uf: env(('uf',name,args),w)."""
    st = [t]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        if x.v is not None:
            memo[x.id] = x.v
            st.pop()
            continue
        op = x.op
        if op == 'x':
            v = env(x.a, x.w)
            memo[x.id] = x.lo if v is None else v
            st.pop()
            continue
        if op == 'base':
            memo[x.id] = bases[x.a]
            st.pop()
            continue
        if op == 'ite':
            c = memo.get(x.a[0].id)
            if c is None:
                st.append(x.a[0])
                continue
            b = x.a[1] if c else x.a[2]
            v = memo.get(b.id)
            if v is None:
                st.append(b)
                continue
            memo[x.id] = v
            st.pop()
            continue
        kids = [k for k in x.a if isinstance(k, T)]
        todo = [k for k in kids if k.id not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        memo[x.id] = _ev(x, [memo[k.id] for k in kids], env)
    return memo[t.id]


def _ev(x, v, env):
    op = x.op
    w = x.w
    m = (1 << w) - 1
    if op == 'not':
        return 1 - v[0]
    if op == 'and':
        return v[0] & v[1]
    if op == 'or':
        return v[0] | v[1]
    if op == 'xor':
        return v[0] ^ v[1]
    if op == 'add':
        return (v[0] + v[1]) & m
    if op == 'mul':
        return (v[0] * v[1]) & m
    if op == 'udiv':
        return m if v[1] == 0 else v[0] // v[1]
    if op == 'urem':
        return v[0] if v[1] == 0 else v[0] % v[1]
    if op in ('sdiv', 'srem'):
        a, b = sx(v[0], w), sx(v[1], w)
        if b == 0:
            return (1 if a < 0 else m) if op == 'sdiv' else v[0]
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return q & m if op == 'sdiv' else (a - q * b) & m
    if op == 'shl':
        return 0 if v[1] >= w else (v[0] << v[1]) & m
    if op == 'lshr':
        return 0 if v[1] >= w else v[0] >> v[1]
    if op == 'ashr':
        return (sx(v[0], w) >> min(v[1], w - 1)) & m
    if op == 'zext':
        return v[0]
    if op == 'sext':
        return sx(v[0], x.a[0].w) & m
    if op == 'ext':
        return (v[0] >> x.a[1]) & m
    if op == 'bit':
        return (v[0] >> x.a[1]) & 1
    if op == 'cat':
        return (v[0] << x.a[1].w) | v[1]
    if op == 'eq':
        return int(v[0] == v[1])
    if op == 'ult':
        return int(v[0] < v[1])
    if op == 'ule':
        return int(v[0] <= v[1])
    if op in ('slt', 'sle'):
        ww = x.a[0].w
        a, b = sx(v[0], ww), sx(v[1], ww)
        return int(a < b) if op == 'slt' else int(a <= b)
    if op == 'popcnt':
        return bin(v[0]).count('1')
    if op == 'ctlz':
        return w - v[0].bit_length()
    if op == 'cttz':
        return w if v[0] == 0 else (v[0] & -v[0]).bit_length() - 1
    if op == 'uf':
        return env(('uf', x.a[0], tuple(v)), w)
    raise ValueError(op)


# ---------------------------------------------------------------- lowering to z3
import z3
from z3 import z3core as zc


class Low:
    """Lowers terms to z3 ASTs in one context (z3.main_ctx by default)."""

    def __init__(self, lemma_popcnt=False):
        # lemma_popcnt: population count as an uninterpreted function constrained by
        # true facts about pairs of arguments (a sound over-approximation: only unsat counts)
        self.lemma_popcnt = lemma_popcnt
        self.pops = []
        self.ctx = z3.main_ctx()
        self.c = self.ctx.ref()
        self.sorts = {}
        self.apps = {}
        self.memo = {}
        self.keep = []
        self.vars = {}
        self.ranges = []   # side constraints from var bounds
        self.bs = z3.BoolSort()

    def sort(self, w):
        if w == 1:
            return self.bs.ast
        s = self.sorts.get(w)
        if s is None:
            s = self.sorts[w] = z3.BitVecSort(w)
        return s.ast

    def _p(self, ast):
        zc.Z3_inc_ref(self.c, ast)
        self.keep.append(ast)
        return ast

    def num(self, v, w):
        return self._p(zc.Z3_mk_numeral(self.c, str(v), self.sort(w)))

    def low(self, t):
        memo = self.memo
        r = memo.get(t.id)
        if r is not None:
            return r
        st = [t]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            if x.op in ('c', 'x', 'base'):
                kids = ()
            else:
                kids = [k for k in x.a if isinstance(k, T)]
                todo = [k for k in kids if k.id not in memo]
                if todo:
                    st.extend(todo)
                    continue
            st.pop()
            memo[x.id] = self._p(self._low(x, [memo[k.id] for k in kids]))
        return memo[t.id]

    def _low(self, x, k):
        c = self.c
        op = x.op
        w = x.w
        if op == 'c':
            if w == 1:
                return zc.Z3_mk_true(c) if x.v else zc.Z3_mk_false(c)
            return zc.Z3_mk_numeral(c, str(x.v), self.sort(w))
        if op == 'x':
            s = zc.Z3_mk_string_symbol(c, x.a)
            r = self._p(zc.Z3_mk_const(c, s, self.sort(w)))
            self.vars[x.a] = (r, w)
            if w > 1:
                if x.lo > 0:
                    self.ranges.append(self._p(zc.Z3_mk_bvuge(c, r, self.num(x.lo, w))))
                if x.hi < (1 << w) - 1:
                    self.ranges.append(self._p(zc.Z3_mk_bvule(c, r, self.num(x.hi, w))))
            return r
        if op == 'base':
            return zc.Z3_mk_numeral(c, str(bases[x.a]), self.sort(64))
        if op == 'ite':
            return zc.Z3_mk_ite(c, k[0], k[1], k[2])
        if op == 'not':
            return zc.Z3_mk_not(c, k[0])
        if w == 1:
            if op == 'and':
                return zc.Z3_mk_and(c, 2, (zc.Ast * 2)(k[0], k[1]))
            if op == 'or':
                return zc.Z3_mk_or(c, 2, (zc.Ast * 2)(k[0], k[1]))
            if op == 'xor':
                return zc.Z3_mk_xor(c, k[0], k[1])
        f = _BIN.get(op)
        if f is not None:
            return f(c, k[0], k[1])
        if op == 'zext':
            return zc.Z3_mk_zero_ext(c, w - x.a[0].w, k[0])
        if op == 'sext':
            return zc.Z3_mk_sign_ext(c, w - x.a[0].w, k[0])
        if op == 'ext':
            return zc.Z3_mk_extract(c, x.a[2], x.a[1], k[0])
        if op == 'bit':
            e = self._p(zc.Z3_mk_extract(c, x.a[1], x.a[1], k[0]))
            return zc.Z3_mk_eq(c, e, self._one())
        if op == 'popcnt':
            if self.lemma_popcnt:
                return self._popabs(k[0], w)
            return self._popcnt(k[0], w)
        if op == 'ctlz':
            return self._clz(k[0], w)
        if op == 'cttz':
            return self._ctz(k[0], w)
        if op == 'uf':
            # Ackermann expansion: one constant per application, congruence as side constraints
            name = x.a[0]
            apps = self.apps.setdefault(name, [])
            sy = zc.Z3_mk_string_symbol(c, '%s(%d)' % (name, len(apps)))
            r = self._p(zc.Z3_mk_const(c, sy, self.sort(w)))
            args = x.a[1:]
            for pa, pk, pr in apps:
                same = TRUE
                for u, v in zip(args, pa):
                    same = and_(same, eq(u, v))
                if same is FALSE:
                    continue
                es = [self._p(zc.Z3_mk_eq(c, u, v)) for u, v in zip(k, pk)]
                cond = es[0] if len(es) == 1 else self._p(zc.Z3_mk_and(c, len(es), (zc.Ast * len(es))(*es)))
                self.ranges.append(self._p(zc.Z3_mk_implies(c, cond, self._p(zc.Z3_mk_eq(c, r, pr)))))
            apps.append((args, k, r))
            return r
        raise ValueError(op)

    def wrap(self, ast, w):
        return z3.BoolRef(ast, self.ctx) if w == 1 else z3.BitVecRef(ast, self.ctx)

    def _zs(self, w):
        return self.bs if w == 1 else z3.BitVecSort(w)

    def _one(self):
        r = getattr(self, '_one1', None)
        if r is None:
            s = z3.BitVecSort(1)
            self.keep.append(s.ast)
            self._k1 = s
            r = self._one1 = self._p(zc.Z3_mk_numeral(self.c, '1', s.ast))
        return r

    def _popabs(self, a, w):
        x = z3.BitVecRef(a, self.ctx)
        r = z3.BitVec('popcnt(%d)' % len(self.pops), w)
        self.keep.append(r)
        zero = z3.BitVecVal(0, w)
        one = z3.BitVecVal(1, w)
        facts = [z3.ULE(r, z3.BitVecVal(w, w)), (x == zero) == (r == zero), (x == z3.BitVecVal(-1, w)) == (r == z3.BitVecVal(w, w))]
        for (y, s) in self.pops:
            if s.size() != w:
                continue
            u = x & ~y
            v = y & ~x
            pu = z3.And(u != zero, (u & (u - one)) == zero)
            pv = z3.And(v != zero, (v & (v - one)) == zero)
            facts.append(z3.Implies(x == y, r == s))
            facts.append(z3.Implies(z3.And(v == zero, pu), r == s + one))
            facts.append(z3.Implies(z3.And(u == zero, pv), s == r + one))
            facts.append(z3.Implies(v == zero, z3.ULE(s, r)))
            facts.append(z3.Implies(u == zero, z3.ULE(r, s)))
            facts.append(z3.Implies(u == x, z3.ULE(r + s, z3.BitVecVal(w, w))))
        for f in facts:
            self.ranges.append(self._p(f.as_ast()))
        self.keep.extend(facts)
        self.pops.append((x, r))
        return r.as_ast()

    def _popcnt(self, a, w):
        c = self.c
        # SWAR-free adder tree over bits
        n = w
        vals = []
        for i in range(w):
            b = self._p(zc.Z3_mk_extract(c, i, i, a))
            vals.append((b, 1))
        while len(vals) > 1:
            nxt = []
            for i in range(0, len(vals) - 1, 2):
                (p, pw), (q, qw) = vals[i], vals[i + 1]
                ww = max(pw, qw) + 1
                p = self._p(zc.Z3_mk_zero_ext(c, ww - pw, p))
                q = self._p(zc.Z3_mk_zero_ext(c, ww - qw, q))
                nxt.append((self._p(zc.Z3_mk_bvadd(c, p, q)), ww))
            if len(vals) % 2:
                nxt.append(vals[-1])
            vals = nxt
        r, rw = vals[0]
        if rw < w:
            return zc.Z3_mk_zero_ext(c, w - rw, r)
        return zc.Z3_mk_extract(c, w - 1, 0, r)

    def _clz(self, a, w):
        # ite chain from msb down
        c = self.c
        r = self.num(w, w)
        for i in range(w):   # i = bit index ascending; highest wins last
            b = self._p(zc.Z3_mk_extract(c, i, i, a))
            e = self._p(zc.Z3_mk_eq(c, b, self._one()))
            r = self._p(zc.Z3_mk_ite(c, e, self.num(w - 1 - i, w), r))
        return r

    def _ctz(self, a, w):
        c = self.c
        r = self.num(w, w)
        for i in range(w - 1, -1, -1):
            b = self._p(zc.Z3_mk_extract(c, i, i, a))
            e = self._p(zc.Z3_mk_eq(c, b, self._one()))
            r = self._p(zc.Z3_mk_ite(c, e, self.num(i, w), r))
        return r


_BIN = {
    'add': zc.Z3_mk_bvadd, 'mul': zc.Z3_mk_bvmul, 'udiv': zc.Z3_mk_bvudiv, 'urem': zc.Z3_mk_bvurem,
    'sdiv': zc.Z3_mk_bvsdiv, 'srem': zc.Z3_mk_bvsrem, 'and': zc.Z3_mk_bvand, 'or': zc.Z3_mk_bvor,
    'xor': zc.Z3_mk_bvxor, 'shl': zc.Z3_mk_bvshl, 'lshr': zc.Z3_mk_bvlshr, 'ashr': zc.Z3_mk_bvashr,
    'eq': zc.Z3_mk_eq, 'ult': zc.Z3_mk_bvult, 'ule': zc.Z3_mk_bvule, 'slt': zc.Z3_mk_bvslt,
    'sle': zc.Z3_mk_bvsle, 'cat': zc.Z3_mk_concat,
}
