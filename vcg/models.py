"""Models of LLVM intrinsics, the harness interface and a few externals."""
import terms as X
from terms import const, var, ite, and_, or_, not_, implies, add, sub, mul, eq, ult, ule, slt, sle, zext, sext, trunc, extract, cat, TRUE, FALSE, conj

NOT = object()


def cstr(E, p, st):
    """Constant C string at pointer p."""
    import engine
    res = E.resolve(p)
    if len(res) != 1 or res[0][1] is None or res[0][2].v is None:
        return '?'
    _, oid, off = res[0]
    o = E.objs[oid]
    s = E.os_r(st, oid)
    out = []
    k = off.v
    while k < o.size and len(out) < 400:
        b = E.cell_read(o, s, k, 1)
        if b.v is None or b.v == 0:
            break
        out.append(chr(b.v))
        k += 1
    return ''.join(out)


def obj_at(E, p):
    res = [r for r in E.resolve(p)]
    if len(res) != 1 or res[0][1] is None:
        raise_err(E, 'ambiguous pointer')
    return res[0][1], res[0][2]


def raise_err(E, m):
    import engine
    raise engine.EngineError(m + ' at ' + E.where())


def log_any(E, name, kind, g, payload):
    E.anys.append((name, kind, g, payload))


def copy_mem(E, st, dst, src, n, g):
    """memcpy/memmove with concrete n, value semantics (reads precede writes)."""
    if n == 0:
        return
    rs = E.resolve(src)
    chunks = []
    if len(rs) == 1 and rs[0][1] is not None and rs[0][2].v is not None:
        oid, off = rs[0][1], rs[0][2].v
        o = E.objs[oid]
        if oid in st.mem or o.kind == 'global':
            s = E.os_r(st, oid)
            rd = E.resolve(dst)
            # whole-object copies keep arrays intact
            if len(rd) == 1 and rd[0][1] is not None and rd[0][2].v is not None:
                d_oid, d_off = rd[0][1], rd[0][2].v
                do = E.objs[d_oid]
                if o.regions and do.regions and isinstance(o.size, int) and n <= o.size - off:
                    if copy_regions(E, st, do, d_off, o, off, n, g):
                        return
            p = 0
            while p < n:
                a = off + p
                c = s.cells.get(a)
                if c is not None and p + c[0] <= n:
                    m = c[0]
                else:
                    r = E.in_region(o, a)
                    if r is not None:
                        ri, reg = r
                        b = (a - reg.start) % reg.stride
                        m = reg.leaf.get(b, 1)
                        if p + m > n:
                            m = 1
                    else:
                        m = 8 if a % 8 == 0 else (4 if a % 4 == 0 else (2 if a % 2 == 0 else 1))
                        while p + m > n or any((a + k) in s.cells for k in range(1, m)) or (o.regions and any(E.in_region(o, a + k) for k in range(1, m))):
                            m //= 2
                            if m <= 1:
                                m = 1
                                break
                chunks.append((p, m))
                p += m
    if not chunks:
        p = 0
        w = 8
        # element width suggested by array regions on either side
        for ptr in (src, dst):
            for _, oid, _ in E.resolve(ptr):
                if oid is not None:
                    for reg in E.objs[oid].regions:
                        w = min([w] + list(reg.leaf.values()))
        while p < n:
            m = w
            while p + m > n:
                m //= 2
            chunks.append((p, m))
            p += m
    vals = [(p, m, E.load(st, add(src, const(p, 64)), m, g)) for p, m in chunks]
    for p, m, v in vals:
        E.store(st, add(dst, const(p, 64)), m, v, g)


def copy_regions(E, st, do, d_off, o, off, n, g):
    """Copy [off, off+n) of o to d_off of do when array regions line up."""
    delta = d_off - off
    pairs = []
    for ri, reg in enumerate(o.regions):
        a, b = reg.start, reg.start + reg.count * reg.stride
        if b <= off or a >= off + n:
            continue
        if a < off or b > off + n:
            return False
        for rj, r2 in enumerate(do.regions):
            if r2.start == a + delta and r2.count == reg.count and r2.stride == reg.stride and r2.leaf == reg.leaf:
                pairs.append((ri, rj, a, b))
                break
        else:
            return False
    if not pairs:
        return False
    if do.ro:
        return False
    s = E.os_r(st, o.id)
    arr = {}
    for ri, rj, a, b in pairs:
        for lf in o.regions[ri].leaf:
            arr[(rj, lf)] = E.get_arr(o, s, ri, lf)
    # the gaps
    pos = off
    gaps = []
    for ri, rj, a, b in sorted(pairs, key=lambda t: t[2]):
        if pos < a:
            gaps.append((pos, a))
        pos = b
    if pos < off + n:
        gaps.append((pos, off + n))
    for a, b in gaps:
        copy_mem(E, st, add(do.base, const(a + delta, 64)), add(o.base, const(a, 64)), b - a, g)
    d = E.os_w(st, do.id)
    d.arrs.update(arr)
    return True


def copy_sym(E, st, dst, src, n, g):
    """memcpy with a symbolic byte count (between two arrays of one element
    width: any count; otherwise bounded by its range)."""
    if range_copy(E, st, dst, src, n, g):
        return
    c, d = X.lin(n)
    import math
    gg = c
    for v in d.values():
        gg = math.gcd(gg, v)
    w = 8
    for ptr in (src, dst):
        for _, oid, _ in E.resolve(ptr):
            if oid is not None:
                for reg in E.objs[oid].regions:
                    w = min([w] + list(reg.leaf.values()))
    while w > 1 and gg % w:
        w //= 2
    hi = bound_of(E, n, g, 4096)
    # reads happen before writes
    vals = []
    for p in range(0, hi, w):
        c = ult(const(p, 64), n)
        if c is FALSE:
            break
        v = E.load(st, add(src, const(p, 64)), w, E.gext(g, c))
        vals.append((p, c, v))
    for p, c, v in vals:
        q = add(dst, const(p, 64))
        if c is TRUE:
            E.store(st, q, w, v, g)
        else:
            gg2 = E.gext(g, c)
            old = E.load(st, q, w, gg2)
            E.store(st, q, w, ite(c, v, old), gg2)


def whole_region(E, st, p, nulls=None):
    rd = E.resolve(p)
    if nulls is not None and len([x for x in rd if x[1] is not None]) == 1:
        nulls += [c for c, o, _ in rd if o is None]
        rd = [x for x in rd if x[1] is not None]
    if len(rd) != 1 or rd[0][1] is None:
        return None
    o = E.objs[rd[0][1]]
    if len(o.regions) != 1 or (o.id not in st.mem and o.kind != 'global'):
        return None
    reg = o.regions[0]
    end = reg.count * reg.stride
    if reg.start != 0 or reg.leaf != {0: reg.stride} or (isinstance(o.size, int) and end != o.size):
        return None
    return o, reg, rd[0][2]


def exact_div(t, w):
    """t / w, t a linear term with (signed) coefficients divisible by w, or None.
    Valid for values that are in bounds of an object."""
    c, d = X.lin(t)

    def sg(v):
        return v - (1 << 64) if v >> 63 else v
    if sg(c) % w or any(sg(v) % w for v in d.values()):
        return None
    M = (1 << 64) - 1
    return X.from_lin((sg(c) // w & M, {k: sg(v) // w & M for k, v in d.items()}), 64)


def range_copy(E, st, dst, src, n, g):
    import engine
    nulls = []
    a, b = whole_region(E, st, dst, nulls), whole_region(E, st, src, nulls)
    if a is None or b is None or a[1].stride != b[1].stride or a[0].ro:
        return False
    w = a[1].stride

    def div(t):
        return exact_div(t, w)
    di, si, ni = div(a[2]), div(b[2]), div(n)
    if di is None or si is None or ni is None:
        return False
    for c in nulls:
        E.obligation('memory-safety', 'memcpy of valid objects', g, or_(eq(n, const(0, 64)), not_(c)))
    for (o, reg, off), what in ((a, 'to'), (b, 'from')):
        sz = const(o.size, 64) if isinstance(o.size, int) else o.size
        ok = and_(ule(n, sz), ule(off, sub(sz, n)))
        if w > 1:  # (the quotients are the true ones)
            ok = and_(ok, and_(ule(ni, const(1 << 48, 64)), ule(di if o is a[0] and what == 'to' else si, const(1 << 48, 64))))
        E.obligation('memory-safety', 'memcpy %s within %s' % (what, o.name), g, or_(eq(n, const(0, 64)), ok))
    so, do = b[0], a[0]
    s = E.os_r(st, so.id)
    sv = E.get_arr(so, s, 0, 0)
    s = E.os_w(st, do.id)
    s.arrs[(0, 0)] = engine.AV('copy', E.get_arr(do, s, 0, 0), di, add(di, ni), sv, si)
    return True


def bound_of(E, n, g, limit):
    """A concrete upper bound for n under g (checked with the solver)."""
    if n.hi <= limit:
        return n.hi
    b = 8
    while b <= limit:
        if not E.feasible(g + (ult(const(b, n.w), n),)):
            return b
        b *= 2
    raise_err(E, 'no small bound for a symbolic size')


def set_mem(E, st, dst, byte, n, g):
    if n.v is not None:
        k = 0
        N = n.v
        rd = E.resolve(dst)
        if len(rd) > 1 and N > 512:
            if not E.feasible(g):
                return
            rd = [x for x in rd if E.feasible(E.gext(g, x[0]))]
        if len(rd) == 1 and rd[0][1] is not None and rd[0][2].v is not None:
            oid, off = rd[0][1], rd[0][2].v
            o = E.objs[oid]
            if isinstance(o.size, int) and off + N <= o.size and not o.ro and (oid in st.mem or o.kind == 'global'):
                s = E.os_w(st, oid)
                if off == 0 and N == o.size and byte.v is not None:
                    s.cells = {}
                    s.arrs = {}
                    s.init = ('fill', byte.v)
                    return
                while k < N:
                    a = off + k
                    r = E.in_region(o, a)
                    if r is not None:
                        ri, reg = r
                        end = reg.start + reg.count * reg.stride
                        if a == reg.start and off + N >= end:
                            for lf, m in reg.leaf.items():
                                s.arrs[(ri, lf)] = E_fill(byte, m)
                            k = end - off
                            continue
                        b = (a - reg.start) % reg.stride
                        m = reg.leaf.get(b, 1)
                        if (a - reg.start) % reg.stride == 0 and (off + N - a) >= reg.stride * 4:
                            import engine
                            cnt = (min(off + N, end) - a) // reg.stride
                            i0 = (a - reg.start) // reg.stride
                            for lf, m in reg.leaf.items():
                                v = rep(byte, m)
                                s.arrs[(ri, lf)] = engine.AV('rng', E.get_arr(o, s, ri, lf), const(i0, 64), const(i0 + cnt, 64), v)
                            k += cnt * reg.stride
                            continue
                    else:
                        c = s.cells.get(a)
                        if c is not None and k + c[0] <= N:
                            m = c[0]
                        else:
                            m = 8
                            while a % m or k + m > N or any((a + q) in s.cells for q in range(1, m)):
                                m //= 2
                    if k + m > N:
                        m = 1
                    E.cell_write(o, s, a, m, rep(byte, m))
                    k += m
                return
        w = 8
        for _, oid, _ in rd:
            if oid is not None:
                for reg in E.objs[oid].regions:
                    w = min([w] + list(reg.leaf.values()))
        # symbolic position in one array region: a range fill
        if len(rd) == 1 and rd[0][1] is not None:
            if range_fill(E, st, rd[0][1], rd[0][2], byte, n, g):
                return
        while k < N:
            m = w
            while k + m > N:
                m //= 2
            E.store(st, add(dst, const(k, 64)), m, rep(byte, m), g)
            k += m
        return
    rd = E.resolve(dst)
    if len([x for x in rd if x[1] is not None]) == 1:
        # the rest (null, ...) must be unreachable
        for c, oid, off in rd:
            if oid is None:
                E.obligation('memory-safety', 'memset of a valid object', g, or_(eq(n, const(0, 64)), not_(c)))
        rd = [x for x in rd if x[1] is not None]
    if len(rd) == 1 and rd[0][1] is not None:
        if range_fill(E, st, rd[0][1], rd[0][2], byte, n, g):
            return
    hi = bound_of(E, n, g, 4096)
    for p in range(0, hi):
        c = ult(const(p, 64), n)
        if c is FALSE:
            break
        q = add(dst, const(p, 64))
        gg = E.gext(g, c)
        old = E.load(st, q, 1, gg)
        E.store(st, q, 1, ite(c, byte, old), gg)


def range_fill(E, st, oid, off, byte, n, g):
    import engine
    o = E.objs[oid]
    for ri, reg in enumerate(o.regions):
        end = reg.start + reg.count * reg.stride
        whole = reg.start == 0 and isinstance(o.size, int) and end == o.size
        if len(o.regions) == 1 and reg.start == 0 and not isinstance(o.size, int) and reg.leaf == {0: reg.stride}:
            end = o.size
        elif whole:
            end = const(end, 64)
        else:
            continue
        lo = exact_div(off, reg.stride)
        cnt = exact_div(n, reg.stride)
        if lo is None or cnt is None:
            return False
        ok = and_(ule(n, end), ule(off, sub(end, n)))
        if reg.stride > 1:
            ok = and_(ok, and_(ule(lo, const(1 << 48, 64)), ule(cnt, const(1 << 48, 64))))
        E.obligation('memory-safety', 'memset within ' + o.name, g, or_(eq(n, const(0, 64)), ok))
        s = E.os_w(st, oid)
        for lf, m in reg.leaf.items():
            s.arrs[(ri, lf)] = engine.AV('rng', E.get_arr(o, s, ri, lf), lo, add(lo, cnt), rep(byte, m))
        return True
    return False


def rep(byte, m):
    r = byte
    for _ in range(m - 1):
        r = cat(r, byte)
    return r


def E_fill(byte, m):
    import engine
    return engine.AV('fill', rep(byte, m))


def havoc(E, st, p, n, name, g):
    oid, off = obj_at(E, p)
    o = E.objs[oid]
    if off.v is None or n.v is None:
        raise_err(E, 'havoc of symbolic extent')
    gen = '%s.h%d' % (name, E.fresh)
    E.fresh += 1
    s = E.os_w(st, oid)
    if off.v == 0 and (o.size is n or o.size == n.v):
        s.cells = {}
        s.arrs = {}
        s.init = ('havoc', gen)
        log_any(E, name, 'mem', g, (oid, gen, 0, n.v))
        return
    # partial: explicit fresh cells / arrays
    k = 0
    import engine
    cells = []
    while k < n.v:
        a = off.v + k
        r = E.in_region(o, a)
        if r is not None:
            ri, reg = r
            end = reg.start + reg.count * reg.stride
            if a == reg.start and off.v + n.v >= end:
                for lf, m in reg.leaf.items():
                    nm = '%s#%d.%d' % (gen, ri, lf)
                    s.arrs[(ri, lf)] = engine.AV('init', nm)
                cells.append((k, 'arr', gen, ri, reg))
                k = end - off.v
                continue
            m = reg.leaf.get((a - reg.start) % reg.stride, 1)
        else:
            m = 8
            while a % m or k + m > n.v:
                m //= 2
        v = var('%s@%d' % (gen, k), m * 8)
        E.cell_write(o, s, a, m, v)
        cells.append((k, m, v))
        k += m
    log_any(E, name, 'memp', g, (cells, n.v))


def intrinsic(E, ctx, ins, name, a, g, st):
    if name.startswith('llvm.'):
        return llvm(E, ins, name, a, g, st)
    f = H.get(name)
    if f is not None:
        return f(E, ins, a, g, st)
    fn = E.mod.fns.get(name)
    if name in NORETURN or 'tcmalloc_internal11CheckFailed' in name or 'tcmalloc_internal12CrashWithOOM' in name or \
            (fn is not None and fn.decl and (fn.noreturn or ins.get('noreturn'))):
        E.obligation('check', 'failure handler %s is reached' % short(name), g, FALSE)
        import engine
        raise engine.PathDead()
    return NOT


NORETURN = {'abort', 'exit', '_exit', '__assert_fail'}


def short(n):
    for k in ('CheckFailed', 'Crash', 'abort', '__assert_fail'):
        if k in n:
            return k
    return n[:60]


def llvm(E, ins, name, a, g, st):
    p = name.split('.')
    k = p[1]
    if k in ('lifetime', 'dbg', 'assume', 'prefetch', 'donothing', 'experimental', 'invariant', 'stackrestore', 'var', 'sideeffect', 'pseudoprobe', 'va_start', 'va_end', 'va_copy'):
        return const(0, 64), g, st
    if k == 'expect':
        return a[0], g, st
    if k == 'stacksave':
        return const(0, 64), g, st
    if k in ('memcpy', 'memmove'):
        d, s, n = a[0], a[1], a[2]
        if n.v is not None:
            copy_mem(E, st, d, s, n.v, g)
        else:
            copy_sym(E, st, d, s, n, g)
        return None, g, st
    if k == 'memset':
        set_mem(E, st, a[0], a[1], zext(a[2], 64) if a[2].w < 64 else a[2], g)
        return None, g, st
    w = a[0].w if a and isinstance(a[0], X.T) else 0
    if k == 'ctpop':
        return X.popcnt(a[0]), g, st
    if k == 'ctlz':
        if w == 1:
            return not_(a[0]), g, st
        return X.ctlz(a[0]), g, st
    if k == 'cttz':
        return X.cttz(a[0]), g, st
    if k == 'umin':
        return ite(ult(a[0], a[1]), a[0], a[1]), g, st
    if k == 'umax':
        return ite(ult(a[0], a[1]), a[1], a[0]), g, st
    if k == 'smin':
        return ite(slt(a[0], a[1]), a[0], a[1]), g, st
    if k == 'smax':
        return ite(slt(a[0], a[1]), a[1], a[0]), g, st
    if k == 'abs':
        return ite(slt(a[0], const(0, w)), X.neg(a[0]), a[0]), g, st
    if k == 'bswap':
        return X.bswap(a[0]), g, st
    if k in ('fshl', 'fshr'):
        x, y, s = a
        s = X.urem(s, const(w, w))
        z = eq(s, const(0, w))
        c = sub(const(w, w), s)
        if k == 'fshl':
            return ite(z, x, X.bor(X.shl(x, s), X.lshr(y, c))), g, st
        return ite(z, y, X.bor(X.shl(x, c), X.lshr(y, s))), g, st
    if k == 'uadd' and p[2] == 'with':
        r = add(a[0], a[1])
        return (r, ult(r, a[0])), g, st
    if k == 'usub' and p[2] == 'with':
        return (sub(a[0], a[1]), ult(a[0], a[1])), g, st
    if k == 'umul' and p[2] == 'with':
        r = mul(a[0], a[1])
        if a[0].hi * a[1].hi < (1 << w):
            return (r, FALSE), g, st
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            if y.v is not None:
                if y.v == 0:
                    return (r, FALSE), g, st
                return (r, ult(const(((1 << w) - 1) // y.v, w), x)), g, st
        big = mul(zext(a[0], 2 * w), zext(a[1], 2 * w))
        return (r, not_(eq(extract(big, 2 * w - 1, w), const(0, w)))), g, st
    if k in ('sadd', 'ssub') and p[2] == 'with':
        x, y = sext(a[0], w + 1), sext(a[1], w + 1)
        big = add(x, y) if k == 'sadd' else sub(x, y)
        r = add(a[0], a[1]) if k == 'sadd' else sub(a[0], a[1])
        half = 1 << (w - 1)
        if k == 'sadd' and a[0].hi + a[1].hi < half:
            return (r, FALSE), g, st
        if k == 'ssub' and a[0].hi < half and a[1].hi < half:
            return (r, FALSE), g, st
        return (r, not_(eq(big, sext(r, w + 1)))), g, st
    if k == 'smul' and p[2] == 'with':
        r = mul(a[0], a[1])
        if a[0].hi * a[1].hi < (1 << (w - 1)):
            return (r, FALSE), g, st
        big = mul(sext(a[0], 2 * w), sext(a[1], 2 * w))
        return (r, not_(eq(big, sext(r, 2 * w)))), g, st
    if k == 'usub' and p[2] == 'sat':
        return ite(ult(a[0], a[1]), const(0, w), sub(a[0], a[1])), g, st
    if k == 'uadd' and p[2] == 'sat':
        r = add(a[0], a[1])
        return ite(ult(r, a[0]), const(-1, w), r), g, st
    if k == 'usub' or k == 'uadd':
        pass
    if k == 'objectsize':
        return const(-1 if a[1].v == 0 else 0, 64), g, st
    if k == 'is':
        return FALSE, g, st
    if k == 'trap' or k == 'ubsantrap':
        code = a[0].v if a else 0
        E.obligation('undefined-behaviour', 'ubsan trap %s' % UBSAN.get(code, code), g, FALSE)
        import engine
        raise engine.PathDead()
    if k == 'load' or k == 'threadlocal':
        return a[0], g, st
    if k == 'ucmp' or k == 'scmp':
        lt = ult(a[0], a[1]) if k == 'ucmp' else slt(a[0], a[1])
        gt = ult(a[1], a[0]) if k == 'ucmp' else slt(a[1], a[0])
        import engine
        rw = engine.type_width(ins['ty'])
        return ite(lt, const(-1, rw), ite(gt, const(1, rw), const(0, rw))), g, st
    if k in ('ceil', 'floor', 'fabs', 'sqrt', 'fmuladd', 'trunc', 'rint', 'nearbyint', 'maxnum', 'minnum', 'log', 'log2', 'exp', 'pow', 'fma', 'copysign', 'round'):
        if w in (32, 64) and all(x.v is not None and x.w == w for x in a):
            import engine, math
            f = [engine._f2i(x.v, w) for x in a]
            try:
                r = {'fmuladd': lambda: f[0] * f[1] + f[2], 'ceil': lambda: float(math.ceil(f[0])),
                     'floor': lambda: float(math.floor(f[0])), 'fabs': lambda: abs(f[0]),
                     'sqrt': lambda: math.sqrt(f[0]), 'trunc': lambda: float(math.trunc(f[0]))}[k]()
                return const(engine._i2f(r, w), w), g, st
            except (KeyError, ValueError, OverflowError):
                pass
        return X.fop('i' + k, [x for x in a], w), g, st
    if k == 'bitreverse':
        r = None
        for i in range(w):
            b = ite(extract(a[0], i, i), const(1 << (w - 1 - i), w), const(0, w))
            r = b if r is None else X.bor(r, b)
        return r, g, st
    raise_err(E, 'intrinsic ' + name)


UBSAN = {0: 'add overflow', 1: 'builtin unreachable', 3: 'divide by zero', 10: 'negate overflow',
         11: 'null', 12: 'mul overflow', 18: 'bounds', 19: 'pointer overflow', 20: 'shift out of bounds',
         21: 'sub overflow', 22: 'type mismatch', 10: 'load invalid value', 8: 'missing return'}


# ---------------------------------------------------------------- harness API
def h_any(w):
    def f(E, ins, a, g, st):
        nm = cstr(E, a[0], st)
        v = E.newvar(nm, w)
        log_any(E, nm, 'int', g, v)
        return v, g, st
    return f


def h_range(E, ins, a, g, st):
    nm = cstr(E, a[0], st)
    if a[1].v is None or a[2].v is None:
        v = E.newvar(nm, 64)
        E.axioms.append(implies(conj(g), and_(ule(a[1], v), ule(v, a[2]))))
    else:
        w = 64
        # a narrow variable keeps queries small
        hi = a[2].v
        bw = max(2, hi.bit_length())
        if bw < 64:
            v = zext(E.newvar(nm, bw, a[1].v, hi), 64)
        else:
            v = E.newvar(nm, 64, a[1].v, hi)
    log_any(E, nm, 'int', g, v)
    return v, g, st


def h_uf(E, ins, a, g, st):
    """__v_uf(name, a, b, c, d): an arbitrary function of its arguments."""
    nm = cstr(E, a[0], st)
    r = X.uf('ghost.' + nm, list(a[1:5]), 64)
    log_any(E, nm, 'uf', g, tuple(a[1:5]) + (r,))
    return r, g, st


def h_assume(E, ins, a, g, st):
    E.axioms.append(implies(conj(g), a[0]))
    return None, g, st


def h_assert(E, ins, a, g, st):
    nm = cstr(E, a[1], st)
    E.obligation('contract', nm, g, a[0])
    return None, g, st


def h_cover(E, ins, a, g, st):
    nm = cstr(E, a[1], st)
    E.covers.append((nm, g, a[0], len(E.axioms)))
    return None, g, st


def h_havoc(E, ins, a, g, st):
    havoc(E, st, a[0], a[1], cstr(E, a[2], st), g)
    return None, g, st


def h_arr(E, ins, a, g, st):
    """__v_arr(elem_bytes, count, name): fresh array object with arbitrary contents."""
    import engine
    es, n = a[0], a[1]
    nm = cstr(E, a[2], st)
    if es.v is None:
        raise_err(E, 'symbolic element size')
    if n.v is not None:
        ty = ['a', n.v, ['i', es.v * 8], es.v]
        o = E.new_obj(nm, n.v * es.v, ty, 'heap', 64)
        if n.v < engine.ARR_MIN:
            o.regions = []
    else:
        mx = n.hi
        o = E.new_obj(nm, mul(n, es), None, 'heap', 64)
        r = engine.Region()
        r.start, r.count, r.stride, r.leaf = 0, mx, es.v, {0: es.v}
        o.regions = [r]
    gen = '%s.a%d' % (nm, E.fresh)
    E.fresh += 1
    E.init_obj(st, o, ('havoc', gen))
    log_any(E, nm, 'mem', g, (o.id, gen, 0, n.v * es.v if n.v is not None else mx * es.v))
    return o.base, g, st


def h_region(E, ins, a, g, st):
    """__v_region(addr, bytes, elem, name): memory at a given address, arbitrary contents."""
    import engine
    addr, n, es = a[0], a[1], a[2]
    nm = cstr(E, a[3], st)
    o = E.new_obj(nm, n.v if n.v is not None else n, None, 'heap', 1, base=addr)
    r = engine.Region()
    r.start, r.count, r.stride, r.leaf = 0, (n.hi // es.v), es.v, {0: es.v}
    o.regions = [r]
    gen = '%s.r%d' % (nm, E.fresh)
    E.fresh += 1
    E.init_obj(st, o, ('havoc', gen))
    log_any(E, nm, 'mem', g, (o.id, gen, 0, n.hi))
    return addr, g, st


def h_freeze_snapshot(E, ins, a, g, st):
    return None, g, st


def h_sym(E, ins, a, g, st):
    return TRUE, g, st


def h_malloc(E, ins, a, g, st):
    n = a[-1]
    if n.v is None:
        raise_err(E, 'allocation of symbolic size')
    o = E.new_obj('heap', n.v, None, 'heap', 64)
    E.init_obj(st, o, ('havoc', 'heap%d' % o.id))
    return o.base, g, st


def h_nop(E, ins, a, g, st):
    import engine
    w = engine.type_width(ins['ty'])
    return (const(0, w) if w else None), g, st


def h_void(E, ins, a, g, st):
    return None, g, st


def h_memcpy(E, ins, a, g, st):
    if a[2].v is not None:
        copy_mem(E, st, a[0], a[1], a[2].v, g)
    else:
        copy_sym(E, st, a[0], a[1], a[2], g)
    return a[0], g, st


def h_memset(E, ins, a, g, st):
    set_mem(E, st, a[0], trunc(a[1], 8), a[2], g)
    return a[0], g, st


def h_split(E, ins, a, g, st):
    """__v_split(x, k): the case x == k of the iteration whose invariant is
    assumed (the other cases are other harnesses)."""
    v, k = a[0], a[1]
    if E.ghost.get('inv_mode') == 'assume' and k.v is not None:
        E.ghost['split_seen'] = True
        if v.v is not None or not E.ghost.get('split_on'):
            return v, g, st
        E.axioms.append(eq(v, k))
        if v.op == 'x':
            E.ghost.setdefault('splits', []).append((v, k))
        v = k
    return v, g, st


def h_assuming(E, ins, a, g, st):
    """__v_assuming(): the invariant is being assumed (not checked)."""
    return X.boolc(E.ghost.get('inv_mode') == 'assume'), g, st


def h_feasible(E, ins, a, g, st):
    """__v_possible(bool): concrete answer whether the condition is satisfiable here."""
    r = E.feasible(g + (a[0],)) if a[0] is not FALSE else False
    return X.boolc(r), g, st


def h_kill(E, ins, a, g, st):
    """__v_stop(): end this path (assume false)."""
    E.axioms.append(not_(conj(g)))
    E.ghost['stopped'] = True
    import engine
    raise engine.PathDead()


H = {
    '__v_any1': h_any(1), '__v_any8': h_any(8), '__v_any16': h_any(16), '__v_any32': h_any(32),
    '__v_any64': h_any(64), '__v_range': h_range, '__v_uf': h_uf, '__v_assume': h_assume, '__v_assert': h_assert,
    '__v_cover': h_cover, '__v_havoc': h_havoc, '__v_arr': h_arr, '__v_region': h_region,
    '__v_split': h_split, '__v_assuming': h_assuming, '__v_symbolic': h_sym, '__v_possible': h_feasible, '__v_stop': h_kill,
    '__v_malloc': h_malloc, '_Znwm': h_malloc, '_Znam': h_malloc, 'malloc': h_malloc,
    '_ZdlPv': h_void, '_ZdlPvm': h_void, '_ZdaPv': h_void, 'free': h_void,
    'memcpy': h_memcpy, 'memmove': h_memcpy, 'memset': h_memset,
    'atexit': h_nop, '__cxa_atexit': h_nop,
}
