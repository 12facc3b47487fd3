"""Linear-integer back end: an exact encoding of the linear part of the
bit-vector terms (wrap-around made explicit by a bounded quotient), anything
else over-approximated by an unconstrained integer of the term's range.  Only
'unsat' answers count."""
import z3
import terms as X


class Lia:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.n = 0
        self.fns = {}

    def fresh(self, lo, hi):
        self.n += 1
        v = z3.Int('i%d' % self.n)
        self.side.append(v >= lo)
        self.side.append(v <= hi)
        return v

    def sum(self, l, w):
        """Integer value of a linear form with small signed coefficients and its range."""
        c, d = l
        h = 1 << (w - 1)
        M = 1 << w
        if c >= h:
            c -= M
        ts, lo, hi = [], c, c
        for a, k in d.items():
            if k >= h:
                k -= M
            ts.append((a, k))
            lo += k * (a.lo if k > 0 else a.hi)
            hi += k * (a.hi if k > 0 else a.lo)
        return c, ts, lo, hi

    def wrapped(self, s, lo, hi, w, t):
        M = 1 << w
        if lo >= 0 and hi < M:
            return s
        r = self.fresh(t.lo, t.hi)
        k = self.fresh(lo // M, hi // M)
        self.side.append(r == s - M * k)
        return r

    def signed(self, t):
        v = self.low(t)
        h, M = 1 << (t.w - 1), 1 << t.w
        if t.hi < h:
            return v
        if t.lo >= h:
            return v - M
        return z3.If(v >= h, v - M, v)

    def split(self, v, lo, hi, k):
        """v = q * 2^k + r"""
        q = self.fresh(lo >> k, hi >> k)
        r = self.fresh(0, (1 << k) - 1)
        self.side.append(v == q * (1 << k) + r)
        return q, r

    def low(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        st = [t]
        while st:
            x = st[-1]
            if x.id in self.memo:
                st.pop()
                continue
            kids = self.kids(x)
            todo = [k for k in kids if k.id not in self.memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            self.memo[x.id] = self._low(x)
        return self.memo[t.id]

    def kids(self, x):
        if x.op in ('c', 'x', 'base'):
            return []
        if x.op in ('add', 'mul', 'or') and x.w > 1:
            d = X.lin(x)[1]
            if x in d:
                return []
            return list(d)
        if x.op in ('xor', 'ctlz', 'cttz', 'popcnt', 'and') and x.w > 1:
            return [x.a[0]] if self.mask(x) else []
        return [k for k in x.a if isinstance(k, X.T)]

    @staticmethod
    def mask(x):
        """x & (2^k - 1) or x & ~(2^k - 1)"""
        if x.op != 'and' or x.a[1].v is None:
            return None
        m = x.a[1].v
        if m & (m + 1) == 0:
            return ('low', m.bit_length())
        inv = ~m & ((1 << x.w) - 1)
        if inv & (inv + 1) == 0:
            return ('high', inv.bit_length())
        return None

    def _low(self, x):
        op, w = x.op, x.w
        g = lambda i: self.memo[x.a[i].id]
        if op == 'c':
            return z3.BoolVal(bool(x.v)) if w == 1 else z3.IntVal(x.v)
        if op == 'base':
            return z3.IntVal(X.bases[x.a])
        if w == 1:
            if op == 'not':
                return z3.Not(g(0))
            if op == 'and':
                return z3.And(g(0), g(1))
            if op == 'or':
                return z3.Or(g(0), g(1))
            if op == 'xor':
                return z3.Xor(g(0), g(1))
            if op == 'ite':
                return z3.If(g(0), g(1), g(2))
            if op == 'eq':
                return g(0) == g(1)
            if op == 'ult':
                return g(0) < g(1)
            if op == 'ule':
                return g(0) <= g(1)
            if op == 'slt':
                return self.signed(x.a[0]) < self.signed(x.a[1])
            if op == 'sle':
                return self.signed(x.a[0]) <= self.signed(x.a[1])
            if op == 'bit':
                a, k = x.a
                q, r = self.split(g(0), a.lo, a.hi, k)
                if a.hi >> (k + 1):
                    p, b = self.split(q, a.lo >> k, a.hi >> k, 1)
                    return b == 1
                return q == 1
            self.n += 1
            return z3.Bool('b%d' % self.n)
        if op in ('add', 'mul', 'or'):
            l = X.lin(x)
            if x not in l[1]:
                c, ts, lo, hi = self.sum(l, w)
                s = z3.Sum([z3.IntVal(c)] + [k * self.memo[a.id] for a, k in ts])
                return self.wrapped(s, lo, hi, w, x)
        if op == 'ite':
            return z3.If(g(0), g(1), g(2))
        if op == 'zext':
            if x.a[0].w == 1:
                return z3.If(g(0), z3.IntVal(1), z3.IntVal(0))
            return g(0)
        if op == 'sext':
            a = x.a[0]
            if a.w == 1:
                return z3.If(g(0), z3.IntVal((1 << w) - 1), z3.IntVal(0))
            if a.hi < 1 << (a.w - 1):
                return g(0)
            return z3.If(g(0) >= 1 << (a.w - 1), g(0) + ((1 << w) - (1 << a.w)), g(0))
        if op == 'ext':
            a, l, h = x.a[0], x.a[1], x.a[2]
            v, lo, hi = g(0), a.lo, a.hi
            if l:
                v, _ = self.split(v, lo, hi, l)
                lo, hi = lo >> l, hi >> l
            if hi >> (h - l + 1):
                _, v = self.split(v, lo, hi, h - l + 1)
            return v
        if op == 'cat':
            return g(0) * (1 << x.a[1].w) + g(1) if x.a[0].w > 1 and x.a[1].w > 1 else self.fresh(x.lo, x.hi)
        if op == 'lshr' and x.a[1].v is not None and x.a[1].v < w:
            return self.split(g(0), x.a[0].lo, x.a[0].hi, x.a[1].v)[0]
        if op == 'shl' and x.a[1].v is not None and x.a[1].v < w:
            k = 1 << x.a[1].v
            return self.wrapped(g(0) * k, x.a[0].lo * k, x.a[0].hi * k, w, x)
        if op in ('udiv', 'urem') and x.a[1].v:
            a, d = x.a[0], x.a[1].v
            q = self.fresh(a.lo // d, a.hi // d)
            r = self.fresh(0, d - 1)
            self.side.append(g(0) == q * d + r)
            return q if op == 'udiv' else r
        if op == 'and':
            m = self.mask(x)
            if m:
                q, r = self.split(g(0), x.a[0].lo, x.a[0].hi, m[1])
                return r if m[0] == 'low' else q * (1 << m[1])
        if op == 'uf':
            nm = x.a[0]
            args = [a for a in x.a[1:]]
            key = (nm, tuple(a.w for a in args), w)
            f = self.fns.get(key)
            if f is None:
                f = self.fns[key] = z3.Function('f%d' % len(self.fns), *([z3.BoolSort() if a.w == 1 else z3.IntSort() for a in args] + [z3.IntSort()]))
            r = f(*[self.memo[a.id] for a in args])
            self.side.append(r >= x.lo)
            self.side.append(r <= x.hi)
            return r
        return self.fresh(x.lo, x.hi)


class LiaDischarger:
    def __init__(self, E):
        self.E = E
        self.l = Lia()
        self.s = z3.SolverFor('QF_UFLIA')
        self.na = self.nr = 0
        self.time = 0.0
        self.calls = 0

    def flush(self):
        for r in self.l.side[self.nr:]:
            self.s.add(r)
        self.nr = len(self.l.side)

    def upto(self, n):
        for a in self.E.axioms[self.na:n]:
            z = self.l.low(a)
            self.flush()
            self.s.add(z)
        self.na = max(self.na, n)

    def unsat(self, t, tmo):
        import time
        t0 = time.time()
        z = self.l.low(t)
        self.flush()
        self.s.set('timeout', int(tmo * 1000))
        self.s.push()
        self.s.add(z)
        r = self.s.check()
        self.s.pop()
        self.time += time.time() - t0
        self.calls += 1
        return r == z3.unsat
