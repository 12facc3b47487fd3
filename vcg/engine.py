"""Verification-condition generator over LLVM IR.

A contract harness (a C++ function h_*) is executed symbolically over the IR
of the real code.  Control-flow joins merge states, so a harness yields one
set of guarded obligations covering every path; loops are unrolled until the
solver proves the next iteration infeasible (complete), or until a stated
bound (recorded as bounded).
"""
import json
import sys
import time
import terms as X
from terms import (T, const, var, ite, and_, or_, not_, implies, conj, add, sub, mul, eq, ult, ule,
                   slt, sle, zext, sext, trunc, extract, cat, TRUE, FALSE, lin)

M64 = (1 << 64) - 1


class EngineError(Exception):
    """The harness could not be turned into verification conditions."""


class PathDead(Exception):
    pass


# ---------------------------------------------------------------- IR helpers
class Fn:
    __slots__ = ('name', 'decl', 'params', 'ret', 'blocks', 'noreturn', 'plan', 'idom', 'pd', 'src', 'anchor', 'loops', 'nid')


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {}
        for f in d['functions']:
            o = Fn()
            o.name = f['name']
            o.decl = f['decl']
            o.params = f['params']
            o.ret = f['ret']
            o.noreturn = f['noreturn']
            o.blocks = f.get('blocks')
            o.src = f.get('src')
            o.plan = None
            self.fns[o.name] = o
        self.globals = {g['name']: g for g in d['globals']}
        self.ctors = d.get('ctors', [])


def succs(b):
    t = b['insts'][-1]
    if t['op'] == 'br':
        return t['to']
    if t['op'] == 'switch':
        r = [c[1] for c in t['cases']] + [t['default']]
        return list(dict.fromkeys(r))
    return []


def plan_fn(f):
    """Loop-nest order, dominators and 'anchors' (see merge)."""
    n = len(f.blocks)
    su = [succs(b) for b in f.blocks]
    # RPO
    order = []
    seen = [False] * n
    st = [(0, iter(su[0]))]
    seen[0] = True
    while st:
        u, it = st[-1]
        for v in it:
            if not seen[v]:
                seen[v] = True
                st.append((v, iter(su[v])))
                break
        else:
            order.append(u)
            st.pop()
    order.reverse()
    rpo = {b: i for i, b in enumerate(order)}
    pr = [[] for _ in range(n)]
    for u in order:
        for v in su[u]:
            pr[v].append(u)
    # idom
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in pr[b] if p in idom]
            x = ps[0]
            for p in ps[1:]:
                y = p
                while x != y:
                    while rpo[x] > rpo[y]:
                        x = idom[x]
                    while rpo[y] > rpo[x]:
                        y = idom[y]
            if idom.get(b) != x:
                idom[b] = x
                ch = True
    # blocks from which every path ends in unreachable ("dead") are ignored for post-dominance
    live = set()
    rets = [u for u in order if f.blocks[u]['insts'][-1]['op'] == 'ret']
    wk = list(rets)
    live.update(rets)
    while wk:
        u = wk.pop()
        for p in pr[u]:
            if p not in live:
                live.add(p)
                wk.append(p)
    # post-dominators over live subgraph
    EXIT = -1
    lsu = {u: [v for v in su[u] if v in live] for u in live}
    for r in rets:
        lsu[r] = [EXIT]
    # reverse rpo from EXIT
    rpr = {EXIT: []}
    for u in live:
        rpr.setdefault(u, [])
    for u in live:
        for v in lsu[u]:
            rpr[v].append(u)
    po = []
    seen2 = {EXIT}
    st = [(EXIT, iter(rpr[EXIT]))]
    while st:
        u, it = st[-1]
        for v in it:
            if v not in seen2:
                seen2.add(v)
                st.append((v, iter(rpr[v])))
                break
        else:
            po.append(u)
            st.pop()
    po.reverse()
    prp = {b: i for i, b in enumerate(po)}
    ipd = {EXIT: EXIT}
    ch = True
    while ch:
        ch = False
        for b in po[1:]:
            ss = [s for s in lsu[b] if s in ipd]
            if not ss:
                continue
            x = ss[0]
            for p in ss[1:]:
                y = p
                while x != y:
                    while prp[x] > prp[y]:
                        x = ipd[x]
                    while prp[y] > prp[x]:
                        y = ipd[y]
            if ipd.get(b) != x:
                ipd[b] = x
                ch = True

    def postdom(a, b):   # a postdominates b
        x = b
        while True:
            if x == a:
                return True
            if x == EXIT or x not in ipd:
                return False
            x = ipd[x]
    loops = [tuple(b['loops']) for b in f.blocks]   # innermost first
    anchor = {}
    for b in order[1:]:
        d = idom[b]
        a = None
        while True:
            ld = loops[d]
            # innermost loop of d must contain b
            if (not ld or ld[0] in loops[b]) and b in live and d in live and postdom(b, d) and not (ld != loops[b] and len(ld) > len(loops[b])):
                # same iteration: d's loops are a subset of b's loops and no extra back edge between
                a = d
                break
            if d == 0:
                break
            d = idom[d]
        anchor[b] = a
    f.anchor = anchor
    f.idom = idom
    f.loops = loops
    # nested plan: for loop L (or None): ordered list of ('b', blk) | ('l', header)
    members = {}
    for b in order:
        ls = loops[b]
        members.setdefault(None, [])
        key = (ls[0] if ls else None)
        members.setdefault(key, []).append(b)
    plan = {}
    headers = set(h for ls in loops for h in ls)
    parent = {}
    for h in headers:
        ls = loops[h]
        parent[h] = ls[1] if len(ls) > 1 else None
    for L in list(headers) + [None]:
        items = []
        for b in order:
            ls = loops[b]
            if L is None:
                chain = ls
                rep = ('b', b) if not ls else ('l', ls[-1])
            else:
                if L not in ls:
                    continue
                i = ls.index(L)
                rep = ('b', b) if i == 0 else ('l', ls[i - 1])
            if rep not in items:
                items.append(rep)
        # topological order of the collapsed graph, ignoring back edges to L
        idx = {it: i for i, it in enumerate(items)}

        def rep_of(b):
            ls = loops[b]
            if L is None:
                return ('b', b) if not ls else ('l', ls[-1])
            if L not in ls:
                return None
            i = ls.index(L)
            return ('b', b) if i == 0 else ('l', ls[i - 1])
        indeg = {it: 0 for it in items}
        es = {it: set() for it in items}
        for b in order:
            r = rep_of(b)
            if r is None:
                continue
            for v in su[b]:
                q = rep_of(v)
                if q is None or q == r or v == L:
                    continue
                if q not in es[r]:
                    es[r].add(q)
                    indeg[q] += 1
        import heapq
        hp = [(idx[it], it) for it in items if indeg[it] == 0]
        heapq.heapify(hp)
        out = []
        while hp:
            _, it = heapq.heappop(hp)
            out.append(it)
            for q in es[it]:
                indeg[q] -= 1
                if indeg[q] == 0:
                    heapq.heappush(hp, (idx[q], q))
        if len(out) != len(items):
            raise EngineError('irreducible control flow in ' + f.name)
        plan[L] = out
    f.plan = plan


def type_width(t):
    k = t[0]
    if k == 'i':
        return t[1]
    if k == 'p':
        return 64
    if k == 'f':
        return t[1]
    return None


def type_size(t):
    k = t[0]
    if k == 'i':
        return (t[1] + 7) // 8
    if k == 'p':
        return 8
    if k == 'f':
        return {32: 4, 64: 8, 80: 16}[t[1]]
    if k == 's':
        return t[2]
    if k in ('a', 'x'):
        return t[1] * t[3]
    raise EngineError('size of type %r' % (t,))


def leaves(t, off=0):
    """Scalar leaves (offset, bytes) of a type."""
    k = t[0]
    if k in ('i', 'p', 'f'):
        return [(off, type_size(t))]
    if k == 's':
        r = []
        for o, e in t[1]:
            r += leaves(e, off + o)
        return r
    if k in ('a', 'x'):
        r = []
        for i in range(t[1]):
            r += leaves(t[2], off + i * t[3])
        return r
    return []


ARR_MIN = 40       # arrays with at least this many elements become array regions


class Region:
    __slots__ = ('start', 'count', 'stride', 'leaf')   # leaf: {off: bytes}


def regions_of(t, off=0):
    k = t[0]
    out = []
    if k == 's':
        for o, e in t[1]:
            out += regions_of(e, off + o)
    elif k == 'a':
        n, e, stride = t[1], t[2], t[3]
        while e[0] == 'a' and e[2][0] in ('i', 'p', 'f') and n * e[1] >= ARR_MIN:
            n *= e[1]
            stride = e[3]
            e = e[2]
        if n >= ARR_MIN:
            ls = leaves(e)
            if len(ls) <= 160:
                r = Region()
                r.start, r.count, r.stride = off, n, stride
                r.leaf = dict(ls)
                return [r]
        for i in range(t[1]):
            out += regions_of(t[2], off + i * t[3])
    return out


# ---------------------------------------------------------------- arrays
class AV:
    """Array value: init / tab / fill / st / ite / rng."""
    __slots__ = ('k', 'a', 'memo')

    def __init__(self, k, *a):
        self.k = k
        self.a = a
        self.memo = {}


def aread(av, i, w):
    m = av.memo
    r = m.get(i.id)
    if r is not None:
        return r
    # walk iteratively down store chains
    chain = []
    cur = av
    while True:
        r = cur.memo.get(i.id)
        if r is not None:
            break
        if cur.k == 'st':
            c = eq(i, cur.a[1])
            if c is TRUE:
                r = cur.a[2]
                break
            chain.append((cur, c))
            cur = cur.a[0]
            continue
        if cur.k == 'rng':
            prev, lo, hi, v = cur.a
            c = and_(ule(lo, i), ult(i, hi))
            if c is TRUE:
                r = v
                break
            chain.append((cur, c))
            cur = prev
            continue
        if cur.k == 'ov':
            prev, d, cnt = cur.a
            if i.v is not None:
                r = d.get(i.v)
                if r is not None:
                    break
                cur = prev
                continue
            tab = cur.memo.get('tab')
            if tab is None and (len(d) == cnt or prev.k in ('fill', 'tab')):
                tab = cur.memo['tab'] = [d.get(q) or aread(prev, const(q, 64), w) for q in range(cnt)]
            if tab is not None:
                r = cur.memo[i.id] = mux(tab, i)
                break
            chain.append((cur, None))
            cur = prev
            continue
        break
    if r is None:
        k = cur.k
        if k == 'init':
            r = X.uf(cur.a[0], [i], w)
        elif k == 'fill':
            r = cur.a[0]
        elif k == 'tab':
            r = mux(cur.a[0], i)
        elif k == 'ite':
            r = ite(cur.a[0], aread(cur.a[1], i, w), aread(cur.a[2], i, w))
        elif k == 'copy':   # copy(prev, lo, hi, src, delta): prev with [lo,hi) taken from src at i-lo+slo
            prev, lo, hi, src, slo = cur.a
            c = and_(ule(lo, i), ult(i, hi))
            r = ite(c, aread(src, add(sub(i, lo), slo), w), aread(prev, i, w))
        cur.memo[i.id] = r
    for cur, c in reversed(chain):
        if c is None:
            for q, v in cur.a[1].items():
                r = ite(eq(i, const(q, 64)), v, r)
            cur.memo[i.id] = r
            continue
        v = cur.a[2] if cur.k == 'st' else cur.a[3]
        r = ite(c, v, r)
        cur.memo[i.id] = r
    return r


def overlay(av, idx, v, count):
    """A write at a known index."""
    if av.k == 'ov':
        d = dict(av.a[1])
        av = av.a[0]
    else:
        d = {}
    d[idx] = v
    return AV('ov', av, d, count)


def mux(tab, i):
    n = len(tab)
    if i.v is not None:
        return tab[i.v] if i.v < n else tab[-1]
    if i.op == 'ite':
        return ite(i.a[0], mux(tab, i.a[1]), mux(tab, i.a[2]))

    def go(lo, hi):   # values for indices lo..hi-1 given lo<=i<hi
        v0 = tab[lo]
        same = True
        for q in range(lo + 1, hi):
            if tab[q] is not v0:
                same = False
                break
        if same:
            return v0
        mid = (lo + hi) // 2
        return ite(ult(i, const(mid, i.w)), go(lo, mid), go(mid, hi))
    lo = min(i.lo, n - 1)
    return go(lo, min(n, i.hi + 1))


# ---------------------------------------------------------------- objects
class Obj:
    __slots__ = ('id', 'name', 'size', 'base', 'regions', 'addr', 'init', 'kind', 'initcells', 'ro')


class OS:
    """Contents of one object (copy-on-write)."""
    __slots__ = ('cells', 'arrs', 'init', 'owner')

    def copy(self, owner):
        o = OS()
        o.cells = dict(self.cells)
        o.arrs = dict(self.arrs)
        o.init = self.init
        o.owner = owner
        return o


class State:
    __slots__ = ('mem', 'tok')

    def __init__(self):
        self.mem = {}
        self.tok = object()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        # neither side may mutate shared OS any more
        self.tok = object()
        return s


class Edge:
    __slots__ = ('g', 'st', 'phi', 'src')


class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.opts = opts or {}
        self.objs = {}
        self.nobj = 0
        self.addr_next = 0x10000000000
        self.addr_map = []      # (addr, size, objid) concrete objects, ascending
        self.fixed = []         # (addr, size, objid) regions at a known address
        self.sym_regions = []   # objids with symbolic base
        self.gobj = {}
        self.fobj = {}
        self.axioms = []        # terms assumed so far
        self.oblig = []         # (kind, name, guard tuple, cond, n_axioms, loc)
        self.anys = []          # log of nondeterministic inputs, for replay
        self.fresh = 0
        self.covers = []
        self.depth = 0
        self.max_iter = self.opts.get('unroll', 4096)
        self.bounded = []       # (where, bound) loops cut
        self.fn_used = {}
        self.sub_used = set()
        self.stack = []
        self.insts = 0
        self.low = None
        self.solver = None
        self.ax_done = 0
        self.feas_n = 0
        self.feas_t = 0.0
        self.models = []
        self.ext_used = set()
        self.stubs = self.opts.get('stubs', {})
        self.deadline = time.time() + self.opts.get('vc_timeout', 600)
        self.loopcounts = {}
        self.tainted_names = {}
        self.unsup = []
        self.ghost = {}

    # ------------------------------------------------------------ fresh
    def newvar(self, name, w, lo=0, hi=None):
        n = self.tainted_names.get(name, 0)
        self.tainted_names[name] = n + 1
        return var('%s!%d' % (name, n), w, lo, hi)

    # ------------------------------------------------------------ objects
    def new_obj(self, name, size, ty=None, kind='stack', align=16, base=None, addr=None):
        o = Obj()
        o.id = self.nobj
        self.nobj += 1
        o.name = name
        o.size = size
        o.kind = kind
        o.ro = False
        o.regions = regions_of(ty) if ty is not None else []
        o.initcells = {}
        if base is None:
            a = addr
            if a is None:
                al = max(align, 64)
                a = (self.addr_next + al - 1) // al * al
                self.addr_next = a + (size if isinstance(size, int) else size.hi) + 4096
            o.addr = a
            X.bases[o.id] = a
            o.base = X.base(o.id)
            self.addr_map.append((a, size, o.id))
        else:
            o.addr = None
            o.base = base
            self.sym_regions.append(o.id)
            if base.v is not None:
                self.fixed.append((base.v, size if isinstance(size, int) else size.hi, o.id))
        self.objs[o.id] = o
        return o

    def init_obj(self, st, o, init):
        s = OS()
        s.cells = {}
        s.arrs = {}
        s.init = init
        s.owner = st.tok
        st.mem[o.id] = s
        return s

    def os_r(self, st, oid):
        s = st.mem.get(oid)
        if s is None:
            o = self.objs[oid]
            if o.kind == 'global':
                return self.init_global(st, o)
            raise EngineError('dead object ' + o.name)
        return s

    def os_w(self, st, oid):
        s = self.os_r(st, oid)
        if s.owner is not st.tok:
            s = s.copy(st.tok)
            st.mem[oid] = s
        return s

    def global_obj(self, name):
        o = self.gobj.get(name)
        if o is None:
            g = self.mod.globals[name]
            o = self.new_obj('@' + name, g['size'], g['ty'], 'global', g['align'])
            o.ro = g['const']
            self.gobj[name] = o
        return o

    def fn_obj(self, name):
        o = self.fobj.get(name)
        if o is None:
            o = self.new_obj('fn ' + name, 16, None, 'fn')
            self.fobj[name] = o
        return o

    def init_global(self, st, o):
        """Globals start with their initialiser; shared pristine copy."""
        pristine = self.ghost.setdefault('pristine', {})
        s = pristine.get(o.id)
        if s is None:
            g = self.mod.globals[o.name[1:]]
            s = OS()
            s.cells = {}
            s.arrs = {}
            s.owner = None
            pristine[o.id] = s
            if 'init' not in g:
                s.init = ('havoc', 'ext_' + o.name)
            else:
                s.init = ('fill', 0)
                self.fill_const(o, s, g['init'], g['ty'], 0)
        st.mem[o.id] = s
        return s

    def fill_const(self, o, s, c, ty, off):
        k = c[0]
        if k == 'z':
            return
        if k == 'u':
            return
        if k == 'agg':
            t = c[1]
            if t[0] == 's':
                for (fo, ft), e in zip(t[1], c[2]):
                    self.fill_const(o, s, e, ft, off + fo)
            else:
                for i, e in enumerate(c[2]):
                    self.fill_const(o, s, e, t[2], off + i * t[3])
            return
        v = self.constval(c)
        if isinstance(v, tuple):
            raise EngineError('aggregate constant')
        if k == 'c' and v.v == 0:
            return
        n = type_size(ty)
        if v.w == 1:
            v = zext(v, 8)
        if v.w < n * 8:
            v = zext(v, n * 8)
        r = self.find_region(o, off, n)
        if r is not None:
            ri, reg, idx, lf = r
            key = (ri, lf)
            av = s.arrs.get(key)
            if av is None:
                av = AV('tab', [const(0, n * 8)] * reg.count)
                s.arrs[key] = av
            av.a[0][idx] = v
        else:
            s.cells[off] = (n, v)

    def find_region(self, o, off, n):
        for ri, reg in enumerate(o.regions):
            if reg.start <= off < reg.start + reg.count * reg.stride:
                d = off - reg.start
                lf = d % reg.stride
                if reg.leaf.get(lf) == n:
                    return ri, reg, d // reg.stride, lf
                return None
        return None

    def in_region(self, o, off):
        for ri, reg in enumerate(o.regions):
            if reg.start <= off < reg.start + reg.count * reg.stride:
                return ri, reg
        return None

    # ------------------------------------------------------------ initial contents
    def init_read(self, oid, init, off, n):
        k = init[0]
        if k == 'fill':
            b = init[1]
            return const(int.from_bytes(bytes([b]) * n, 'little'), n * 8)
        if k == 'ite':
            return ite(init[1], self.init_read(oid, init[2], off, n), self.init_read(oid, init[3], off, n))
        if k == 'havoc':
            gen = init[1]
            tab = self.ghost.setdefault(('init', gen), {})
            e = tab.get(off)
            if e is not None and e[0] == n:
                return e[1]
            # overlapping?
            ov = [(o2, e2) for o2, e2 in tab.items() if o2 < off + n and off < o2 + e2[0]]
            if not ov:
                v = var('%s@%d' % (gen, off), n * 8)
                tab[off] = (n, v)
                return v
            parts = []
            p = off
            while p < off + n:
                hit = None
                for o2, (n2, v2) in ov:
                    if o2 <= p < o2 + n2:
                        hit = (o2, n2, v2)
                        break
                if hit:
                    o2, n2, v2 = hit
                    e = min(off + n, o2 + n2)
                    parts.append(extract(v2, (e - o2) * 8 - 1, (p - o2) * 8))
                else:
                    e = p + 1
                    while e < off + n and not any(o2 <= e < o2 + n2 for o2, (n2, _) in ov):
                        e += 1
                    v = var('%s@%d' % (gen, p), (e - p) * 8)
                    tab[p] = (e - p, v)
                    parts.append(v)
                p = e
            r = parts[0]
            for q in parts[1:]:
                r = cat(q, r)
            return r
        raise EngineError('init kind')

    def arr_init(self, o, init, ri, lf):
        reg = o.regions[ri]
        k = init[0]
        n = reg.leaf[lf]
        if k == 'fill':
            return AV('fill', const(int.from_bytes(bytes([init[1]]) * n, 'little'), n * 8))
        if k == 'ite':
            a = self.arr_init(o, init[2], ri, lf)
            b = self.arr_init(o, init[3], ri, lf)
            return AV('ite', init[1], a, b)
        memo = self.ghost.setdefault('arrinit', {})
        key = (init[1], ri, lf)
        av = memo.get(key)
        if av is None:
            av = memo[key] = AV('init', '%s#%d.%d' % (init[1], ri, lf))
        return av

    def get_arr(self, o, s, ri, lf):
        av = s.arrs.get((ri, lf))
        if av is None:
            av = self.arr_init(o, s.init, ri, lf)
            s.arrs[(ri, lf)] = av
        return av

    # ------------------------------------------------------------ cells
    def cell_read(self, o, s, off, n):
        e = s.cells.get(off)
        if e is not None and e[0] == n:
            return e[1]
        r = self.find_region(o, off, n)
        if r is not None:
            ri, reg, idx, lf = r
            return aread(self.get_arr(o, s, ri, lf), const(idx, 64), n * 8)
        ir = self.in_region(o, off)
        if ir is not None:
            # mismatched width inside an array region: assemble from leaves
            return self.region_bytes(o, s, ir, off, n)
        # overlapping cells
        lo = off - 31
        ov = []
        cells = s.cells
        for p in range(lo, off + n):
            c = cells.get(p)
            if c is not None and p + c[0] > off:
                ov.append((p, c))
        if not ov:
            return self.init_read(o.id, s.init, off, n)
        if n > 16:
            pass
        parts = []
        p = off
        while p < off + n:
            hit = None
            for q, (m, v) in ov:
                if q <= p < q + m:
                    hit = (q, m, v)
            if hit:
                q, m, v = hit
                e = min(off + n, q + m)
                parts.append(extract(v, (e - q) * 8 - 1, (p - q) * 8) if v.w > 1 else v)
            else:
                e = p + 1
                while e < off + n and not any(q <= e < q + m for q, (m, _) in ov):
                    e += 1
                parts.append(self.init_read(o.id, s.init, p, e - p))
            p = e
        r = parts[0]
        for q in parts[1:]:
            r = cat(q, r)
        return r

    def region_bytes(self, o, s, ir, off, n):
        ri, reg = ir
        parts = []
        p = off
        while p < off + n:
            d = p - reg.start
            if d < 0 or d >= reg.count * reg.stride:
                parts.append(self.cell_read(o, s, p, off + n - p))
                p = off + n
                break
            b = d % reg.stride
            for lf, m in reg.leaf.items():
                if lf <= b < lf + m:
                    v = aread(self.get_arr(o, s, ri, lf), const(d // reg.stride, 64), m * 8)
                    e = min(off + n, p - (b - lf) + m)
                    parts.append(extract(v, (e - (p - (b - lf))) * 8 - 1, (b - lf) * 8))
                    p = e
                    break
            else:
                parts.append(self.newvar('pad', 8))
                p += 1
        r = parts[0]
        for q in parts[1:]:
            r = cat(q, r)
        return r

    def cell_write(self, o, s, off, n, v):
        if v.w == 1:
            v = zext(v, 8)
        r = self.find_region(o, off, n)
        if r is not None:
            ri, reg, idx, lf = r
            av = self.get_arr(o, s, ri, lf)
            s.arrs[(ri, lf)] = overlay(av, idx, v, reg.count)
            return
        ir = self.in_region(o, off)
        if ir is not None:
            self.region_write_bytes(o, s, ir, off, n, v)
            return
        cells = s.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        # clear overlapped cells, keeping their outside bytes
        for p in range(off - 31, off + n):
            c = cells.get(p)
            if c is None or p + c[0] <= off:
                continue
            m, u = c
            del cells[p]
            if p < off:
                cells[p] = (off - p, extract(u, (off - p) * 8 - 1, 0))
            if p + m > off + n:
                cells[off + n] = (p + m - off - n, extract(u, m * 8 - 1, (off + n - p) * 8))
        cells[off] = (n, v)

    def region_write_bytes(self, o, s, ir, off, n, v):
        ri, reg = ir
        p = off
        while p < off + n:
            d = p - reg.start
            if d >= reg.count * reg.stride:
                self.cell_write(o, s, p, off + n - p, extract(v, n * 8 - 1, (p - off) * 8))
                return
            b = d % reg.stride
            for lf, m in reg.leaf.items():
                if lf <= b < lf + m:
                    i = const(d // reg.stride, 64)
                    ls = p - (b - lf)          # leaf start
                    e = min(off + n, ls + m)
                    new = extract(v, (e - off) * 8 - 1, (p - off) * 8)
                    if p > ls or e < ls + m:
                        old = aread(self.get_arr(o, s, ri, lf), i, m * 8)
                        if p > ls:
                            new = cat(new, extract(old, (p - ls) * 8 - 1, 0))
                        if e < ls + m:
                            new = cat(extract(old, m * 8 - 1, (e - ls) * 8), new)
                    s.arrs[(ri, lf)] = overlay(self.get_arr(o, s, ri, lf), i.v, new, reg.count)
                    p = e
                    break
            else:
                p += 1

    # ------------------------------------------------------------ pointer resolution
    def resolve(self, p, memo=None):
        """-> list of (cond, objid or None, offset term)."""
        if memo is None:
            memo = {}
        r = memo.get(p.id)
        if r is not None:
            return r
        if p.op == 'ite':
            c = p.a[0]
            ra = self.resolve(p.a[1], memo)
            rb = self.resolve(p.a[2], memo)
            out = {}
            order = []
            for cond, o, off in ra:
                out[o if o is not None else ('n', off.id)] = (and_(c, cond), o, off)
                order.append(o if o is not None else ('n', off.id))
            nc = not_(c)
            for cond, o, off in rb:
                k = o if o is not None else ('n', off.id)
                cc = and_(nc, cond)
                if k in out:
                    oc, oo, ooff = out[k]
                    out[k] = (or_(oc, cc), o, ite(c, ooff, off))
                else:
                    out[k] = (cc, o, off)
                    order.append(k)
            r = [out[k] for k in order if out[k][0] is not FALSE]
            memo[p.id] = r
            return r
        c, d = lin(p)
        pb = [a for a in d if a.ptr and d[a] == 1]
        if len(pb) == 1:
            a = pb[0]
            rest = X.from_lin((c, {k: v for k, v in d.items() if k is not a}), 64)
            if a.op == 'base':
                r = [(TRUE, a.a, rest)]
            else:
                r = [(cc, o, add(off, rest)) for cc, o, off in self.resolve(a, memo)]
            memo[p.id] = r
            return r
        if not pb:
            # symbolic-base regions
            for oid in reversed(self.sym_regions):
                bl = lin(self.objs[oid].base)
                if bl[1] and all(d.get(k) == v for k, v in bl[1].items()):
                    off = sub(p, self.objs[oid].base)
                    r = [(TRUE, oid, off)]
                    memo[p.id] = r
                    return r
            # ite atom inside a sum of plain integers
            ia = [a for a in d if a.op == 'ite' and d[a] == 1]
            if len(ia) == 1:
                a = ia[0]
                rest = X.from_lin((c, {k: v for k, v in d.items() if k is not a}), 64)
                r = self.resolve(ite(a.a[0], add(a.a[1], rest), add(a.a[2], rest)), memo)
                memo[p.id] = r
                return r
            # a region at a known address that the whole range of the pointer lies in
            if self.fixed:
                hi = c + sum(v * k.hi for k, v in d.items())
                for ad, size, oid in reversed(self.fixed):
                    if ad <= c and hi <= ad + size + 64:
                        r = [(TRUE, oid, X.from_lin(((c - ad) & M64, d), 64))]
                        memo[p.id] = r
                        return r
            # concrete address
            if c >= 0x10000000000 and c < self.addr_next:
                for ad, size, oid in reversed(self.addr_map):
                    sz = size if isinstance(size, int) else size.hi
                    if ad <= c <= ad + sz + 64:
                        off = add(p, const(-ad, 64))
                        r = [(TRUE, oid, off)]
                        memo[p.id] = r
                        return r
        r = [(TRUE, None, p)]
        memo[p.id] = r
        return r

    def targets(self, p, g, n, what):
        """Feasible (cond, objid, off); emits validity obligations."""
        res = self.resolve(p)
        out = []
        for cond, oid, off in res:
            if cond is not TRUE and self.implied_false(cond, g):
                continue
            if self.opts.get('prune') and len(res) > 1 and not self.feasible(g + (cond,)):
                self.axioms.append(not_(conj(g + (cond,))))
                continue
            if oid is None:
                if len(res) > 1 or True:
                    gg = self.gext(g, cond)
                    if gg is None or not self.feasible(gg):
                        if gg is not None:
                            self.axioms.append(not_(conj(gg)))
                        continue
                    if off.v is None:
                        for ad, size, fid in self.fixed:
                            o = sub(p, const(ad, 64))
                            if not self.feasible(gg + (not_(ule(o, const(size, 64))),)):
                                oid, off = fid, o
                                break
                        if oid is not None:
                            out.append((cond, oid, off))
                            continue
                if off.v is not None:
                    self.obligation('memory-safety', '%s through invalid pointer %#x' % (what, off.v), g, not_(cond))
                    continue
                # unresolvable: maybe it is null on this path
                self.unsup.append('unresolved pointer %s at %s' % (X.pp(off, 3), self.where()))
                raise EngineError(self.unsup[-1])
            out.append((cond, oid, off))
        return out

    def gext(self, g, c):
        if c is TRUE:
            return g
        if c is FALSE:
            return None
        return g + (c,)

    def implied_false(self, c, g):
        if c is FALSE:
            return True
        for l in g:
            if l.neg is c or (c.neg is not None and l is c.neg):
                return True
        return False

    # ------------------------------------------------------------ load/store
    def check_bounds(self, o, off, n, cond, g, what):
        size = o.size
        if isinstance(size, int):
            if off.v is not None:
                if off.v + n <= size:
                    return True
                ok = FALSE
            elif off.hi + n <= size:
                return True
            elif size < n:
                ok = FALSE
            else:
                ok = ule(off, const(size - n, 64))
        else:
            ok = and_(ule(const(n, 64), size), ule(off, sub(size, const(n, 64))))
        if ok is TRUE:
            return True
        self.obligation('memory-safety', '%s of %d bytes outside %s' % (what, n, o.name), g, implies(cond, ok))
        return ok is not FALSE

    def load(self, st, p, n, g):
        tg = self.targets(p, g, n, 'read')
        if not tg:
            return self.newvar('dead', n * 8)
        r = None
        for cond, oid, off in reversed(tg):
            v = self.load1(st, oid, off, n, cond, g)
            r = v if r is None else ite(cond, v, r)
        return r

    def load1(self, st, oid, off, n, cond, g):
        o = self.objs[oid]
        if oid not in st.mem and o.kind != 'global':
            self.obligation('memory-safety', 'read of dead object ' + o.name, g, not_(cond))
            return self.newvar('dead', n * 8)
        if not self.check_bounds(o, off, n, cond, g, 'read'):
            return self.newvar('oob', n * 8)
        s = self.os_r(st, oid)
        if off.v is not None:
            return self.cell_read(o, s, off.v, n)
        return self.sym_read(o, s, off, n, cond, g)

    def arr_index(self, o, off, n):
        """If off provably addresses a leaf of an array region: (ri, leaf, index)."""
        c, d = lin(off)
        # A scalar or another array may follow an array closely: the bounds of
        # the offset and then its constant part decide before "nearby" does.
        order = list(enumerate(o.regions))
        if len(order) > 1 or (order and isinstance(o.size, int)):
            inside = [x for x in order if off.lo >= x[1].start and off.hi + n <= x[1].start + x[1].count * x[1].stride]
            if inside:
                order = inside
            else:
                if off.hi - off.lo < (o.size if isinstance(o.size, int) else 0):
                    order = [x for x in order if off.hi + n > x[1].start and off.lo < x[1].start + x[1].count * x[1].stride]
                sc = c - (1 << 64) if c >= 1 << 63 else c
                order.sort(key=lambda x: max(x[1].start - sc, sc - (x[1].start + x[1].count * x[1].stride) + 1, 0))
        for ri, reg in order:
            st = reg.stride
            if d and all(v % st == 0 for v in d.values()):
                # const part relative to region; may be negative or beyond (index offset)
                cc = c - reg.start
                if cc >= 1 << 63:
                    cc -= 1 << 64
                lf = cc % st
                if reg.leaf.get(lf) != n:
                    continue
                if len(o.regions) > 1 or reg.start > 0 or reg.count * st < (o.size if isinstance(o.size, int) else 0):
                    # What is past the end with a growing index is another member.
                    if cc >= reg.count * st and all(v < 1 << 63 for v in d.values()) and isinstance(o.size, int) and reg.start + reg.count * st < o.size:
                        continue
                    # several candidates: require the constant part to fall in/near this region
                    if not (-(st * 4) <= cc < reg.count * st + st * 4):
                        if not (len(o.regions) == 1) or (cc < 0 and isinstance(o.size, int) and all(v < 1 << 63 for v in d.values())):
                            continue
                q = (cc - lf) // st
                idx = X.from_lin((q & M64, {k: (v // st if v < 1 << 63 else (-((-v) & M64) // st)) & M64 for k, v in d.items()}), 64)
                return ri, lf, idx
        return None

    def cand(self, o, off, n):
        """Concrete candidate offsets for a symbolic offset."""
        size = o.size if isinstance(o.size, int) else o.size.hi
        c, d = lin(off)
        gcd = 0
        import math
        for v in d.values():
            gcd = math.gcd(gcd, v if v < 1 << 63 else (1 << 64) - v)
        # multiples modulo 2^64: only the power-of-two part of gcd survives wrap in general,
        # but bounds below make the plain gcd valid when no wrap can happen
        nowrap = all(v < 1 << 63 for v in d.values()) and sum(k.hi * v for k, v in d.items()) + c < 1 << 64
        if not nowrap:
            gcd = gcd & -gcd
        lo, hi = 0, size - n
        if nowrap:
            lo = max(lo, c + sum(k.lo * v for k, v in d.items()))
            hi = min(hi, c + sum(k.hi * v for k, v in d.items()))
        else:
            lo = max(lo, off.lo)
            hi = min(hi, off.hi)
        first = lo + ((c - lo) % gcd)
        return range(first, hi + 1, gcd)

    def sym_read(self, o, s, off, n, cond, g):
        if off.op == 'ite' and (off.a[1].v is not None or off.a[2].v is not None or off.a[1].op == 'ite' or off.a[2].op == 'ite'):
            def go(t):
                if t.op == 'ite':
                    return ite(t.a[0], go(t.a[1]), go(t.a[2]))
                if t.v is not None:
                    if t.v + n > (o.size if isinstance(o.size, int) else t.v + n):
                        return self.newvar('oob', n * 8)
                    return self.cell_read(o, s, t.v, n)
                return self.sym_read2(o, s, t, n, g)
            return go(off)
        return self.sym_read2(o, s, off, n, g)

    def sym_read2(self, o, s, off, n, g):
        ai = self.arr_index(o, off, n)
        if ai is not None:
            ri, lf, idx = ai
            reg = o.regions[ri]
            self.need_index(idx, reg.count, g, o)
            return aread(self.get_arr(o, s, ri, lf), idx, n * 8)
        if o.regions:
            r = self.region_generic(o, off, n)
            if r is not None:
                ri, idx, rem = r
                reg = o.regions[ri]
                v = None
                for lf, m in reg.leaf.items():
                    if m < n:
                        continue
                    for sub_ in range(0, m - n + 1, 1 if n == 1 else n):
                        e = aread(self.get_arr(o, s, ri, lf), idx, m * 8)
                        e = extract(e, (sub_ + n) * 8 - 1, sub_ * 8)
                        v = e if v is None else ite(eq(rem, const(lf + sub_, 64)), e, v)
                if v is None:
                    raise EngineError('mixed array access in ' + o.name)
                return v
        cs = self.cand(o, off, n)
        if len(cs) > self.opts.get('max_cand', 2100):
            raise EngineError('symbolic access with %d candidates in %s at %s' % (len(cs), o.name, self.where()))
        r = None
        for k in cs:
            v = self.cell_read(o, s, k, n)
            r = v if r is None else ite(eq(off, const(k, 64)), v, r)
        if r is None:
            return self.newvar('oob', n * 8)
        return r

    def region_generic(self, o, off, n):
        """Byte-granular access within a region: (ri, idx, rem)."""
        for ri, reg in enumerate(o.regions):
            end = reg.start + reg.count * reg.stride
            if off.lo >= reg.start and off.hi + n <= end:
                rel = sub(off, const(reg.start, 64))
                return ri, X.udiv(rel, const(reg.stride, 64)), X.urem(rel, const(reg.stride, 64))
            if reg.start == 0 and isinstance(o.size, int) and end == o.size:
                return ri, X.udiv(off, const(reg.stride, 64)), X.urem(off, const(reg.stride, 64))
        return None

    def need_index(self, idx, count, g, o):
        if idx.hi < count:
            return
        self.obligation('memory-safety', 'index within array of %s' % o.name, g, ult(idx, const(count, 64)))

    def store(self, st, p, n, v, g):
        tg = self.targets(p, g, n, 'write')
        single = len(tg) == 1
        for cond, oid, off in tg:
            o = self.objs[oid]
            if oid not in st.mem and o.kind != 'global':
                self.obligation('memory-safety', 'write to dead object ' + o.name, g, not_(cond))
                continue
            if o.ro or o.kind == 'fn':
                self.obligation('memory-safety', 'write to constant ' + o.name, g, not_(cond))
                continue
            if not self.check_bounds(o, off, n, cond, g, 'write'):
                continue
            s = self.os_w(st, oid)
            c = TRUE if single else cond
            if off.v is not None:
                nv = v
                if c is not TRUE:
                    old = self.cell_read(o, s, off.v, n)
                    nv = ite(c, v, old)
                self.cell_write(o, s, off.v, n, nv)
                continue
            ai = self.arr_index(o, off, n)
            if ai is not None:
                ri, lf, idx = ai
                self.need_index(idx, o.regions[ri].count, g, o)
                av = self.get_arr(o, s, ri, lf)
                nv = v if c is TRUE else ite(c, v, aread(av, idx, n * 8))
                s.arrs[(ri, lf)] = AV('st', av, idx, nv)
                continue
            if o.regions:
                r = self.region_generic(o, off, n)
                if r is not None:
                    ri, idx, rem = r
                    reg = o.regions[ri]
                    if not all(m >= n for m in reg.leaf.values()):
                        raise EngineError('mixed array write in %s at %s' % (o.name, self.where()))
                    for lf, m in reg.leaf.items():
                        av = self.get_arr(o, s, ri, lf)
                        old = aread(av, idx, m * 8)
                        new = old
                        for sb in range(0, m - n + 1, 1 if n == 1 else n):
                            parts = v
                            if sb:
                                parts = cat(parts, extract(old, sb * 8 - 1, 0))
                            if sb + n < m:
                                parts = cat(extract(old, m * 8 - 1, (sb + n) * 8), parts)
                            new = ite(and_(c, eq(rem, const(lf + sb, 64))), parts, new)
                        s.arrs[(ri, lf)] = AV('st', av, idx, new)
                    continue
            cs = self.cand(o, off, n)
            if len(cs) > self.opts.get('max_cand', 2100):
                raise EngineError('symbolic write with %d candidates in %s at %s' % (len(cs), o.name, self.where()))
            for k in cs:
                old = self.cell_read(o, s, k, n)
                self.cell_write(o, s, k, n, ite(and_(c, eq(off, const(k, 64))), v, old))

    # ------------------------------------------------------------ merging
    def merge_states(self, c, s1, s2):
        """c ? s1 : s2"""
        if s1 is s2:
            return s1
        r = State()
        m1, m2 = s1.mem, s2.mem
        out = r.mem
        for oid, a in m1.items():
            b = m2.get(oid)
            if a is b:
                out[oid] = a
            elif b is None:
                o = self.objs[oid]
                if o.kind == 'global':
                    b = self.init_global(s2, o)
                    if a is b:
                        out[oid] = a
                    else:
                        out[oid] = self.merge_os(c, oid, a, b, r.tok)
                elif o.kind == 'heap':
                    out[oid] = a   # allocated on one path only
            else:
                out[oid] = self.merge_os(c, oid, a, b, r.tok)
        for oid, b in m2.items():
            if oid not in m1:
                o = self.objs[oid]
                if o.kind == 'global':
                    a = self.init_global(s1, o)
                    out[oid] = b if a is b else self.merge_os(c, oid, a, b, r.tok)
                elif o.kind == 'heap':
                    out[oid] = b
        return r

    def merge_os(self, c, oid, a, b, tok):
        o = self.objs[oid]
        r = OS()
        r.owner = tok
        r.arrs = {}
        if a.init == b.init:
            r.init = a.init
        else:
            r.init = ('ite', c, a.init, b.init)
        ca, cb = a.cells, b.cells
        if ca == cb:
            r.cells = dict(ca)
        else:
            cells = {}
            r.cells = cells
            keys = set(ca) | set(cb)
            done = set()
            for off in sorted(keys):
                x = ca.get(off)
                y = cb.get(off)
                if x is not None and y is not None and x[0] == y[0]:
                    cells[off] = (x[0], ite(c, x[1], y[1]))
                    continue
                # differing layout: use the finer pieces
                n = min(z[0] for z in (x, y) if z is not None)
                # does another cell start inside (off, off+n)?
                for k in range(1, n):
                    if (off + k) in keys:
                        n = k
                        break
                # bytes covered by earlier merged cell?
                v1 = self.cell_read(o, a, off, n)
                v2 = self.cell_read(o, b, off, n)
                cells[off] = (n, ite(c, v1, v2))
                # remainder of longer cell
                for z, src in ((x, a), (y, b)):
                    if z is not None and z[0] > n:
                        keys_end = off + z[0]
                        p = off + n
                        while p < keys_end:
                            if p in keys:
                                q = None
                                for src2 in (ca.get(p), cb.get(p)):
                                    pass
                                break
                            e = p + 1
                            while e < keys_end and e not in keys:
                                e += 1
                            cells[p] = (e - p, ite(c, self.cell_read(o, a, p, e - p), self.cell_read(o, b, p, e - p)))
                            p = e
            # safety: every byte present in either side must be present in the merge
            cov = set()
            for off, (n, _) in cells.items():
                cov.update(range(off, off + n))
            for src in (ca, cb):
                for off, (n, _) in src.items():
                    for k in range(off, off + n):
                        if k not in cov:
                            cells[k] = (1, ite(c, self.cell_read(o, a, k, 1), self.cell_read(o, b, k, 1)))
                            cov.add(k)
        for key in set(a.arrs) | set(b.arrs):
            x = a.arrs.get(key) or self.get_arr(o, a, *key)
            y = b.arrs.get(key) or self.get_arr(o, b, *key)
            r.arrs[key] = x if x is y else merge_av(c, x, y)
        return r

    def merge_vals(self, c, p1, p2):
        return {k: ite_val(c, p1[k], p2[k]) for k in p1}

    def merge_edges(self, edges):
        """Edges into one block -> (guard, state, phi values)."""
        if len(edges) == 1:
            e = edges[0]
            return e.g, e.st, e.phi
        return self._merge(edges, 0)

    def _merge(self, edges, d):
        if len(edges) == 1:
            e = edges[0]
            return e.g, e.st, e.phi
        while True:
            l0 = None
            ok = True
            for e in edges:
                if len(e.g) <= d:
                    ok = False
                    break
                if l0 is None:
                    l0 = e.g[d]
                elif e.g[d] is not l0:
                    ok = False
                    break
            if not ok:
                break
            d += 1
        prefix = edges[0].g[:d]
        groups = {}
        order = []
        for e in edges:
            k = e.g[d].id if len(e.g) > d else -1
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(e)
        parts = []
        for k in order:
            es = groups[k]
            if k == -1 and len(es) > 1:
                # identical guards: unreachable duplicates; keep the last
                es = es[-1:]
            parts.append(self._merge(es, d + 1) if k != -1 else (es[0].g, es[0].st, es[0].phi))
        acc = None
        for g, st, phi in parts:
            if acc is None:
                acc = (g, st, phi)
                continue
            ag, ast_, aphi = acc
            r1 = conj(ag[d:])
            r2 = conj(g[d:])
            # choose the simpler discriminating condition
            if len(ag) == d + 1 and len(g) == d + 1 and ag[d].neg is g[d]:
                c = ag[d]
                ng = prefix
            elif len(ag) > d and len(g) > d and ag[d].neg is g[d]:
                c = ag[d]
                o = or_(r1, r2)
                ng = prefix if o is TRUE else prefix + (o,)
            else:
                c = r1
                if len(ag) == d:
                    # other side must then be infeasible together
                    c = not_(r2)
                o = or_(r1, r2)
                ng = prefix if o is TRUE else prefix + (o,)
            acc = (ng, self.merge_states(c, ast_, st), self.merge_vals(c, aphi, phi))
        return acc

    # ------------------------------------------------------------ obligations
    def where(self):
        for fn, loc in reversed(self.stack):
            if loc is not None:
                return '%s:%d in %s' % (loc[0].replace('/repo/', ''), loc[1], loc[2] or fn)
        return self.stack[-1][0] if self.stack else '?'

    def obligation(self, kind, name, g, cond):
        if cond is TRUE:
            self.oblig.append((kind, name, None, None, 0, self.where()))
            return
        self.oblig.append((kind, name, g, cond, len(self.axioms), self.where()))
        self.axioms.append(implies(conj(g), cond))

    # ------------------------------------------------------------ feasibility
    def feasible(self, g, timeout=None):
        """False only if the solver proves the guard infeasible under the axioms."""
        c = conj(g)
        if c is FALSE:
            return False
        # cached models
        for m in reversed(self.models):
            if self.model_ok(m) and X.evaluate(c, m['env'], m['memo']):
                return True
        import z3
        t0 = time.time()
        if self.solver is None:
            self.low = X.Low()
            self.solver = z3.SolverFor('QF_BV')
            self.solver.set('timeout', int(self.opts.get('feas_timeout', 3000)))
            self.nr = 0
        low = self.low
        for a in self.axioms[self.ax_done:]:
            self.solver.add(z3.BoolRef(low.low(a), low.ctx))
        self.ax_done = len(self.axioms)
        cz = z3.BoolRef(low.low(c), low.ctx)
        for r in low.ranges[self.nr:]:
            self.solver.add(z3.BoolRef(r, low.ctx))
        self.nr = len(low.ranges)
        r = self.solver.check(cz)
        self.feas_n += 1
        self.feas_t += time.time() - t0
        if r == z3.sat:
            m = self.solver.model()
            self.models.append({'env': model_env(m, low), 'memo': {}, 'ok': 0})
            if len(self.models) > 12:
                self.models.pop(0)
            return True
        if r == z3.unsat:
            return False
        # retry with a one-shot solver
        s = z3.SolverFor('QF_BV')
        s.set('timeout', int(self.opts.get('feas_timeout2', 15000)))
        for a in self.solver.assertions():
            s.add(a)
        s.add(cz)
        r = s.check()
        self.feas_t += time.time() - t0
        if r == z3.unsat:
            return False
        return True

    def model_ok(self, m):
        i = m['ok']
        if i < 0:
            return False
        ax = self.axioms
        while i < len(ax):
            if not X.evaluate(ax[i], m['env'], m['memo']):
                m['ok'] = -1
                return False
            i += 1
        m['ok'] = i
        return True

    # ------------------------------------------------------------ operands
    def constval(self, c):
        k = c[0]
        if k == 'c':
            return const(int(c[2]), c[1])
        if k == 'f':
            return const(int(c[2]), c[1])
        if k == 'g':
            n = c[1]
            if n in self.mod.fns:
                return self.fn_obj(n).base
            if n in self.mod.globals:
                return self.global_obj(n).base
            raise EngineError('global ' + n)
        if k == 'gep':
            return add(self.constval(c[1]), const(c[2], 64))
        if k == 'u':
            t = c[1]
            w = type_width(t)
            if w is not None:
                return const(0, w)
            return tuple(self.constval(['u', ft]) for _, ft in t[1]) if t[0] == 's' else None
        if k == 'z':
            t = c[1]
            if t[0] == 's':
                return tuple(self.constval(['z', ft]) if type_width(ft) is None else const(0, type_width(ft)) for _, ft in t[1])
            return ('zarr',)
        if k == 'agg':
            return tuple(self.constval(e) for e in c[2])
        if k == 'ce':
            opn, t, a = c[1], c[2], c[3]
            vs = [self.constval(x) for x in a]
            w = type_width(t)
            if opn in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                v = vs[0]
                return zext(v, w) if v.w < w else trunc(v, w)
            if opn == 'add':
                return add(*vs)
            if opn == 'sub':
                return sub(*vs)
            if opn == 'trunc':
                return trunc(vs[0], w)
            if opn == 'zext':
                return zext(vs[0], w)
        raise EngineError('constant %r' % (c,))

    def val(self, fr, o):
        if o[0] == 'v':
            return fr[o[1]]
        if o[0] == 'c':
            return const(int(o[2]), o[1])
        return self.constval(o)

    # ------------------------------------------------------------ functions
    def call(self, name, args, g, st):
        """-> (ret or None, guard, state); raises PathDead when it never returns."""
        f = self.mod.fns[name]
        if f.plan is None:
            plan_fn(f)
        self.depth += 1
        if self.depth > self.opts.get('max_depth', 120):
            raise EngineError('recursion too deep: ' + name)
        self.fn_used[name] = self.fn_used.get(name, 0) + 1
        self.stack.append([name, None])
        fr = {}
        for i, a in enumerate(args[:len(f.params)]):
            fr[i] = a
        ctx = {'f': f, 'fr': fr, 'pend': {}, 'rets': [], 'bg': {}, 'allocas': [], 'g0': g}
        e = Edge()
        e.g, e.st, e.phi, e.src = g, st, {}, None
        ctx['pend'][0] = [e]
        self.run_region(ctx, None)
        self.stack.pop()
        self.depth -= 1
        rets = ctx['rets']
        if not rets:
            raise PathDead()
        mg, mst, mphi = self.merge_edges(rets)
        # every returning path returns here; paths that do not return are axioms
        if not ctx.get('partial'):
            mg = g
        mst = self.own(mst)
        for oid in ctx['allocas']:
            mst.mem.pop(oid, None)
        return mphi.get('ret'), mg, mst

    def own(self, st):
        s = State()
        s.mem = dict(st.mem)
        return s

    def run_region(self, ctx, L):
        f = ctx['f']
        for kind, x in f.plan[L]:
            if kind == 'b':
                es = ctx['pend'].pop(x, None)
                if es:
                    self.run_block(ctx, x, es, L)
            else:
                if ctx['pend'].get(x):
                    self.run_loop(ctx, x)

    # ------------------------------------------------------------ loop invariants
    def inv_loop_of(self, f):
        """Header of the loop -> True for loops whose own blocks hold a __v_inv hook."""
        m = self.ghost.setdefault('invloops', {})
        r = m.get(f.name)
        if r is None:
            r = {}
            for b, blk in enumerate(f.blocks):
                for ins in blk['insts']:
                    if ins['op'] == 'call' and ins['callee'][0] == 'g' and ins['callee'][1] == '__v_inv' and f.loops[b]:
                        r[f.loops[b][0]] = True
            m[f.name] = r
        return r

    def havoc_phis(self, f, h, phi):
        out = {}
        for ins in f.blocks[h]['insts']:
            if ins['op'] != 'phi':
                break
            k = ins['id']
            t = ins['ty']
            v = phi[k]
            if t[0] == 'p':
                rs = self.resolve(v)
                oids = set(x[1] for x in rs)
                if oids == {None}:  # an address, of no known object
                    out[k] = self.newvar('loop', 64)
                    continue
                if len(oids) != 1 or None in oids:
                    raise EngineError('loop-carried pointer does not point into one object in ' + f.name)
                out[k] = add(self.objs[oids.pop()].base, self.newvar('loop_off', 64))
            elif not isinstance(v, tuple):
                out[k] = self.newvar('loop', v.w)
            else:
                raise EngineError('loop-carried aggregate in ' + f.name)
        return out

    def os_diff(self, oid, a, b):
        """Items of object oid that differ between two contents."""
        if a is b:
            return set()
        if a.init != b.init:
            return {'all'}
        d = set()
        for off in set(a.cells) | set(b.cells):
            x, y = a.cells.get(off), b.cells.get(off)
            if x is None or y is None or x[0] != y[0]:
                for z, o2 in ((x, b), (y, a)):
                    if z is not None and self.cell_read(self.objs[oid], o2, off, z[0]) is not z[1]:
                        d.add(('c', off, z[0]))
            elif x[1] is not y[1]:
                d.add(('c', off, x[0]))
        o = self.objs[oid]
        for k in set(a.arrs) | set(b.arrs):
            x = a.arrs.get(k) or self.get_arr(o, a, *k)
            y = b.arrs.get(k) or self.get_arr(o, b, *k)
            if x is not y:
                d.add(('a',) + k)
        return d

    def havoc_mem(self, st, mods):
        for oid, items in mods.items():
            if oid not in st.mem and self.objs[oid].kind != 'global':
                continue
            o = self.objs[oid]
            self.fresh += 1
            if 'all' in items:
                self.init_obj(st, o, ('havoc', 'loop.%s.%d' % (o.name, self.fresh)))
                continue
            s = self.os_w(st, oid)
            for it in sorted(items):
                if it[0] == 'c':
                    self.cell_write(o, s, it[1], it[2], self.newvar('loopmem', it[2] * 8))
                else:
                    s.arrs[it[1:]] = AV('init', 'loop.%s.%d#%d.%d' % (o.name, self.fresh, it[1], it[2]))

    def snap(self, ctx):
        return ({k: len(v) for k, v in ctx['pend'].items()}, len(ctx['rets']))

    def new_edges(self, ctx, sn):
        out = []
        for k, v in ctx['pend'].items():
            out += v[sn[0].get(k, 0):]
        return out + ctx['rets'][sn[1]:]

    def drop_edges(self, ctx, sn):
        for k in list(ctx['pend']):
            n = sn[0].get(k, 0)
            if n:
                del ctx['pend'][k][n:]
            else:
                del ctx['pend'][k]
        del ctx['rets'][sn[1]:]

    def run_loop_inv(self, ctx, h):
        """Deductive rule: the invariant holds on entry; from an arbitrary state
        satisfying it one iteration re-establishes it; after the loop only the
        invariant and the exit condition are known."""
        f = ctx['f']
        pend = ctx['pend']
        mode = ctx.setdefault('inv', {})
        g, st, phi = self.merge_edges(pend.pop(h))
        self.inv_used = getattr(self, 'inv_used', 0) + 1

        def enter(m, s, ph, gg):
            e = Edge()
            e.g, e.st, e.phi, e.src = gg, s, ph, h
            pend[h] = [e]
            mode[h] = m
            was = self.ghost.get('inv_mode')
            self.ghost['inv_mode'] = m
            self.run_region(ctx, h)
            self.ghost['inv_mode'] = was

        sn = self.snap(ctx)
        enter('init', st.fork(), dict(phi), g)
        if self.new_edges(ctx, sn):
            raise EngineError('invariant hook is not at the top of the loop in ' + f.name)
        mods = {}
        split_on = False
        outer = self.ghost.get('split_on'), self.ghost.pop('split_seen', False)
        for attempt in range(14):
            self.ghost['split_on'] = split_on
            na, no, nc, nb, ny = len(self.axioms), len(self.oblig), len(self.covers), len(self.bounded), len(self.anys)
            st2 = self.own(st)
            self.havoc_mem(st2, mods)
            ref = dict(st2.mem)
            st2 = st2.fork()
            phi2 = self.havoc_phis(f, h, phi)
            enter('assume', st2, phi2, g)
            back = pend.pop(h, [])
            more = False
            for e in back:
                for ins in f.blocks[h]['insts']:
                    if ins['op'] != 'phi':
                        break
                    if ins['ty'][0] == 'p':
                        ob = [x[1] for x in self.resolve(phi2[ins['id']])]
                        nb_ = [x[1] for x in self.resolve(e.phi[ins['id']])]
                        if set(nb_) != set(ob):
                            raise EngineError('loop-carried pointer leaves its object in ' + f.name)
                for oid, b in e.st.mem.items():
                    a = ref.get(oid)
                    if a is None:
                        o = self.objs[oid]
                        if o.kind == 'global':
                            a = self.ghost['pristine'].get(oid)
                        if a is None:
                            continue
                    d = self.os_diff(oid, a, b) - mods.get(oid, set())
                    if d:
                        mods.setdefault(oid, set()).update(d)
                        more = True
            if not more:
                # case splits apply only once the modified state is known
                if not self.ghost.pop('split_seen', False) or split_on:
                    break
                split_on = True
            self.drop_edges(ctx, sn)
            del self.axioms[na:], self.oblig[no:], self.covers[nc:], self.bounded[nb:], self.anys[ny:]
            self.solver = None
            self.ax_done = 0
            self.models = []
        else:
            raise EngineError('modified state of the loop in %s does not stabilise' % f.name)
        self.ghost['split_on'], self.ghost['split_seen'] = outer
        exits = self.new_edges(ctx, sn)
        if back:
            sn2 = self.snap(ctx)
            bg, bst, bphi = self.merge_edges(back)
            enter('check', self.own(bst), bphi, bg)
            if self.new_edges(ctx, sn2):
                raise EngineError('invariant hook is not at the top of the loop in ' + f.name)
        del mode[h]
        # execution goes on from the last, leaving, iteration
        d = FALSE
        for e in exits:
            d = or_(d, conj(e.g))
        self.axioms.append(implies(conj(g), d))

    def inv_hook(self, ctx, c, g):
        f = ctx['f']
        b = ctx['cur']
        h = f.loops[b][0] if f.loops[b] else None
        m = ctx.get('inv', {}).get(h)
        if m == 'init':
            self.obligation('invariant', 'loop invariant holds on entry', g, c)
            raise PathDead()
        if m == 'check':
            for p in conjuncts(c):
                self.obligation('invariant', 'loop invariant is preserved', g, p)
            raise PathDead()
        if m == 'assume':
            self.axioms.append(implies(conj(g), c))
            for v, k in self.ghost.pop('splits', []):
                fr = ctx['fr']
                for i in fr:
                    if fr[i] is v:
                        fr[i] = k

    def run_loop(self, ctx, h):
        f = ctx['f']
        if self.opts.get('inv') and self.inv_loop_of(f).get(h):
            return self.run_loop_inv(ctx, h)
        it = 0
        pend = ctx['pend']
        bound = self.max_iter
        key = (f.name, h)
        g_in = None
        while pend.get(h):
            if time.time() > self.deadline:
                raise EngineError('time limit while unrolling ' + f.name)
            if it > 0:
                # merge back edges and test feasibility of another iteration
                es = pend.pop(h)
                g, st, phi = self.merge_edges(es)
                if g_in is not None and g != g_in and not self.feasible(g):
                    self.axioms.append(not_(conj(g)))
                    break
                if it >= bound:
                    self.axioms.append(not_(conj(g)))
                    self.bounded.append(('%s block %d' % (f.name, h), bound))
                    break
                e = Edge()
                e.g, e.st, e.phi, e.src = g, st, phi, h
                pend[h] = [e]
            elif len(pend[h]) == 1:
                g_in = pend[h][0].g
            else:
                g, st, phi = self.merge_edges(pend[h])
                e = Edge()
                e.g, e.st, e.phi, e.src = g, st, phi, h
                pend[h] = [e]
                g_in = g
            # run one iteration: back edges accumulate in pend[h] again
            self.run_region(ctx, h)

            it += 1
        k = self.loopcounts.get(key, 0)
        if it > k:
            self.loopcounts[key] = it

    def run_block(self, ctx, b, es, L):
        f = ctx['f']
        fr = ctx['fr']
        g, st, phi = self.merge_edges(es)
        if len(es) > 1:
            a = f.anchor.get(b)
            if a is not None and b not in f.loops[b][:1]:
                ag = ctx['bg'].get(a)
                if ag is not None and g[:len(ag)] == ag:
                    g = ag
        for k, v in phi.items():
            fr[k] = v
        st = self.own(st)
        # literal contradictions
        blk = f.blocks[b]
        ctx['bg'][b] = g
        stk = self.stack[-1]
        try:
            for ins in blk['insts']:
                op = ins['op']
                if op == 'phi':
                    continue
                lc = ins.get('loc')
                if lc is not None:
                    stk[1] = lc
                    self.sub_used.add(lc[2])
                self.insts += 1
                h = _DISPATCH.get(op)
                if h is not None:
                    fr[ins['id']] = h(self, ctx, ins, fr, g, st)
                    continue
                if op == 'call' and ins['callee'][0] == 'g' and ins['callee'][1] == '__v_inv':
                    if self.opts.get('inv'):
                        ctx['cur'] = b
                        self.inv_hook(ctx, self.val(fr, ins['a'][0]), g)
                    continue
                if op == 'call' or op == 'invoke':
                    r = self.do_call(ctx, ins, fr, g, st)
                    if r is not None:
                        v, g2, st2 = r
                        fr[ins['id']] = v
                        st = st2
                        if g2 is not g:
                            g = g2
                            ctx['bg'][b] = g
                    continue
                if op == 'br':
                    if 'cond' not in ins:
                        self.edge(ctx, b, ins['to'][0], g, st)
                        return
                    c = self.val(fr, ins['cond'])
                    c = self.known(c, g)
                    t, e = ins['to']
                    if t == e:
                        self.edge(ctx, b, t, g, st)
                        return
                    if c is TRUE:
                        self.edge(ctx, b, t, g, st)
                    elif c is FALSE:
                        self.edge(ctx, b, e, g, st)
                    else:
                        dead_t = self.is_dead(f, t)
                        dead_e = self.is_dead(f, e)
                        st2 = st.fork()
                        if dead_t and not dead_e:
                            # failure branch: process it first so that its infeasibility is an axiom
                            self.edge(ctx, b, t, g + (c,), st)
                            self.edge(ctx, b, e, g, st2)   # else-literal implied by the axiom
                            if not self.run_dead_now(ctx, t):
                                pass
                        elif dead_e and not dead_t:
                            self.edge(ctx, b, e, g + (not_(c),), st)
                            self.edge(ctx, b, t, g, st2)
                            self.run_dead_now(ctx, e)
                        else:
                            # loop exits: prune infeasible sides so unrolling stops
                            if self.opts.get('prune'):
                                if not self.feasible(g + (c,)):
                                    self.axioms.append(not_(conj(g + (c,))))
                                    self.edge(ctx, b, e, g, st)
                                    return
                                if not self.feasible(g + (not_(c),)):
                                    self.axioms.append(not_(conj(g + (not_(c),))))
                                    self.edge(ctx, b, t, g, st)
                                    return
                            self.edge(ctx, b, t, g + (c,), st)
                            self.edge(ctx, b, e, g + (not_(c),), st2)
                    return
                if op == 'switch':
                    c = self.val(fr, ins['cond'])
                    if c.v is not None:
                        for cv, tgt in ins['cases']:
                            if int(cv[2]) & ((1 << c.w) - 1) == c.v:
                                self.edge(ctx, b, tgt, g, st)
                                return
                        self.edge(ctx, b, ins['default'], g, st)
                        return
                    by = {}
                    rest = TRUE
                    for cv, tgt in ins['cases']:
                        q = eq(c, const(int(cv[2]), c.w))
                        by[tgt] = or_(by.get(tgt, FALSE), q)
                        rest = and_(rest, not_(q))
                    by[ins['default']] = or_(by.get(ins['default'], FALSE), rest)
                    gg = g
                    items = [(t, q) for t, q in by.items()]
                    # chain of decisions so merging stays structured
                    for i, (t, q) in enumerate(items):
                        q = self.known(q, gg)
                        if q is FALSE:
                            continue
                        if i == len(items) - 1 or q is TRUE:
                            self.edge(ctx, b, t, gg, st.fork())
                            if q is TRUE:
                                break
                        else:
                            self.edge(ctx, b, t, gg + (q,), st.fork())
                            gg = gg + (not_(q),)
                    return
                if op == 'ret':
                    e = Edge()
                    e.g, e.st, e.src = g, st, b
                    e.phi = {'ret': self.val(fr, ins['a'][0])} if ins['a'] else {}
                    ctx['rets'].append(e)
                    return
                if op == 'unreachable':
                    self.obligation('unreachable', 'code marked unreachable is reached', g, FALSE)
                    return
                raise EngineError('instruction %s in %s' % (op, f.name))
        except PathDead:
            return

    def run_dead_now(self, ctx, t):
        """Run the (never returning) failure block at once."""
        f = ctx['f']
        # only when it has no loops and only this pending edge: run it in isolation
        todo = [t]
        while todo:
            b = todo.pop()
            es = ctx['pend'].pop(b, None)
            if not es:
                continue
            self.run_block(ctx, b, es, None)
            for s in succs(f.blocks[b]):
                if ctx['pend'].get(s) and self.is_dead(f, s):
                    todo.append(s)
        return True

    def is_dead(self, f, b):
        return b in self.deadmap(f)

    def deadmap(self, f):
        m = self.ghost.setdefault('dead', {})
        d = m.get(f.name)
        if d is None:
            n = len(f.blocks)
            live = set()
            pr = [[] for _ in range(n)]
            for u in range(n):
                for v in succs(f.blocks[u]):
                    pr[v].append(u)
            wk = [u for u in range(n) if f.blocks[u]['insts'][-1]['op'] == 'ret']
            # blocks on infinite loops count as live
            live.update(wk)
            while wk:
                u = wk.pop()
                for p in pr[u]:
                    if p not in live:
                        live.add(p)
                        wk.append(p)
            d = set()
            for u in range(n):
                if u not in live and not f.blocks[u]['loops']:
                    d.add(u)
            # only straight-line dead blocks: all successors dead
            ch = True
            while ch:
                ch = False
                for u in list(d):
                    if any(v not in d for v in succs(f.blocks[u])):
                        d.discard(u)
                        ch = True
            m[f.name] = d
        return d

    def known(self, c, g):
        if c.v is not None:
            return c
        for l in g:
            if l is c:
                return TRUE
            if l.neg is c:
                return FALSE
        return c

    def edge(self, ctx, src, dst, g, st):
        f = ctx['f']
        fr = ctx['fr']
        # contradictory guard
        if len(g) > 1 and g[-1] is FALSE:
            return
        phi = {}
        for ins in f.blocks[dst]['insts']:
            if ins['op'] != 'phi':
                break
            for pb, o in ins['in']:
                if pb == src:
                    phi[ins['id']] = self.val(fr, o)
                    break
        e = Edge()
        e.g, e.st, e.phi, e.src = g, st, phi, src
        ctx['pend'].setdefault(dst, []).append(e)

    # ------------------------------------------------------------ calls
    def do_call(self, ctx, ins, fr, g, st):
        cal = ins['callee']
        if cal[0] == 'asm':
            if ins['ty'][0] == 'v':
                return None   # compiler barrier / prefetch
            if ins['ty'][0] == 'p' and len(ins['a']) == 1:
                return self.val(fr, ins['a'][0]), g, st
            raise EngineError('inline asm at ' + self.where())
        if cal[0] == 'g':
            name = cal[1]
        else:
            name = None
        args = [self.val(fr, a) if a[0] != 'm' else None for a in ins['a']]
        for k, size, t in ins.get('byval', ()):
            import models
            o = self.new_obj('byval', size, t, 'heap', 64)
            self.init_obj(st, o, ('havoc', 'byval%d' % o.id))
            models.copy_mem(self, st, o.base, args[k], size, g)
            args[k] = o.base
        if name is None:
            p = self.val(fr, cal)
            tg = self.targets(p, g, 1, 'call')
            fns = []
            for cond, oid, off in tg:
                o = self.objs[oid]
                if o.kind != 'fn':
                    raise EngineError('call through data pointer at ' + self.where())
                fns.append((cond, o.name[3:]))
            if len(fns) == 1:
                name = fns[0][1]
            else:
                res = []
                for i, (cond, n) in enumerate(fns):
                    gg = self.gext(g, cond)
                    try:
                        v, g2, st2 = self.invoke(ctx, ins, n, args, gg, st.fork())
                        e = Edge()
                        e.g, e.st, e.phi, e.src = g2, st2, {'r': v} if v is not None else {}, None
                        res.append(e)
                    except PathDead:
                        pass
                if not res:
                    raise PathDead()
                mg, mst, mphi = self.merge_edges(res)
                return mphi.get('r'), g, self.own(mst)
        return self.invoke(ctx, ins, name, args, g, st)

    def invoke(self, ctx, ins, name, args, g, st):
        import models
        r = models.intrinsic(self, ctx, ins, name, args, g, st)
        if r is not models.NOT:
            return r
        sub_ = self.stubs.get(name)
        if sub_ is not None and not (self.stack and any(s[0] == sub_ for s in self.stack)):
            name = sub_
        f = self.mod.fns.get(name)
        if f is None or f.decl:
            raise EngineError('no body or model for external function %s at %s' % (name, self.where()))
        # byval aggregates are passed by pointer; callee owns a copy
        v, g2, st2 = self.call(name, args, g, st)
        return v, g2, st2


def conjuncts(c):
    if c.op == 'and':
        return [p for x in c.a for p in conjuncts(x)]
    return [c]


def merge_av(c, x, y):
    # overlays of one array: merge entry by entry
    px, dx = (x.a[0], x.a[1]) if x.k == 'ov' else (x, {})
    py, dy = (y.a[0], y.a[1]) if y.k == 'ov' else (y, {})
    if px is py and (x.k == 'ov' or y.k == 'ov'):
        d = {}
        for q in dx.keys() | dy.keys():
            u = dx.get(q)
            v = dy.get(q)
            w = (u if u is not None else v).w
            if u is None:
                u = aread(px, const(q, 64), w)
            if v is None:
                v = aread(py, const(q, 64), w)
            d[q] = u if u is v else ite(c, u, v)
        return AV('ov', px, d, (x if x.k == 'ov' else y).a[2])
    return AV('ite', c, x, y)


def ite_val(c, a, b):
    if a is b:
        return a
    if isinstance(a, tuple) or isinstance(b, tuple):
        return tuple(ite_val(c, p, q) for p, q in zip(a, b))
    if a is None:
        return b
    if b is None:
        return a
    return ite(c, a, b)


def model_env(m, low):
    import z3
    vals = {}
    for n, (ast, w) in low.vars.items():
        v = m.eval(low.wrap(ast, w), model_completion=True)
        vals[n] = _num(v)
    tabs = {}
    for name, apps in low.apps.items():
        t = tabs[name] = {}
        for args, k, r in apps:
            key = tuple(_num(m.eval(low.wrap(ka, a.w), model_completion=True)) for ka, a in zip(k, args))
            t[key] = _num(m.eval(low.wrap(r, X.uf_decl[name][1]), model_completion=True))

    def env(n, w):
        if isinstance(n, tuple):
            t = tabs.get(n[1])
            if t is None:
                return 0
            return t.get(n[2], 0)
        return vals.get(n)
    env.vals = vals
    env.tabs = tabs
    return env


def _num(v):
    import z3
    if v is None:
        return 0
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    try:
        return v.as_long()
    except Exception:
        return 0


# ---------------------------------------------------------------- instructions
def _bin(fnc):
    def h(E, ctx, ins, fr, g, st):
        a = ins['a']
        return fnc(E.val(fr, a[0]), E.val(fr, a[1]))
    return h


def _load(E, ctx, ins, fr, g, st):
    p = E.val(fr, ins['a'][0])
    t = ins['ty']
    w = type_width(t)
    if w is None:
        # aggregate load
        if t[0] == 's':
            out = []
            for off, ft in t[1]:
                fw = type_width(ft)
                if fw is None:
                    raise EngineError('nested aggregate load')
                v = E.load(st, add(p, const(off, 64)), type_size(ft), g)
                out.append(trunc(v, fw) if fw < v.w else v)
            return tuple(out)
        raise EngineError('load of %r at %s' % (t, E.where()))
    v = E.load(st, p, type_size(t), g)
    return trunc(v, w) if w < v.w else v


def _store(E, ctx, ins, fr, g, st):
    v = E.val(fr, ins['a'][0])
    p = E.val(fr, ins['a'][1])
    t = ins['oty']
    if isinstance(v, tuple):
        if t[0] == 's':
            for (off, ft), x in zip(t[1], v):
                if type_width(ft) is None:
                    raise EngineError('nested aggregate store')
                n = type_size(ft)
                if x.w < n * 8:
                    x = zext(x, n * 8)
                E.store(st, add(p, const(off, 64)), n, x, g)
            return None
        raise EngineError('aggregate store %r' % (t,))
    n = type_size(t)
    if v.w < n * 8:
        v = zext(v, n * 8)
    E.store(st, p, n, v, g)


def _gep(E, ctx, ins, fr, g, st):
    p = E.val(fr, ins['base'])
    if ins['off']:
        p = add(p, const(ins['off'], 64))
    for sc, o in ins['idx']:
        i = E.val(fr, o)
        if i.w < 64:
            i = sext(i, 64)
        p = add(p, X.mul(i, const(sc, 64)))
    return p


def _alloca(E, ctx, ins, fr, g, st):
    f = ctx['f']
    n = E.val(fr, ins['a'][0])
    if n.v is None:
        raise EngineError('variable alloca')
    memo = ctx.setdefault('amap', {})
    o = memo.get(ins['id'])
    if o is None:
        o = E.new_obj('%s:%%%d' % (f.name[-40:], ins['id']), ins['size'] * n.v, ins['aty'] if n.v == 1 else None, 'stack', ins['align'])
        memo[ins['id']] = o
        ctx['allocas'].append(o.id)
    E.init_obj(st, o, ('havoc', 'u%d' % o.id))
    return o.base


def _icmp(E, ctx, ins, fr, g, st):
    a = E.val(fr, ins['a'][0])
    b = E.val(fr, ins['a'][1])
    p = ins['pred']
    if p == 'eq':
        return eq(a, b)
    if p == 'ne':
        return not_(eq(a, b))
    if p == 'ult':
        return ult(a, b)
    if p == 'ule':
        return ule(a, b)
    if p == 'ugt':
        return ult(b, a)
    if p == 'uge':
        return ule(b, a)
    if p == 'slt':
        return slt(a, b)
    if p == 'sle':
        return sle(a, b)
    if p == 'sgt':
        return slt(b, a)
    return sle(b, a)


def _cast(E, ctx, ins, fr, g, st):
    v = E.val(fr, ins['a'][0])
    w = type_width(ins['ty'])
    op = ins['op']
    if op == 'trunc':
        return trunc(v, w)
    if op == 'zext':
        return zext(v, w)
    if op == 'sext':
        return sext(v, w)
    if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
        if isinstance(v, tuple) or w is None:
            return v
        if v.w < w:
            return zext(v, w)
        return trunc(v, w)
    raise EngineError(op)


def _select(E, ctx, ins, fr, g, st):
    c = E.val(fr, ins['a'][0])
    return ite_val(c, E.val(fr, ins['a'][1]), E.val(fr, ins['a'][2]))


def _extractvalue(E, ctx, ins, fr, g, st):
    v = E.val(fr, ins['a'][0])
    for k in ins['path']:
        v = v[k]
    return v


def _insertvalue(E, ctx, ins, fr, g, st):
    v = E.val(fr, ins['a'][0])
    x = E.val(fr, ins['a'][1])

    def go(v, path):
        if not path:
            return x
        l = list(v)
        l[path[0]] = go(l[path[0]], path[1:])
        return tuple(l)
    return go(v, ins['path'])


def _cmpxchg(E, ctx, ins, fr, g, st):
    p, o, n = [E.val(fr, a) for a in ins['a']]
    nb = o.w // 8
    old = E.load(st, p, nb, g)
    ok = eq(old, o)
    E.store(st, p, nb, ite(ok, n, old), g)
    return (old, ok)


def _rmw(E, ctx, ins, fr, g, st):
    p, v = [E.val(fr, a) for a in ins['a']]
    nb = max(1, v.w // 8)
    old = E.load(st, p, nb, g)
    k = ins['rmw']
    new = {'xchg': lambda: v, 'add': lambda: add(old, v), 'sub': lambda: sub(old, v),
           'and': lambda: X.band(old, v), 'or': lambda: X.bor(old, v), 'xor': lambda: X.bxor(old, v),
           'umax': lambda: ite(ult(old, v), v, old), 'umin': lambda: ite(ult(v, old), v, old)}.get(k)
    if new is None:
        raise EngineError('atomicrmw ' + k)
    E.store(st, p, nb, new(), g)
    return old


import struct


def _f2i(v, w):
    return struct.unpack('<d' if w == 64 else '<f', v.to_bytes(w // 8, 'little'))[0]


def _i2f(x, w):
    try:
        return int.from_bytes(struct.pack('<d' if w == 64 else '<f', x), 'little')
    except OverflowError:
        return int.from_bytes(struct.pack('<d' if w == 64 else '<f', float('inf') if x > 0 else float('-inf')), 'little')


def _fbin(E, ctx, ins, fr, g, st):
    a, b = [E.val(fr, x) for x in ins['a']]
    w = a.w
    if a.v is not None and b.v is not None and w in (32, 64):
        x, y = _f2i(a.v, w), _f2i(b.v, w)
        op = ins['op']
        try:
            r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y,
                 'fdiv': lambda: x / y}[op]()
            return const(_i2f(r, w), w)
        except (KeyError, ZeroDivisionError):
            pass
    return X.fop(ins['op'], [a, b], w)


def _fneg(E, ctx, ins, fr, g, st):
    a = E.val(fr, ins['a'][0])
    return X.bxor(a, const(1 << (a.w - 1), a.w))


def _fcmp(E, ctx, ins, fr, g, st):
    a, b = [E.val(fr, x) for x in ins['a']]
    p = ins['pred']
    w = a.w
    if a.v is not None and b.v is not None and w in (32, 64):
        x, y = _f2i(a.v, w), _f2i(b.v, w)
        nan = x != x or y != y
        base = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(p[1:])
        if p == 'ord':
            return X.boolc(not nan)
        if p == 'uno':
            return X.boolc(nan)
        if base is not None:
            return X.boolc(base and not nan if p[0] == 'o' else base or nan)
    if w == 64 and p[1:] in ('lt', 'le', 'gt', 'ge') and (a.v is None) != (b.v is None):
        # a constant against a converted integer, exact below 2^53
        c, x, q = (b, a, p[1:]) if b.v is not None else (a, b, {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[p[1:]])
        f = _f2i(c.v, 64)
        if x.op == 'uf' and x.a[0].startswith('fp.uitofp.') and abs(f) < 2.0 ** 53:
            import math
            n, i = x.a[1], None
            # n < f, n <= f
            lo = math.ceil(f) if q in ('lt', 'ge') else math.floor(f) + 1
            i = ult(n, const(lo, n.w)) if 0 <= lo < 1 << n.w else X.boolc(lo > 0)
            if q in ('gt', 'ge'):
                i = not_(i)
            if n.w <= 53:
                return i
            return ite(ult(n, const(1 << 53, n.w)), i, X.fop('fcmp.' + p, [a, b], 1))
    return X.fop('fcmp.' + p, [a, b], 1)


def _fcast(E, ctx, ins, fr, g, st):
    a = E.val(fr, ins['a'][0])
    op = ins['op']
    w = type_width(ins['ty'])
    if a.v is not None:
        try:
            if op == 'uitofp' and w in (32, 64):
                return const(_i2f(float(a.v), w), w)
            if op == 'sitofp' and w in (32, 64):
                return const(_i2f(float(X.sx(a.v, a.w)), w), w)
            if op in ('fptoui', 'fptosi') and a.w in (32, 64):
                return const(int(_f2i(a.v, a.w)), w)
            if op in ('fpext', 'fptrunc') and a.w in (32, 64) and w in (32, 64):
                return const(_i2f(_f2i(a.v, a.w), w), w)
        except (OverflowError, ValueError):
            pass
    return _fcast1(op, a, w)


def _fcast1(op, a, w):
    if op == 'fptoui' and a.w == 64:
        if a.v is not None and 0 <= _f2i(a.v, 64) < 1 << w:
            return const(int(_f2i(a.v, 64)), w)
        if a.op == 'ite':
            return ite(a.a[0], _fcast1(op, a.a[1], w), _fcast1(op, a.a[2], w))
        if a.op == 'uf' and a.a[0].startswith('fp.uitofp.') and a.a[1].w == w:
            n = a.a[1]
            return n if w <= 53 else ite(ult(n, const(1 << 53, w)), n, X.fop(op, [a], w))
    return X.fop(op, [a], w)


_DISPATCH = {
    'add': _bin(add), 'sub': _bin(sub), 'mul': _bin(mul), 'udiv': _bin(X.udiv), 'urem': _bin(X.urem),
    'sdiv': _bin(X.sdiv), 'srem': _bin(X.srem), 'and': _bin(X.band), 'or': _bin(X.bor), 'xor': _bin(X.bxor),
    'shl': _bin(X.shl), 'lshr': _bin(X.lshr), 'ashr': _bin(X.ashr),
    'load': _load, 'store': _store, 'getelementptr': _gep, 'alloca': _alloca, 'icmp': _icmp,
    'trunc': _cast, 'zext': _cast, 'sext': _cast, 'ptrtoint': _cast, 'inttoptr': _cast, 'bitcast': _cast,
    'freeze': _cast, 'select': _select, 'extractvalue': _extractvalue, 'insertvalue': _insertvalue,
    'cmpxchg': _cmpxchg, 'atomicrmw': _rmw, 'fadd': _fbin, 'fsub': _fbin, 'fmul': _fbin, 'fdiv': _fbin,
    'frem': _fbin, 'fneg': _fneg, 'fcmp': _fcmp, 'uitofp': _fcast, 'sitofp': _fcast, 'fptoui': _fcast,
    'fptosi': _fcast, 'fpext': _fcast, 'fptrunc': _fcast, 'fence': lambda *a: None,
}
