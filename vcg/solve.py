"""Discharging the obligations of one harness."""
import os
import subprocess
import tempfile
import sys
import time
import z3
import terms as X
from terms import TRUE, FALSE, and_, or_, not_, conj
import engine


class Discharger:
    def __init__(self, E, tmo, budget, lemma=False):
        self.E = E
        self.tmo = tmo
        self.t_end = time.time() + budget
        self.low = X.Low(lemma_popcnt=lemma)
        self.s = z3.SolverFor('QF_BV')
        self.na = 0
        self.nr = 0
        self.time = 0.0
        self.calls = 0
        self.backends = {}

    def upto(self, n):
        low = self.low
        for a in self.E.axioms[self.na:n]:
            z = low.low(a)
            self.flush()
            self.s.add(low.wrap(z, 1))
        self.na = max(self.na, n)

    def flush(self):
        low = self.low
        for r in low.ranges[self.nr:]:
            self.s.add(low.wrap(r, 1))
        self.nr = len(low.ranges)

    def check(self, t, tmo):
        """-> ('unsat'|'sat'|'unknown', env)"""
        if t is FALSE:
            return 'unsat', None
        z = self.low.wrap(self.low.low(t), 1)
        self.flush()
        left = self.t_end - time.time()
        if left < 1:
            return 'unknown', None
        self.s.set('timeout', int(min(tmo, left) * 1000))
        t0 = time.time()
        r = self.s.check(z)
        self.time += time.time() - t0
        self.calls += 1
        if r == z3.sat:
            return 'sat', engine.model_env(self.s.model(), self.low)
        return ('unsat' if r == z3.unsat else 'unknown'), None

    def oneshot(self, t, tmo, backend='z3'):
        """A fresh non-incremental query with the full preprocessing pipeline."""
        z = self.low.wrap(self.low.low(t), 1)
        self.flush()
        left = self.t_end - time.time()
        if left < 1:
            return 'unknown', None
        tmo = min(tmo, left)
        t0 = time.time()
        self.calls += 1
        try:
            if backend == 'z3':
                tac = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'max-bv-sharing', 'bit-blast', 'aig', 'sat')
                s = tac.solver()
                s.set('timeout', int(tmo * 1000))
                for a in self.s.assertions():
                    s.add(a)
                s.add(z)
                r = s.check()
                if r == z3.sat:
                    return 'sat', engine.model_env(s.model(), self.low)
                return ('unsat' if r == z3.unsat else 'unknown'), None
            s = z3.Solver()
            for a in self.s.assertions():
                s.add(a)
            s.add(z)
            txt = '(set-logic QF_BV)\n' + '\n'.join(l for l in s.to_smt2().splitlines() if not l.startswith('(set-'))
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt)
            try:
                p = subprocess.run(['cvc5', '--tlimit=%d' % int(tmo * 1000), f.name], capture_output=True, text=True, timeout=tmo + 10)
                out = p.stdout.split()
                r = out[0] if out and out[0] in ('sat', 'unsat') else 'unknown'
            except subprocess.TimeoutExpired:
                r = 'unknown'
            finally:
                os.unlink(f.name)
            return (r if r == 'unsat' else 'unknown'), None
        finally:
            self.time += time.time() - t0


def eval_ob(env, memo, ob):
    return X.evaluate(and_(conj(ob[2]), not_(ob[3])), env, memo)


def discharge(E, opts):
    """-> dict(results=[(ob, status, env)], ...)."""
    tmo = opts.get('solve_timeout', 40)
    budget = opts.get('solve_budget', 300)
    D = Discharger(E, tmo, budget)
    DL = Discharger(E, tmo, budget, True) if any(t.op == 'popcnt' for t in X._tab.values()) else None
    L = None
    if opts.get('lia'):
        from lia import LiaDischarger
        L = LiaDischarger(E)
    res = []
    obs = E.oblig
    triv = sum(1 for o in obs if o[2] is None)
    todo = [o for o in obs if o[2] is not None]
    i = 0
    first_fail = None
    # groups of consecutive side obligations sharing one query
    groups = []
    for o in todo:
        if o[0] != 'contract' and groups and groups[-1][0][0] != 'contract' and len(groups[-1]) < opts.get('group', 60):
            groups[-1].append(o)
        else:
            groups.append([o])

    def run(gr):
        _t = time.time()
        run1(gr)
        if os.environ.get('VPROF') and time.time() - _t > 0.5:
            print('PROF %.1f %s %s %s' % (time.time() - _t, gr[0][0], gr[0][1], len(gr)), file=sys.stderr)

    def run1(gr):
        # bad = exists an obligation in gr failing with everything before it holding
        bad = FALSE
        pre = TRUE
        n = gr[0][4]
        for o in gr:
            while n < o[4]:
                pre = and_(pre, E.axioms[n])
                n += 1
            bad = or_(bad, and_(pre, and_(conj(o[2]), not_(o[3]))))
        if L is not None:
            _t0 = time.time()
            L.upto(gr[0][4])
            _l = L.unsat(bad, opts['lia'])
            if os.environ.get('VPROF') and not _l:
                print('LIA failed', gr[0][:2], len(gr), gr[-1][:2], '%.1f' % (time.time() - _t0), file=sys.stderr)
            if _l:
                for o in gr:
                    res.append((o, 'ok', 'z3-integers'))
                return
            if len(gr) > 1:
                m = len(gr) // 2
                run(gr[:m])
                run(gr[m:])
                return
        if DL is not None:
            DL.upto(gr[0][4])
            st, env = DL.check(bad, tmo)
            if st == 'unsat':
                for o in gr:
                    res.append((o, 'ok', 'z3-incremental+popcount-lemmas'))
                return
        D.upto(gr[0][4])
        st, env = D.check(bad, min(tmo, opts.get('inc_timeout', 10)))
        if st == 'unknown' and len(gr) > 1:
            m = len(gr) // 2
            run(gr[:m])
            run(gr[m:])
            return
        be = 'z3-incremental'
        if st == 'unknown':
            st, env = D.oneshot(bad, tmo * 2)
            be = 'z3-tactic'
        if st == 'unknown':
            st, env = D.oneshot(bad, tmo * 2, 'cvc5')
            be = 'cvc5'
        if st == 'unsat':
            for o in gr:
                res.append((o, 'ok', be))
        elif st == 'unknown':
            for o in gr:
                res.append((o, 'unknown', None))
        else:
            memo = {}
            k = 0
            for k, o in enumerate(gr):
                if eval_ob(env, memo, o):
                    break
            if k:
                run(gr[:k])
            res.append((gr[k], 'fail', env))
            if gr[k + 1:]:
                run(gr[k + 1:])
    nf = 0
    for gr in groups:
        if sum(1 for r in res if r[1] == 'fail') >= opts.get('max_fail', 3):
            for o in gr:
                res.append((o, 'skipped', None))
            continue
        run(gr)
    # vacuity: the end of the harness and every cover must be reachable
    vac = []
    failed = any(r[1] == 'fail' for r in res)
    if not failed:
        D.upto(len(E.axioms))
        K = D
        if E.covers and E.ghost.get('stopped'):  # a cover before __v_stop is reachable without what comes after
            K = Discharger(E, tmo, budget)
        for nm, g, c, n in sorted(E.covers, key=lambda x: x[3]):
            if K is not D:
                K.upto(n)
            st, env = K.check(and_(conj(g), c), tmo)
            vac.append((nm, st))
        st, env = D.check(TRUE, tmo)
        vac.append(('end of harness', st))
    return {'res': res, 'trivial': triv, 'vac': vac, 'time': D.time + (DL.time if DL else 0) + (L.time if L else 0), 'calls': D.calls + (DL.calls if DL else 0) + (L.calls if L else 0), 'env': None}


def tainted(E, ob):
    """Does the obligation depend on an abstracted (floating-point) operation?"""
    seen = set()
    st = [ob[3]] + list(ob[2])
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'uf' and t.a[0].startswith('fp.'):
            return True
        if t.op not in ('c', 'x', 'base'):
            st.extend(k for k in t.a if isinstance(k, X.T))
    return False


def values(E, env):
    """Replay file lines for a model."""
    memo = {}

    def ev(t):
        return X.evaluate(t, env, memo)
    out = []
    for name, kind, g, pay in E.anys:
        if not ev(conj(g)):
            continue
        if kind == 'int':
            out.append('i %s %x' % (name, ev(pay)))
        elif kind == 'uf':
            out.append('u %s %s' % (name, ' '.join('%x' % ev(t) for t in pay)))
        elif kind == 'mem':
            oid, gen, off, n = pay
            n = min(n, 1 << 20)   # the start is enough to name the values
            b = bytearray(n)
            for o2, (m, v) in E.ghost.get(('init', gen), {}).items():
                x = ev(v).to_bytes(m, 'little')
                for k in range(m):
                    if off <= o2 + k < off + n:
                        b[o2 + k - off] = x[k]
            for ri, reg in enumerate(E.objs[oid].regions):
                for lf, m in reg.leaf.items():
                    t = env.tabs.get('%s#%d.%d' % (gen, ri, lf), {})
                    for key, v in t.items():
                        if key[0] < reg.count:
                            p = reg.start + key[0] * reg.stride + lf - off
                            if 0 <= p and p + m <= n:
                                b[p:p + m] = v.to_bytes(m, 'little')
            out.append('m %s %s' % (name, b.hex()))
        else:
            cells, n = pay
            b = bytearray(n)
            for c in cells:
                if c[1] == 'arr':
                    k, _, gen, ri, reg = c
                    for lf, m in reg.leaf.items():
                        for key, v in env.tabs.get('%s#%d.%d' % (gen, ri, lf), {}).items():
                            if key[0] < reg.count:
                                p = k + key[0] * reg.stride + lf
                                b[p:p + m] = v.to_bytes(m, 'little')
                else:
                    k, m, v = c
                    b[k:k + m] = ev(v).to_bytes(m, 'little')
            out.append('m %s %s' % (name, b.hex()))
    return out
