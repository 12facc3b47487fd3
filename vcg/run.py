#!/usr/bin/env python3-vt
"""run.py PROPERTY [--tier quick|thorough] [--only REGEX] [-v]

Builds the contract harnesses of one property together with the real sources
of /repo to LLVM IR, generates the verification conditions and discharges
them.  Exit 0: every obligation of every harness holds (or is a listed known
finding).  Exit 1: a VIOLATION line was printed.  Exit 2: nothing could be
decided (build failure)."""
import argparse
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
CLANG = 'clang++-18'
LLVM = '/usr/lib/llvm-18/bin'
sys.path.insert(0, HERE)

BASE = ['-std=c++17', '-D__restrict=', '-D__restrict__=', '-w', '-fno-rtti', '-DTCMALLOC_INTERNAL_VERIFY', '-I' + ROOT + '/shim',
        '-I' + HERE, '-I' + ROOT + '/contracts', '-I' + REPO]
IRF = ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-exceptions', '-fno-vectorize',
       '-fsanitize=signed-integer-overflow,shift-exponent,integer-divide-by-zero,bounds,unreachable,return,bool',
       '-fsanitize-trap=all', '-emit-llvm', '-c']
NATF = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=shift-base,alignment,vptr,null,pointer-overflow,function',
        '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-DV_NATIVE=1']
PASSES = ('internalize,globaldce,always-inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>),'
          'cgscc(inline),function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,sroa,loop-simplify,lcssa),globaldce')


def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), (p.stderr or p.stdout)[:6000]))
    return p.stdout


def irdump():
    src = os.path.join(HERE, 'irdump.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    out = os.path.join(BUILD, 'irdump-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    flags = [f for f in sh([LLVM + '/llvm-config', '--cxxflags']).split() if not f.startswith('-std') and f != '-fno-exceptions']
    tmp = out + '.%d' % os.getpid()
    sh([CLANG, '-O1', '-std=c++17', '-w'] + flags + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    os.rename(tmp, out)
    return out


class Unit:
    pass


def meta(path):
    """//@ key: value lines."""
    m = {}
    for line in open(path):
        if line.startswith('//@'):
            k, _, v = line[3:].partition(':')
            m.setdefault(k.strip(), []).append(v.strip())
    return m


def units_of(prop, tier):
    out = []
    for p in sorted(glob.glob(ROOT + '/contracts/*.cc')):
        m = meta(p)
        if prop not in m.get('property', []):
            continue
        variants = m.get('variant') or ['default:']
        for v in variants:
            nm, _, defs = v.partition(':')
            thorough = nm.endswith('!')      # "name!": thorough tier only
            if thorough and tier != 'thorough':
                continue
            u = Unit()
            u.src = p
            u.meta = m
            u.variant = nm.rstrip('!')
            u.defs = (' '.join(m.get('defs', [])) + ' ' + defs).split()
            u.repo = ' '.join(m.get('repo', [])).split()
            u.name = os.path.basename(p)[:-3] + ('' if u.variant == 'default' else '@' + u.variant)
            out.append(u)
    return out


def build_ir(u, work, tier, dump):
    t0 = time.time()
    d = os.path.join(work, u.name)
    os.makedirs(d, exist_ok=True)
    srcs = [u.src] + [os.path.join(REPO, r) for r in u.repo] + [HERE + '/vlib.cc', HERE + '/rt.cc']
    bcs = []
    td = ['-DV_THOROUGH=1'] if tier == 'thorough' else []
    bcs = [os.path.join(d, '%d.bc' % i) for i in range(len(srcs))]
    def comp(off):
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda so: sh([CLANG] + IRF + BASE + off + td + u.defs + [so[0], '-o', so[1]]), zip(srcs, bcs)))
    try:
        comp([])
    except RuntimeError:
        # the loop-invariant hooks may name variables a change renamed: do without them (loops are then unrolled)
        comp(['-UTCMALLOC_INTERNAL_VERIFY'])
        u.nohooks = True
    full = os.path.join(d, 'all.bc')
    sh([LLVM + '/llvm-link'] + bcs + ['-o', full])
    names = sh([LLVM + '/llvm-nm', '--defined-only', '--format=just-symbols', full]).split()
    hs = sorted(n for n in names if n.startswith('h_'))
    u.harnesses = hs
    keep = hs + ['memcpy', 'memset', 'memmove', 'memcmp', 'bcmp', 'strlen', 'strcmp', 'strncmp', 'strchr', 'memchr',
                 '__cxa_guard_acquire', '__cxa_guard_release'] + ' '.join(u.meta.get('keep', [])).split()
    opt = os.path.join(d, 'opt.bc')
    passes = PASSES
    fa = []
    for s in ' '.join(u.meta.get('noinline', [])).split():
        fa.append('-force-attribute=%s:noinline' % s)
    sh([LLVM + '/opt', '-passes=' + ('forceattrs,' if fa else '') + passes, '-internalize-public-api-list=' + ','.join(keep),
        '-inline-threshold=%s' % (u.meta.get('inline', ['225'])[0]), '-disable-builtin=memcmp', '-disable-builtin=bcmp'] + fa + [full, '-o', opt])
    js = os.path.join(d, 'ir.json')
    with open(js, 'w') as f:
        p = subprocess.run([dump, opt], stdout=f, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise RuntimeError('irdump: ' + p.stderr[:2000])
    u.json = js
    u.build_s = time.time() - t0
    u.native = None
    u.dir = d
    return u


def build_native(u, tier):
    out = os.path.join(u.dir, 'native')
    if os.path.exists(out):
        return out
    td = ['-DV_THOROUGH=1'] if tier == 'thorough' else []
    srcs = [u.src] + [os.path.join(REPO, r) for r in u.repo] + [HERE + '/replay.cc', HERE + '/rt.cc']
    tmp = out + '.%d' % os.getpid()
    sh([CLANG] + NATF + BASE + (['-UTCMALLOC_INTERNAL_VERIFY'] if getattr(u, 'nohooks', False) else []) + td + u.defs + srcs + ['-o', tmp, '-rdynamic', '-ldl', '-lpthread',
       '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,lazy'] + ABSL)
    # Globals of parts of the code that are not linked: zeroed space, so that
    # the program starts (functions stay unresolved and stop the run if called).
    und = subprocess.run("nm -D --undefined-only %s | awk '{print $2}' | grep -v @ | sort -u" % tmp, shell=True, capture_output=True, text=True).stdout.split()
    names = subprocess.run(['c++filt'], input='\n'.join(und), capture_output=True, text=True).stdout.split('\n')
    data = [a for a, b in zip(und, names) if a.startswith('_Z') and '(' not in b and not a.startswith('_ZTH')]
    if data:
        with open(out + '.s', 'w') as f:
            for a in data:
                f.write('.comm %s,1048576,64\n' % a)
        objs = [out + '.s']
        sh([CLANG] + NATF + BASE + (['-UTCMALLOC_INTERNAL_VERIFY'] if getattr(u, 'nohooks', False) else []) + td + u.defs + srcs + objs + ['-o', tmp, '-rdynamic', '-ldl', '-lpthread',
           '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,lazy'] + ABSL)
    os.rename(tmp, out)
    return out


ABSL = ['-labsl_time', '-labsl_time_zone', '-labsl_strings', '-labsl_strings_internal', '-labsl_int128', '-labsl_base',
        '-labsl_throw_delegate', '-labsl_raw_logging_internal', '-labsl_spinlock_wait', '-labsl_log_severity',
        '-labsl_hash', '-labsl_city', '-labsl_low_level_hash', '-labsl_str_format_internal', '-labsl_bad_optional_access']


def opts_for(u, h, tier):
    o = {'solve_timeout': 40, 'solve_budget': 280, 'vc_timeout': 240}
    if tier == 'thorough':
        o = {'solve_timeout': 300, 'solve_budget': 1800, 'vc_timeout': 1200}
    for line in u.meta.get('opt', []):
        parts = line.split()
        if re.fullmatch(parts[0], h[2:]):
            for kv in parts[1:]:
                k, _, v = kv.partition('=')
                o[k] = int(v) if v.lstrip('-').isdigit() else v
    st = {}
    for line in u.meta.get('stub', []):
        a, b = line.split()
        st[a] = b
    o['stubs'] = st
    return o


def run_harness(mod, u, h, tier, outpath):
    """In a forked child."""
    import engine
    import solve
    import terms as X
    t0 = time.time()
    r = {'unit': u.name, 'harness': h, 'status': 'ok', 'obligations': 0, 'discharged': 0, 'fails': [], 'unknown': [],
         'bounded': [], 'note': ''}
    o = opts_for(u, h, tier)
    try:
        E = engine.Engine(mod, o)
        st = engine.State()
        try:
            E.call(h, [], (), st)
        except engine.PathDead:
            r['note'] = 'harness never returns'
        except engine.EngineError as e:
            r['status'] = 'undecided'
            r['note'] = str(e)[:600]
        except RecursionError as e:
            r['status'] = 'undecided'
            r['note'] = 'recursion limit'
        r['vc_s'] = round(time.time() - t0, 2)
        r['insts'] = E.insts
        r['feas'] = [E.feas_n, round(E.feas_t, 2)]
        r['bounded'] = sorted(set('%s (bound %d)' % b for b in E.bounded))
        r['subs'] = sorted(x for x in E.sub_used if x)
        r['loops'] = {'%s block %d' % k: v for k, v in E.loopcounts.items()}
        # the obligations collected so far are meaningful even when the run stopped early
        t1 = time.time()
        D = solve.discharge(E, o)
        r['solver_s'] = round(D['time'] + E.feas_t, 2)
        r['queries'] = D['calls'] + E.feas_n
        r['obligations'] = D['trivial'] + len(D['res'])
        r['trivial'] = D['trivial']
        kinds = {}
        for ob, stt, be in D['res']:
            kinds[ob[0]] = kinds.get(ob[0], 0) + 1
            if stt == 'ok':
                r['discharged'] += 1
                kk = 'backend:' + be
                kinds[kk] = kinds.get(kk, 0) + 1
            elif stt == 'fail':
                r['fails'].append({'kind': ob[0], 'name': ob[1], 'loc': ob[5], 'values': solve.values(E, be),
                                   'tainted': solve.tainted(E, ob)})
            elif stt == 'unknown':
                r['unknown'].append('%s: %s at %s' % (ob[0], ob[1], ob[5]))
        r['discharged'] += D['trivial']
        r['kinds'] = kinds
        r['names'] = sorted(set(ob[1] for ob in E.oblig if ob[0] == 'contract'))
        r['vac'] = [v for v in D['vac'] if v[1] == 'unsat']
        r['covers'] = len(D['vac'])
        if r['fails']:
            r['status'] = 'fail'
        elif r['unknown'] and r['status'] == 'ok':
            r['status'] = 'undecided'
        elif r['vac'] and r['status'] == 'ok':
            r['status'] = 'vacuous'
    except MemoryError:
        r['status'] = 'undecided'
        r['note'] = 'memory limit'
    except Exception as e:
        r['status'] = 'undecided'
        r['note'] = 'internal: ' + traceback.format_exc()[-1500:]
    r['wall'] = round(time.time() - t0, 2)
    with open(outpath, 'w') as f:
        json.dump(r, f)


def pool(tasks, n, limit):
    """tasks: list of (key, fn(outpath)); runs each in a forked child."""
    todo = list(tasks)
    live = {}
    res = {}
    while todo or live:
        while todo and len(live) < n:
            key, fn, out = todo.pop(0)
            pid = os.fork()
            if pid == 0:
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                    fn(out)
                finally:
                    os._exit(0)
            live[pid] = (key, out, time.time())
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02)
            for p, (key, out, t) in list(live.items()):
                if time.time() - t > limit:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except OSError:
                        pass
            continue
        if pid in live:
            key, out, t = live.pop(pid)
            try:
                res[key] = json.load(open(out))
            except Exception:
                res[key] = None
    return res


def run_native(exe, args, tmo=60):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=44:detect_stack_use_after_return=0:allocator_may_return_null=1:detect_odr_violation=0',
               UBSAN_OPTIONS='halt_on_error=1:exitcode=45')
    try:
        p = subprocess.run([exe] + args, capture_output=True, text=True, timeout=tmo, env=env, errors='replace')
        out = p.stdout + p.stderr
        if '(pc 0x000000000000 ' in out:
            return 127, 'calls an external function that has no definition here\n' + out[-2000:]
        return p.returncode, out[-3000:]
    except subprocess.TimeoutExpired:
        return -999, 'timeout'


def known_findings():
    p = ROOT + '/known_findings.txt'
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                # finding: property=ID unit=U harness=H obligation=NAME :: description
                m = re.match(r'finding: property=(\S+) harness=(\S+) obligation="([^"]*)" :: (.*)', line)
                if m:
                    out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    rc = 2
    try:
        rc = check(prop, tier, seed, work, a, t0)
    finally:
        if a.keep:
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, seed, work, a, t0):
    dump = irdump()
    us = units_of(prop, tier)
    if not us:
        print('no contracts for', prop)
        return 2
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(build_ir, u, work, tier, dump) for u in us]
        err = []
        for u, f in zip(us, fs):
            try:
                f.result()
            except Exception as e:
                err.append('%s: %s' % (u.name, e))
    if err:
        print('BUILD-FAILED', *err, sep='\n')
        return 2
    build_s = time.time() - t0
    import engine
    import solve
    tasks = []
    natives = []
    for u in us:
        mod = engine.Module(u.json)
        for h in u.harnesses:
            if a.only and not re.search(a.only, u.name + ':' + h[2:]):
                continue
            nat = opts_for(u, h, tier).get('native', 0)
            if nat:
                natives.append((u, {'harness': h, 'unit': u.name, 'note': 'bounded by choice: native randomised run of the same contract'}, nat))
                continue
            out = os.path.join(work, '%s-%s.json' % (u.name, h))
            heavy = opts_for(u, h, tier).get('weight', 0)
            tasks.append((-heavy, (u.name, h), (lambda o, m=mod, u=u, h=h: run_harness(m, u, h, tier, o)), out, u))
    tasks.sort(key=lambda t: t[0])
    lim = 420 if tier == 'quick' else 7000
    res = pool([t[1:4] for t in tasks], a.jobs, lim)
    ub = {u.name: u for u in us}
    kf = known_findings()
    viol = []
    undec = []
    bounded = []
    known = []
    tot = {'obligations': 0, 'discharged': 0, 'trivial': 0, 'solver_s': 0.0, 'queries': 0, 'insts': 0}
    kinds = {}
    subs = set()
    names = []
    per = []
    rep_dir = os.path.join(ROOT, 'evidence', prop + '.replay')
    shutil.rmtree(rep_dir, ignore_errors=True)
    for key, r in sorted(res.items()):
        u = ub[key[0]]
        if r is None:
            r = {'unit': key[0], 'harness': key[1], 'status': 'undecided', 'note': 'worker killed (time or memory)', 'fails': [],
                 'unknown': [], 'bounded': [], 'obligations': 0, 'discharged': 0}
        for k in tot:
            tot[k] += r.get(k, 0) or 0
        for k, v in r.get('kinds', {}).items():
            kinds[k] = kinds.get(k, 0) + v
        subs.update(r.get('subs', []))
        names += ['%s/%s: %s' % (r['unit'], r['harness'][2:], n) for n in r.get('names', [])]
        bounded += ['%s/%s: loop %s' % (r['unit'], r['harness'][2:], b) for b in r['bounded']]
        per.append({k: r.get(k) for k in ('unit', 'harness', 'status', 'obligations', 'discharged', 'vc_s', 'solver_s', 'wall', 'note') if r.get(k) not in (None, '')})
        if a.v:
            print('%-40s %-10s ob=%d/%d triv=%s vc=%ss solver=%ss insts=%s feas=%s %s %s' % (
                r['unit'] + ':' + r['harness'][2:], r['status'], r['discharged'], r['obligations'], r.get('trivial'), r.get('vc_s'),
                r.get('solver_s'), r.get('insts'), r.get('feas'), r.get('note', ''), r.get('vac') or ''))
            for x in r['unknown']:
                print('    unknown', x)
            for x in r['bounded']:
                print('    bounded', x)
            for x in r['fails']:
                print('    FAIL', x['kind'], x['name'], x['loc'])
        spurious = 0
        for f in r['fails']:
            hn = '%s:%s' % (r['unit'], r['harness'][2:])
            k = [x for x in kf if x[0] == prop and x[1] == hn and x[2] == f['name']]
            if k:
                known.append((k[0], f))
                continue
            os.makedirs(rep_dir, exist_ok=True)
            rp = os.path.join(rep_dir, '%s-%s-%d.txt' % (r['unit'], r['harness'][2:], len(viol)))
            conf = None
            out = ''
            vf = os.path.join(work, 'values.txt')
            open(vf, 'w').write('\n'.join(f['values']) + '\n')
            try:
                exe = build_native(u, tier)
                code, out = run_native(exe, [r['harness'][2:], vf])
                # an assumption failing at the recorded point, or success, does not confirm
                conf = code not in (0, 77, 78, 2, 127, -999)
                if code == -999 and 'loop' in f['name']:
                    conf = True
            except Exception as e:
                out = 'native build failed: %s' % e
                code = None
            if not conf and f['tainted']:
                spurious += 1
                r['note'] = (r.get('note') or '') + ' obligation "%s" depends on abstracted floating point' % f['name']
                continue
            with open(rp, 'w') as fo:
                fo.write('property: %s\nunit: %s\nharness: %s\nfailed obligation: [%s] %s\nlocation: %s\nnative replay: exit %s (%s)\nreplay with: '
                         'run %s under vcg/run.py --only; native values below\n---- native output\n%s\n---- values\n%s\n' % (
                             prop, r['unit'], r['harness'], f['kind'], f['name'], f['loc'], code,
                             'confirmed' if conf else 'not confirmed', r['harness'], out, '\n'.join(f['values'])))
            viol.append((rp, conf, f, hn))
        if r['status'] in ('undecided', 'vacuous') or (spurious and not any(v[3] == r['unit'] + ':' + r['harness'][2:] for v in viol)):
            undec.append((u, r))
    # bounded stand-in for what could not be decided
    fb = []
    nb = []
    for u, r, tries in [(u, r, 0) for u, r in undec] + natives:
        why = r.get('note') or (not tries and r['unknown'][:1] or ['vacuous: %s' % r.get('vac')])[0]
        e = {'harness': r['unit'] + ':' + r['harness'][2:], 'why': why}
        try:
            exe = build_native(u, tier)
            tf = os.path.join(work, 'trace-%s.txt' % r['harness'])
            n = tries if tries else 20000
            if tier != 'quick':
                n *= 20
            code, out = run_native(exe, [r['harness'][2:], '--random', str(seed), str(n), tf], 60 if tier == 'quick' else 900)
            e['bounded random'] = out.strip().splitlines()[-1][:200] if out.strip() else ''
            if code not in (0, -999, 2, 77, 78, 127):
                os.makedirs(rep_dir, exist_ok=True)
                rp = os.path.join(rep_dir, '%s-%s-random.txt' % (r['unit'], r['harness'][2:]))
                vals = open(tf).read() if os.path.exists(tf) else ''
                nm = (re.findall(r'(CONTRACT-FAILED .*|CHECK-FAILED.*|runtime error: .*|ERROR: AddressSanitizer: \S+.*)', out) or ['exit %s' % code])[0]
                f = {'kind': 'bounded', 'name': nm}
                hn = r['unit'] + ':' + r['harness'][2:]
                k = [x for x in kf if x[0] == prop and x[1] == hn]
                if not k:
                    open(rp, 'w').write('property: %s\nharness: %s\nbounded random run: exit %s\n%s\n---- values\n%s\n' % (prop, r['harness'], code, out, vals))
                    viol.append((rp, True, f, hn))
        except Exception as ex:
            e['bounded random'] = 'not built: %s' % str(ex)[:300]
        (nb if tries else fb).append(e)
    for k, f in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    for rp, conf, f, hn in viol:
        print('failed obligation: [%s] %s in %s' % (f['kind'], f['name'], hn))
    for rp, conf, f, hn in sorted(viol, key=lambda v: not v[1]):
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if conf else ' no-failing-input-found'))
        if not a.v:
            break
    for e in nb:
        print('BOUNDED %s: %s' % (e['harness'], e.get('bounded random', '')))
    for e in fb:
        print('UNDECIDED %s (%s); bounded run: %s' % (e['harness'], str(e['why'])[:300], e.get('bounded random', '')))
    m = [x for u in us for x in u.meta.get('assume', [])]
    fnames = demangle(sorted(subs))
    level = (us[0].meta.get('level') or ['proof'])[0]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'explanation': ('Obligations generated from the real code and discharged for every value within the sizes stated under '
                            'assumptions; loops are unrolled to those sizes, so this is bounded, not proved for all sizes.'
                            if level == 'other' else 'Obligations generated from the real code and discharged by the back ends.'),
            'obligations': tot['obligations'], 'discharged': tot['discharged'],
            'checker_cmd': 'python3-vt /verif/vcg/run.py %s --tier %s' % (prop, tier),
            'trusted_base': ['clang 18 front end and the listed LLVM clean-up passes', 'vcg/ (IR semantics, VC generator, simplifier)',
                             'z3 %s (bit-blasting SAT)' % solve.z3.get_version_string(), 'cvc5 1.1.2 (second back end)',
                             'shim/ (absl stand-ins: locks as sequential contracts, formatting dropped)'],
            'back_ends': {k[8:]: v for k, v in kinds.items() if k.startswith('backend:')},
            'by_simplifier': tot['trivial'],
            'obligation_kinds': {k: v for k, v in kinds.items() if not k.startswith('backend:')},
            'solver_s': round(tot['solver_s'], 1), 'solver_queries': tot['queries'], 'ir_instructions_executed': tot['insts'],
            'functions_under_contract': fnames,
            'contract_clauses': names,
            'harnesses': per,
            'bounded_loops': bounded,
            'undecided': fb,
            'bounded_checks_not_counted_as_proved': nb,
            'known_findings': [k[0][3] for k in known],
        },
        'assumptions': m + STD_ASSUME,
        'wall_s': round(time.time() - t0, 1), 'violations': len(viol),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d harnesses, %d undecided, build %.1fs, solver %.1fs, wall %.1fs' % (
        prop, tot['obligations'], tot['discharged'], len(res), len(undec), build_s, tot['solver_s'], time.time() - t0))
    return 1 if viol else 0


STD_ASSUME = [
    'sequential execution: every call runs to completion without interference (lock discipline is checked as an obligation where the code uses a lock)',
    'x86-64 Linux data layout as compiled by clang; the shipped binary is built by another compiler from the same source',
    'distinct objects have distinct concrete addresses chosen by the verifier (pointer-value arithmetic on them is not universally quantified unless the harness passes a symbolic address)',
]


def demangle(l):
    if not l:
        return []
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(l), capture_output=True, text=True)
        return sorted(set(x for x in p.stdout.splitlines() if 'tcmalloc' in x and 'FormatConvert' not in x))
    except Exception:
        return l


if __name__ == '__main__':
    main()
