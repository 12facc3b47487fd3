"""Create and confirm a planted bug: seed(id, property, file, [(old,new)...], demo_cc, needs, breaks, srcs=[...])."""
import json, os, shutil, subprocess, sys
WT = '/tmp/seedwt'
DEMO_SH = '''#!/bin/bash
# exit 0: the property held; run with cwd at the repository root.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
clang++ -std=c++17 -g -O1 -w -D__restrict= -D__restrict__= %(flags)s -I"$d/inc" -I"$PWD" "$d/demo.cc" "$d/inc/rt.cc" %(srcs)s -o "$t/demo" \\
  -labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_hash_set -labsl_time -labsl_time_zone -labsl_strings -labsl_strings_internal -labsl_int128 -labsl_spinlock_wait -labsl_base -labsl_raw_logging_internal -labsl_throw_delegate -labsl_bad_optional_access -labsl_status -labsl_cord -lpthread || exit 4
cd "$t" && timeout 120 ./demo
'''
RT = '''// Stand-ins for the failure handlers and the logger.
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include "tcmalloc/internal/logging.h"
#include "tcmalloc/internal/allocation_guard.h"
#include <stdint.h>
#define WEAK __attribute__((weak))
extern "C" WEAK void __v_lock_error(const char* what) { fprintf(stderr, "%s\\n", what); _exit(43); }
extern "C" WEAK int __v_snprintf(char* b, size_t n) { if (n > 0) b[0] = 0; return 0; }
WEAK uint64_t __v_hash(const uint64_t* w, size_t n) {
  uint64_t h = 0x9e3779b97f4a7c15ull;
  for (size_t i = 0; i < n; i++) h = (h ^ w[i]) * 0xff51afd7ed558ccdull, h ^= h >> 32;
  return h;
}
namespace tcmalloc {
namespace tcmalloc_internal {
WEAK void CheckFailed(const char* file, int line, const char* msg, int) {
  fprintf(stderr, "CHECK-FAILED %s:%d %s\\n", file, line, msg);
  _exit(43);
}
WEAK void CrashWithOOM(size_t) { _exit(43); }
WEAK thread_local int AllocationGuard::disallowed_ = 0;
static void no_log(const char*, int) {}
WEAK void (*log_message_writer)(const char* msg, int length) = no_log;
}  // namespace tcmalloc_internal
WEAK bool MallocHook::AddNewHook(void (*)(const MallocHook::NewInfo&)) { return true; }
WEAK bool MallocHook::RemoveNewHook(void (*)(const MallocHook::NewInfo&)) { return true; }
}  // namespace tcmalloc
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prep():
    if not os.path.isdir(WT):
        sh('cp -a /repo %s' % WT)
    sh('git checkout -q -- . && git clean -fdq', cwd=WT)
    h = sh('git -C /repo rev-parse HEAD').stdout.strip()
    if sh('git rev-parse HEAD', cwd=WT).stdout.strip() != h:
        sh('git fetch -q /repo && git checkout -q %s' % h, cwd=WT)
def demo(d):
    # away from /verif, without patch.diff and meta.json
    t = '/tmp/seeddemo'
    shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    for f in ('patch.diff', 'meta.json'):
        p = os.path.join(t, f)
        if os.path.exists(p): os.unlink(p)
    r = sh('bash %s/demo.sh' % t, cwd=WT)
    shutil.rmtree(t)
    return r.returncode, r.stdout
def seed(id, prop, edits, demo_cc, needs, breaks, srcs=(), flags='', test=True):
    d = '/verif/seeded/' + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree('/verif/shim', d + '/inc')
    open(d + '/inc/rt.cc', 'w').write(RT)
    open(d + '/demo.cc', 'w').write(demo_cc)
    open(d + '/demo.sh', 'w').write(DEMO_SH % {'srcs': ' '.join('"$PWD/%s"' % s for s in srcs), 'flags': flags})
    prep()
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    c0, o0 = demo(d)
    if c0 != 0:
        print(id, 'FAIL: demo on clean tree exits', c0, o0[:1500]); return False
    for f, old, new in edits:
        p = os.path.join(WT, f); s = open(p).read()
        if s.count(old) != 1:
            print(id, 'FAIL: %d matches of %r' % (s.count(old), old)); return False
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', cwd=WT).stdout
    open(d + '/patch.diff', 'w').write(diff)
    c1, o1 = demo(d)
    if c1 == 0 or c1 == 4 or c1 == 3:
        print(id, 'FAIL: demo on changed tree exits', c1, o1[:1500]); return False
    if test and not tests():
        print(id, 'FAIL: tests'); return False
    prep()
    print(id, 'ok: demo %d ->' % c0, c1, o1[-200:].strip())
    return True
def tests():
    # same build, in the scratch copy
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = base['stable']
    if not os.path.exists('/tmp/seedvp'):
        shutil.copytree('/opt/vp', '/tmp/seedvp')
        for f in ('build.sh', 'test.sh'):
            p = '/tmp/seedvp/' + f; s = open(p).read()
            open(p, 'w').write(s.replace('/repo', WT).replace('/opt/vp/build.sh', '/tmp/seedvp/build.sh'))
        sh('rm -rf %s/_build' % WT)
    r = sh('bash /tmp/seedvp/test.sh /tmp/seedvp/out.json')
    try: got = json.load(open('/tmp/seedvp/out.json'))
    except Exception: print(r.stdout[-2000:]); return False
    miss = [w for w in want if w not in got['passed']]
    if miss: print('missing', miss[:5], '')
    return not miss
