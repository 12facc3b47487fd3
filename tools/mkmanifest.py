#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the contract files."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
have, level, assume = {}, {}, {}
for p in glob.glob(R + '/contracts/*.cc'):
    for l in open(p):
        m = re.match(r'//@ property: (\S+)', l)
        if m:
            have.setdefault(m.group(1), []).append(os.path.basename(p))
            cur = m.group(1)
        m = re.match(r'//@ level: (\S+)', l)
        if m:
            level[cur] = m.group(1)
        m = re.match(r'//@ assume: (.*)', l)
        if m:
            assume.setdefault(cur, []).append(m.group(1).strip())
na = json.load(open(R + '/tools/na.json'))
checks, nas = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt vcg/run.py %s --tier quick' % i,
            'thorough_cmd': 'python3-vt vcg/run.py %s --tier thorough' % i,
            'technique': 'deductive verification: C++ contracts compiled with the real sources to LLVM IR, verification conditions discharged by z3/cvc5; counterexamples replayed natively',
            'level': level.get(i, 'proof'),
            'level_note': na['notes'].get(i, 'Contracts in contracts/%s. %sEvidence lists functions, obligations, back ends, bounded loops and undecided harnesses.' % (', '.join(sorted(have[i])), ''.join('Scope: %s. ' % a for a in assume.get(i, [])))),
        })
    else:
        nas.append({'property': i, 'reason': na['reasons'].get(i, 'check not built yet')})
hooks = {'guard': 'TCMALLOC_INTERNAL_VERIFY',
         'enable': 'vcg/run.py compiles the /repo sources with -DTCMALLOC_INTERNAL_VERIFY and contracts/ (tcmalloc_invariants.h) on the include path',
         'source_commits': ['4055d9e285990cbb5b97cf06c4a29b2cb0ea7b54', 'b55ba573d7aa63fd218d6692149ba17a0db25beb', 'dd3b7b2c87883d034879f9a4f783ce8be198b6dd', 'ca7e5021d22b40718767af020208dcc098a0067c', 'acddb25e03b17852fff2684fb5857e6b19540833', 'ea9b90c50f7ab2179537363b49d6d55f4e25f3b2']}
man = {'version': 1, 'setup_cmd': 'python3-vt vcg/setup.py', 'checks': checks, 'not_applicable': nas, 'hooks': hooks,
       'notes': 'Everything is built per run in a temporary directory from /repo; build/ (git-ignored) only caches the IR serialiser.'}
json.dump(man, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(nas), 'not applicable')
