#!/usr/bin/env python3-vt
# one.py IR.json HARNESS [k=v...]: run one harness in this process (debugging)
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vcg'))
sys.setrecursionlimit(100000)
import run, engine, json
class U: pass
u = U(); u.name = 'x'; u.meta = {'opt': ['.* ' + ' '.join(a for a in sys.argv[3:] if not a.startswith('stub:'))], 'stub': [a[5:].replace('=', ' ') for a in sys.argv[3:] if a.startswith('stub:')]}
run.run_harness(engine.Module(sys.argv[1]), u, sys.argv[2], 'quick', '/dev/stdout')
