"""debug: run groups of one property in-process"""
import sys, importlib, time
sys.path.insert(0, '/verif')
from vf.contract import *
m = importlib.import_module('contracts.' + sys.argv[1])
import os
root = os.environ.get('VF_ROOT', '/repo')
for g in m.GROUPS:
    if len(sys.argv) > 2 and not any(a in g.name for a in sys.argv[2:]): continue
    c = Ctx(root); t = time.time()
    g.fn(c); c.flush()
    bad = [o for o in c.obligations if o.status != 'discharged']
    print(f'== {g.name}: {len(c.obligations)} obligations, {len(bad)} bad, paths {c.paths}, {time.time()-t:.1f}s solver {c.solver_time:.1f}')
    for o in bad[:int(os.environ.get('NB','6'))]:
        print('  ', o.status, o.name, o.detail[:int(os.environ.get('ND','1500'))])
