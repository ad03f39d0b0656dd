#!/opt/venv/bin/python
"""prove.py P22 [name]: discharge the contracts of a property and print the obligations (development tool)"""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
env.setup(); env.add_solvers()
import importlib
prop = sys.argv[1]
importlib.import_module('contracts.' + prop.lower())
from pyvc import verify
for c in verify.CONTRACTS[prop]:
    if len(sys.argv) > 2 and sys.argv[2] not in c.name:
        continue
    t = time.time()
    v = verify.run_contract(c)
    print('== %s (%s) %d paths, %d queries, solver %.1fs, %.1fs' % (c.name, c.target, v.npaths, v.stats.queries, v.stats.solver_s, time.time() - t))
    for o in v.obligations.values():
        print('  %-10s %s  paths=%d q=%d %.2fs %s %s' % (o.status, o.name, o.paths, o.queries, o.solver_s, dict(o.backends), o.reason[:int(os.environ.get('W', 500))]))
    if os.environ.get('F'): print('  functions', sorted(v.functions)); print('  assumptions', sorted(v.assumptions))
