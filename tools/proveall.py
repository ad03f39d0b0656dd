#!/opt/venv/bin/python
"""proveall.py [P01 ...]: all the contracts, in parallel; prints what is not proved (development tool)"""
import glob, os, sys, time
from concurrent.futures import ProcessPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import env
env.setup(); env.add_solvers()
import importlib


def run(j):
    p, i = j
    importlib.import_module('contracts.' + p.lower())
    from pyvc import verify
    t = time.time()
    v = verify.run_contract(verify.CONTRACTS[p][i])
    return p, v.c.name, time.time() - t, len(v.obligations), ['%s %s %s' % (o.status, o.name, o.reason[:300]) for o in
                                                             v.obligations.values() if o.status != 'proved']


if __name__ == '__main__':
    props = sys.argv[1:] or sorted(os.path.basename(f)[:3].upper() for f in glob.glob(V + '/contracts/p[0-9]*.py'))
    jobs = []
    for p in props:
        importlib.import_module('contracts.' + p.lower())
        from pyvc import verify
        jobs += [(p, i) for i in range(len(verify.CONTRACTS[p]))]
    n = 0
    with ProcessPoolExecutor(7, max_tasks_per_child=1) as ex:
        for p, name, t, k, bad in ex.map(run, jobs):
            n += k
            if t > 20 or bad:
                print('%s %s %.1fs' % (p, name, t))
            for b in bad:
                print('    ' + b)
    print('%d contracts, %d obligations' % (len(jobs), n))
