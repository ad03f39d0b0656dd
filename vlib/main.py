import json
import os
import subprocess
import sys
import time
import traceback

from . import env

MODULES = {}
for _p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08'):
    MODULES[_p] = 'cases_script'
for _p in ('P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15'):
    MODULES[_p] = 'cases_usl'
for _p in ('P16', 'P17', 'P22'):
    MODULES[_p] = 'cases_dict'
for _p in ('P18', 'P19', 'P20', 'P21', 'P23'):
    MODULES[_p] = 'cases_db'
NPARTS = 6
PROOFS = {f[:-3].upper() for f in os.listdir(os.path.join(env.VERIF, 'contracts'))
          if f.startswith('p') and f[1:3].isdigit() and f.endswith('.py')}   # properties with a deductive part
from .levels import LEVELS, NOTES


def load(prop):
    import importlib
    return importlib.import_module('vlib.' + MODULES[prop])


def worker(prop, part, nparts, budget, out):
    os.nice(10)   # the solvers first
    env.setup()
    from . import core
    err = open(os.devnull, 'w')
    keep = sys.stderr
    sys.stderr = err
    try:
        load(prop)
        r = core.run_generators(prop, int(os.environ.get('VERIF_SEED', '1')), os.environ.get('VERIF_TIER', 'quick'),
                                part, nparts, budget)
    except BaseException as e:
        r = dict(crash=traceback.format_exc())
    finally:
        sys.stderr = keep
    with open(out, 'w') as fp:
        json.dump(r, fp)
    return 0


def prove(prop, out):
    """generates and discharges the obligations of the contracts of the property, one process per contract"""
    env.setup()
    env.add_solvers()
    keep, sys.stderr = sys.stderr, open(os.devnull, 'w')
    try:
        import importlib
        import multiprocessing
        importlib.import_module('contracts.' + prop.lower())
        from pyvc import verify
        cs = verify.CONTRACTS[prop]
        with multiprocessing.get_context('fork').Pool(min(len(cs), 6), maxtasksperchild=1) as pool:
            rs = pool.map(prove_one, [(prop, i) for i in range(len(cs))], chunksize=1)
        res = dict(obligations=[], violations=[], assumptions=[], trusted=[], functions=[], backends={}, solver_s=0,
                   paths=0)
        for r in rs:
            for k in ('obligations', 'violations', 'assumptions', 'trusted', 'functions'):
                res[k] += [x for x in r[k] if x not in res[k]]
            res['solver_s'] += r['solver_s']
            res['paths'] += r['paths']
            for b, n in r['backends'].items():
                res['backends'][b] = res['backends'].get(b, 0) + n
        for k in ('assumptions', 'trusted', 'functions'):
            res[k].sort()
    except BaseException as e:
        res = dict(crash=traceback.format_exc())
    finally:
        sys.stderr = keep
    with open(out, 'w') as fp:
        json.dump(res, fp)
    return 0


def prove_one(arg):
    from pyvc import verify
    prop, i = arg
    c = verify.CONTRACTS[prop][i]
    v = verify.run_contract(c)
    backends = {}
    obs = []
    for o in v.obligations.values():
        for b, n in o.backends.items():
            backends[b] = backends.get(b, 0) + n
        obs.append(dict(name=o.name, status=o.status, backend='+'.join(sorted(o.backends)), paths=o.paths,
                        queries=o.queries, solver_s=o.solver_s, reason=o.reason, target=c.target))
    return dict(obligations=obs, violations=v.violations, assumptions=sorted(v.assumptions), trusted=sorted(v.trusted),
                functions=sorted(v.functions | {c.target}), backends=backends, solver_s=v.stats.solver_s, paths=v.npaths)


def main(argv):
    if argv[0] == '--prove':
        return prove(argv[1], argv[2])
    if argv[0] == '--worker':
        return worker(argv[1], int(argv[2]), int(argv[3]), float(argv[4]), argv[5])
    from . import decide
    if argv[0] == '--replay':
        return decide.replay(argv[1])
    return decide.decide(argv[0])
