"""Decide one property on /repo's working tree.

1. deductive part: `run.py --prove <id>` generates the proof obligations of the contracts of this property from the
   current source of /repo and discharges them (pyvc);
2. bounded part: NPARTS workers evaluate the bounded contracts (vlib/cases_*.py) on the real code, each with its own
   hash seed, its own scratch directory and its own share of the generated inputs;
3. the results are merged into evidence/<id>.json and one verdict.

Outcomes: a concrete failing input -> VIOLATION; an obligation refuted by the solver without any failing input found ->
VIOLATION ... no-failing-input-found; everything else (undecided obligations, errors of the harness) is reported in the
evidence and on stdout, never as a violation."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import env

KNOWN = os.path.join(env.VERIF, 'known_findings.jsonl')


def known_findings(prop):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    res.append(d)
    return res


def matches(v, finding):
    if finding.get('case') and finding['case'] != v.get('case'):
        return False
    if 'args' in finding and finding['args'] != v.get('args'):
        return False
    if 'obligation' in finding and finding['obligation'] != v.get('obligation'):
        return False
    return 'case' in finding or 'obligation' in finding


DEEPER = 200   # seconds


def spawn(args, part, scratch, log, **env_):
    d = os.path.join(scratch, 's%s' % part)
    os.makedirs(d)
    e = dict(os.environ)
    e['VERIF_SCRATCH'] = d
    e.update(env_)
    e['PYTHONHASHSEED'] = str((int(e.get('VERIF_SEED', '1')) * 131 + (part if isinstance(part, int) else 997 + sum(map(ord, part))))
                              % 4294967295)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['TMPDIR'] = d
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        e[k] = '1'
    return subprocess.Popen([env.PYTHON, os.path.join(env.VERIF, 'run.py')] + args, cwd=d, env=e,
                            stdout=open(log, 'w'), stderr=subprocess.STDOUT, start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()


def collect(procs, limit, t0):
    for _, _, p in procs:
        try:
            p.wait(max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            stop(p)
    results = []
    for part, out, p in procs:
        try:
            r = json.load(open(out))
        except Exception as e:
            tail = open(out + '.log').read()[-600:]
            r = dict(crash='no result (exit %s) %s %s' % (p.returncode, e, tail))
        results.append((part, r))
    return results


def search_deeper(prop, results):
    """no failing input is known, and an obligation is refuted, undecided or missing"""
    open_obligation = False
    for part, r in results:
        if part == 'prove':
            open_obligation |= 'crash' in r or any(o['status'] != 'proved' for o in r['obligations'])
        known = known_findings(prop)
        if any(not any(matches(v, f) for f in known) for v in r.get('violations', [])):
            return False
    return open_obligation


def decide(prop):
    from .main import NPARTS, MODULES, PROOFS, LEVELS
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    budget = 100 if tier == 'quick' else 1500
    limit = (400 if tier == 'quick' else 3000)
    procs = []
    try:
        if prop in PROOFS:
            out = os.path.join(scratch, 'prove.json')
            procs.append(('prove', out, spawn(['--prove', prop, out], 'p', scratch, out + '.log')))
        if prop in MODULES:
            for part in range(NPARTS):
                out = os.path.join(scratch, 'w%d.json' % part)
                procs.append((part, out, spawn(['--worker', prop, str(part), str(NPARTS), str(budget), out],
                                               part, scratch, out + '.log')))
        results = collect(procs, limit, t0)
        if tier == 'quick' and search_deeper(prop, results):
            # an obligation is not discharged and nothing fails: a longer search of a failing input, with the generators
            # of the thorough tier and other seeds
            more = []
            for k in range(8):
                out = os.path.join(scratch, 'x%d.json' % k)
                more.append(('x%d' % k, out, spawn(['--worker', prop, str(k), '8', str(DEEPER), out], 'x%d' % k, scratch,
                                                   out + '.log', VERIF_TIER='thorough', VERIF_SEED=str(seed + 1000))))
            procs += more
            results += [(part, r) for part, r in collect(more, DEEPER + 60, time.time()) if 'crash' not in r]
        return conclude(prop, tier, seed, t0, results, LEVELS.get(prop, 'exploration'))
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                stop(p)
            else:
                try:
                    os.killpg(p.pid, 9)   # whatever it left running
                except OSError:
                    pass
        shutil.rmtree(scratch, True)


def conclude(prop, tier, seed, t0, results, level):
    from .main import NOTES
    ev, distinct, trivial = 0, 0, 0
    violations, errors, samples, per_case = [], [], [], {}
    out_of_time = False
    proof = None
    for part, r in results:
        if part == 'prove':
            proof = r
            if 'crash' in r:
                errors.append(['prove', r['crash'][-800:]])
            continue
        if 'crash' in r:
            errors.append(['worker %s' % part, r['crash'][-800:]])
            continue
        ev += r['evaluations']
        distinct += r['distinct']
        trivial += r['trivial']
        violations += r['violations']
        errors += r['errors']
        samples += r['samples']
        out_of_time |= r['out_of_time']
        for k, (a, b) in r['per_case'].items():
            c = per_case.setdefault(k, [0, 0])
            c[0] += a
            c[1] += b
    obligations = discharged = 0
    refuted, undecided = [], []
    cov = {}
    assumptions = []
    if proof is not None and 'crash' not in proof:
        for o in proof['obligations']:
            obligations += 1
            if o['status'] == 'proved':
                discharged += 1
            elif o['status'] == 'refuted':
                refuted.append(o)
            else:
                undecided.append(o)
        if obligations == 0:
            errors.append(['prove', 'no obligation was generated'])
        violations += proof.get('violations', [])   # counterexamples replayed on the real code
        assumptions = proof.get('assumptions', [])
        cov.update(obligations=obligations, discharged=discharged,
                   checker_cmd='%s %s/run.py %s' % (env.PYTHON, env.VERIF, prop),
                   trusted_base=proof.get('trusted', []),
                   functions_under_contract=proof.get('functions', []),
                   backends=proof.get('backends', {}), solver_s=round(proof.get('solver_s', 0), 2),
                   obligations_list=[dict(name=o['name'], status=o['status'], backend=o.get('backend'),
                                          paths=o.get('paths'), queries=o.get('queries'),
                                          solver_s=round(o.get('solver_s', 0), 3)) for o in proof['obligations']],
                   undecided=[dict(name=o['name'], reason=o.get('reason')) for o in undecided])
    if per_case:
        cov.update(evaluations=ev, distinct_nontrivial=distinct, trivial=trivial,
                   rule='bounded contracts on the real code: every case builds its input from a generated recipe, runs '
                        'the real functions of /repo and compares with the reference semantics; a case is non-trivial '
                        'when its preconditions hold and it compared at least one result; counted once per '
                        'distinct (case, arguments)',
                   samples=samples[:6], cases={k: dict(evaluations=a, distinct=b) for k, (a, b) in
                                               sorted(per_case.items())},
                   stopped_by_time_budget=out_of_time)
    if errors:
        cov['harness_errors'] = [str(e)[:600] for e in errors[:10]]

    known = known_findings(prop)
    reported, suppressed = [], []
    for v in violations:
        k = [f for f in known if matches(v, f)]
        (suppressed if k else reported).append((v, k))
    for o in refuted:
        v = dict(obligation=o['name'], message=o.get('reason', ''), solver=o)
        k = [f for f in known if matches(v, f)]
        (suppressed if k else reported).append((v, k))
    for f in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))

    code = 0
    reported.sort(key=lambda x: 'obligation' in x[0])   # concrete inputs first
    for i, (v, _) in enumerate(reported[:3]):
        d = os.path.join(env.VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (prop, i))
        with open(path, 'w') as fp:
            json.dump(dict(property=prop, **v), fp, indent=1, default=str)
        what = v.get('message', '')
        print('%s: %s: %s' % (prop, v.get('case') or v.get('obligation'), str(what)[:500]))
        concrete = 'case' in v
        if not concrete and i > 0:
            continue
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if concrete else ' no-failing-input-found'))
        code = 1
    for o in undecided:
        print('UNDECIDED obligation %s: %s' % (o['name'], str(o.get('reason'))[:200]))
    for e in errors[:5]:
        print('HARNESS-ERROR %s' % str(e)[:400])
    if code == 0 and ev == 0 and discharged == 0:
        print('nothing could be decided')
        code = 2
    if level == 'other':
        cov['explanation'] = NOTES.get(prop, '')
    cov['deeper_search'] = any(isinstance(p, str) and p.startswith('x') for p, _ in results)
    evidence = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov or {'explanation': 'nothing ran'},
                    assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(reported))
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', prop + '.json'), 'w') as fp:
        json.dump(evidence, fp, indent=1, default=str)
    print('%s: %d/%d obligations discharged, %d bounded evaluations (%d distinct non-trivial), %.1f s' % (
        prop, discharged, obligations, ev, distinct, time.time() - t0))
    return code


def replay(path):
    v = json.load(open(path))
    if 'case' not in v:
        print('obligation %s: %s' % (v.get('obligation'), v.get('message')))
        print(json.dumps(v.get('solver'), indent=1))
        return 1
    env.setup()
    from . import core
    from .main import load
    load(v['property'])
    status, msg = core.run_case(v['case'], v['args'])
    print('%s %s: %s %s' % (v['property'], v['case'], status, msg))
    return 1 if status == 'violation' else 0
