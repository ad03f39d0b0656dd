"""Registry and execution of the bounded cases.

A case is a function of JSON arguments which exercises the real code of /repo through its public interface and raises
Violation when the property does not hold for these arguments.  It returns False when the arguments were trivial."""
import hashlib
import json
import os
import random
import time
import traceback

from . import env

CASES = {}   # name -> function
PROP_OF = {}  # name -> property id
GENS = {}    # property id -> [generator]


class Violation(AssertionError):
    pass


class Skip(Exception):
    """the case cannot be evaluated (not a verdict)"""


def case(prop):
    def deco(f):
        CASES[f.__name__] = f
        PROP_OF[f.__name__] = prop
        return f
    return deco


def generator(prop):
    """decorates f(rng, tier) -> iterator of (case function, args tuple)"""
    def deco(f):
        GENS.setdefault(prop, []).append(f)
        return f
    return deco


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def equal(got, expected, what):
    if got != expected:
        raise Violation('%s: got %s, expected %s' % (what, short(got), short(expected)))


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


def raises(f, exc=Exception):
    try:
        f()
    except exc:
        return True
    return False


def run_case(name, args):
    """-> (status, message): status in ok, trivial, violation, error"""
    f = CASES[name]
    try:
        r = f(*args)
        return ('trivial' if r is False else 'ok'), ''
    except Violation as e:
        return 'violation', str(e)
    except Skip as e:
        return 'trivial', str(e)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # an unexpected exception
        tb = traceback.extract_tb(e.__traceback__)
        repo = os.path.abspath(env.REPO) + os.sep
        in_repo = [t for t in tb if os.path.abspath(t.filename).startswith(repo)]
        msg = '%s: %s' % (e.__class__.__name__, str(e)[:300])
        if in_repo:
            t = in_repo[-1]
            return 'violation', 'unexpected %s (at %s:%d)' % (msg, os.path.relpath(t.filename, env.REPO), t.lineno)
        return 'error', msg + '\n' + ''.join(traceback.format_list(tb[-3:]))


def guarded(g, rng, tier, res):
    """the inputs of the generator; an error of the generator itself is recorded and ends it"""
    try:
        yield from g(rng, tier)
    except Exception:
        res['errors'].append([g.__name__, [], traceback.format_exc()[-600:]])


REPEAT = 25   # seconds


def run_generators(prop, seed, tier, part, nparts, budget_s, max_violations=3):
    t0 = time.time()
    res = dict(evaluations=0, distinct=0, trivial=0, violations=[], errors=[], samples=[], per_case={},
               out_of_time=False)
    seen = set()
    gens = GENS.get(prop, [])
    for turn in range(1000):
        # several turns, with other seeds, until REPEAT seconds: the inputs already seen are not run again
        if turn and (time.time() - t0 > min(REPEAT, budget_s) or res['evaluations'] == before):
            break
        before = res['evaluations']
        for gi, g in enumerate(gens):
            rng = random.Random('%s/%s/%d/%d' % (seed, prop, gi, part) + ('/%d' % turn if turn else ''))
            rng.part, rng.nparts = part, nparts
            slot = budget_s * (gi + 1) / len(gens) if not turn else min(REPEAT, budget_s)
            for f, args in guarded(g, rng, tier, res):
                if time.time() - t0 > slot:
                    res['out_of_time'] |= not turn
                    break
                name = f.__name__
                args = json.loads(json.dumps(args))
                h = hashlib.md5(json.dumps([name, args]).encode()).digest()
                if turn and h in seen:
                    continue
                status, msg = run_case(name, args)
                res['evaluations'] += 1
                c = res['per_case'].setdefault(name, [0, 0])
                c[0] += 1
                if status == 'trivial':
                    res['trivial'] += 1
                    if turn == 0:
                        seen.add(h)
                elif status == 'error':
                    if len(res['errors']) < 5:
                        res['errors'].append([name, args, msg])
                elif h not in seen:
                    seen.add(h)
                    res['distinct'] += 1
                    c[1] += 1
                    if len(res['samples']) < 3 and rng.random() < 0.05:
                        res['samples'].append({'case': name, 'args': args})
                if status == 'violation':
                    res['violations'].append(dict(case=name, args=args, message=msg))
                    if len(res['violations']) >= max_violations:
                        res['wall_s'] = time.time() - t0
                        return res
    res['wall_s'] = time.time() - t0
    return res
