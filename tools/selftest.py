#!/opt/venv/bin/python
"""Soundness test of the engine: runs the functions of snippets.py on a symbolic list, then, with the list fixed to given numbers, asks
for a proof that the result is NOT the one of Python. Such a proof is a mistake of the engine. selftest.py [name ...]"""
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
from vlib import env
env.setup()
env.add_solvers()
import inspect
import multiprocessing
import z3
import snippets
from contracts.common import *
from pyvc import verify

from pyvc import interp
in_repo = interp.in_repo
interp.in_repo = lambda f: in_repo(f) or getattr(f, '__module__', '') == 'snippets'

LISTS = [[], [1], [3], [2, 1], [3, 3], [1, 2, 3], [2, 0, 2], [3, 1, 2, 1]]


def lift(it, x):
    if isinstance(x, list):
        return VList([one(lift(it, y)) for y in x], epoch=0)
    if isinstance(x, tuple):
        return tuple(lift(it, y) for y in x)
    return x


def elements(p, k):
    """(condition, value) of the elements of a part, in order, whose variables are between 0 and k"""
    out = [(p.guard, p.value)]
    for x in p.vars:
        out = [(z3.substitute(g, (x, z3.IntVal(i))), v_subst(v, [(x, z3.IntVal(i))])) for i in range(k) for g, v in out]
    return out


def equal(it, r, want):
    """formula: the value is the one of Python; the lists of numbers have the same elements, as many times"""
    if isinstance(r, VList) and isinstance(want, list) and all(type(x) in (int, bool) for x in want):
        el = [(g, it.as_sym(x).z) for p in r.parts for g, x in elements(p, 6)]
        if any(not x.sort() == z3.IntSort() for _, x in el):
            raise Unsupported('not numbers')
        n = z3.Sum([z3.If(g, 1, 0) for g, _ in el] or [z3.IntVal(0)])
        f = [n == len(want)]
        for y in set(want):
            f.append(z3.Sum([z3.If(z3.And(g, x == int(y)), 1, 0) for g, x in el] or [z3.IntVal(0)]) == want.count(y))
        if len(r.parts) == 1 and r.parts[0].n is not None:
            f += [z3.substitute(it.as_sym(r.parts[0].value).z, (r.parts[0].vars[0], z3.IntVal(i))) == y for i, y in enumerate(want)]
        return z3.And(f)
    if isinstance(r, SStr) and isinstance(want, str):
        # the texts joined are written out
        z, subs = r.z, []
        todo = [z]
        while todo:
            e = todo.pop()
            todo += e.children()
            if str(e) in it.opaques and it.opaques[str(e)][0] == "join ''":
                p, = it.opaques[str(e)][1]
                subs.append((e, z3.Concat([z3.StringVal('')] + [z3.If(g, zstr(x), z3.StringVal('')) for g, x in elements(p, 6)])))
        return z3.substitute(z, *subs) == z3.StringVal(want)
    return zbool(it, it.eq(r, lift(it, want)))


def run(name):
    f = getattr(snippets, name)
    bad, proved, und = [], 0, []
    for xs in LISTS:
        want = f(list(xs))
        st = []

        def spec(v):
            def path(it):
                l = it.fresh('l', T.Seq(T.Int))
                p = l.parts[0]
                it.ctx.assume(p.n == len(xs))
                for k, x in enumerate(xs):
                    it.ctx.assume(l.at(z3.IntVal(k)) == x)
                r = v.call(it, l)
                if not r.ok:
                    v.ensure('wrong', True)
                    v.ensure('right', False)
                    return
                e = equal(it, r.value, want)
                v.ensure('wrong', z3.Not(e), dead_ok=True)
                v.ensure('right', e, dead_ok=True)
            v.paths(path)
        v = verify.run_contract(verify.Contract('X', 'snippets:' + name, spec, dict(timeout=4, total=40)))
        o = {k.split(': ')[-1]: x for k, x in v.obligations.items()}
        if any(x.status == 'undecided' for k, x in o.items() if k not in ('wrong', 'right')) or not o:
            und.append([x.reason for x in o.values() if x.reason][:1])
        elif o['wrong'].status == 'proved' or o['right'].status == 'refuted':
            bad.append((xs, want, o['wrong'].status, o['right'].status, o['right'].reason[:200]))
        elif o['right'].status == 'proved':
            proved += 1
        else:
            und.append(o['right'].reason[:60])
    return name, bad, proved, und


if __name__ == '__main__':
    names = sys.argv[1:] or [n for n, f in vars(snippets).items() if inspect.isfunction(f) and list(inspect.signature(f).parameters) == ['xs']]
    wrong = 0
    with multiprocessing.Pool(7) as pool:
        for n, bad, proved, und in pool.imap_unordered(run, names):
            if bad:
                wrong += 1
            print('%-20s %s proved %d/%d %s' % (n, ('UNSOUND %s' if any(b[2] == 'proved' for b in bad) else 'FALSE ALARM %s') % bad if bad else 'ok', proved, len(LISTS), str(und[0])[:90] if und else ''), flush=True)
    print('%d functions, %d unsound' % (len(names), wrong))
    sys.exit(1 if wrong else 0)
