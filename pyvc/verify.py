"""Contracts and the discharge of their obligations.

A contract is a python function `spec(v)` where v is a `Verifier`: it declares the symbolic arguments and the preconditions,
runs the real function (all its paths) and states the postconditions as named obligations:

    @contract('P01', 'ieml.dictionary.script.script:Script.__lt__')
    def spec(v):
        def path(it):                       # run once per path
            a, b = it.fresh('a', SCRIPT), it.fresh('b', SCRIPT)
            r = v.call(it, a, b)            # Outcome: .value or .exc
            v.ensure('name', formula)       # proved under the condition of the path
        v.paths(path)
"""
import subprocess
import tempfile
import time
import os
import traceback

import z3

from . import sym
from .sym import Ctx, Stats, Unsupported, Raised, Infeasible, SBool, Sym
from .interp import Interp

CONTRACTS = {}   # property -> [Contract]
CVC5 = '/opt/veriftools/bin/cvc5'


class Contract:
    def __init__(self, prop, target, f, kw):
        self.prop, self.target, self.f, self.kw = prop, target, f, kw
        self.name = kw.get('name') or target.split(':')[-1]


def contract(prop, target, **kw):
    def deco(f):
        CONTRACTS.setdefault(prop, []).append(Contract(prop, target, f, kw))
        return f
    return deco


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raises(self, *cls):
        return self.exc is not None and issubclass(self.exc.cls, cls)


class Obligation:
    def __init__(self, name):
        self.name = name
        self.status = 'proved'
        self.paths = self.queries = 0
        self.solver_s = 0.0
        self.backends = {}
        self.reason = ''
        self.alive = False

    def worst(self, status, reason):
        order = ['proved', 'undecided', 'refuted']
        if order.index(status) > order.index(self.status):
            self.status, self.reason = status, reason


class Verifier:
    def __init__(self, c, timeout_s=15, total_s=240):
        self.c = c
        self.timeout = timeout_s
        self.deadline = time.time() + total_s
        self.obligations = {}
        self.stats = Stats()
        self.assumptions, self.functions, self.trusted = set(), set(), set()
        self.covers = {}
        self.npaths = 0
        self.ctx = None
        self.contracts = {}
        self.violations = []   # concrete failing inputs

    # ---- declared by the specification
    def resolve(self, target=None):
        import importlib
        mod, q = (target or self.c.target).split(':')
        o = importlib.import_module(mod)
        cls = None
        for part in q.split('.'):
            cls, o = o, (o.__dict__[part] if isinstance(o, type) and part in o.__dict__ else getattr(o, part))
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            o = o.fget
        if hasattr(o, '_factory'):
            o = o._factory
        return o

    def use(self, target, f, assumed=None):
        """contract of a callee: f(interp, args, kwargs) -> value"""
        self.contracts[target] = f
        if assumed:
            self.assumptions.add('%s: %s' % (target, assumed))

    def trust(self, text):
        self.trusted.add(text)

    def assume_note(self, text):
        self.assumptions.add(text)

    def paths(self, path, axioms=(), lifts=(), prefix=''):
        self.prefix = prefix
        ctx = self.ctx = Ctx(axioms, self.stats, self.deadline)
        ctx.contracts = dict(self.contracts)
        count = [0]

        def one_path():
            it = Interp(ctx, lifts)
            self.it = it
            self.on_path = set()
            path(it)
            count[0] += 1
            self.check_alive()
        try:
            ctx.explore(one_path)
        except Unsupported as e:
            self.undecided('paths' if not prefix else prefix + 'paths', 'outside of the subset: %s' % e)
        except RecursionError as e:
            self.undecided(prefix + 'paths', 'recursion')
        self.npaths += count[0]
        self.functions |= ctx.used
        self.assumptions |= ctx.assumed
        if not count[0]:
            self.undecided(prefix + 'paths', 'no feasible path: vacuous precondition')

    def call(self, it, *args, target=None, **kwargs):
        f = self.resolve(target)
        try:
            if isinstance(f, type):
                return Outcome(value=it.instantiate(f, list(args), kwargs))
            g = it.ifunc(f)
            it.ctx.used.add(g.key)
            return Outcome(value=it.call_ifunc(g, list(args), kwargs))
        except Raised as r:
            return Outcome(exc=r.exc)

    def call_value(self, it, f, *args, **kwargs):
        try:
            return Outcome(value=it.call(f, list(args), kwargs))
        except Raised as r:
            return Outcome(exc=r.exc)

    # ---- obligations
    def ob(self, name):
        name = '%s: %s%s' % (self.c.name, getattr(self, 'prefix', ''), name)
        if name not in self.obligations:
            self.obligations[name] = Obligation(name)
        return self.obligations[name]

    def undecided(self, name, why):
        self.ob(name).worst('undecided', why)

    def declare(self, *names):
        """obligations which must be generated on some path (else they are undecided: vacuous)"""
        for n in names:
            self.covers.setdefault('%s: %s%s' % (self.c.name, getattr(self, 'prefix', ''), n), 0)

    def ensure(self, name, formula, hint=(), dead_ok=False, strong=None):
        """the formula holds at the end of this path; dead_ok: the path may always be contradictory; strong: a formula which
        implies it, tried first"""
        o = self.ob(name)
        o.alive |= dead_ok
        o.paths += 1
        self.on_path.add(o.name)
        self.covers[o.name] = self.covers.get(o.name, 0) + 1
        if isinstance(formula, SBool):
            formula = formula.z
        if isinstance(formula, bool):
            formula = z3.BoolVal(formula)
        if o.status == 'refuted':
            return False
        status = 'undecided'
        if strong is not None:
            status, why = self.prove(strong, o, hint)
        if status != 'proved':
            status, why = self.prove(formula, o, hint)
        taints = self.ctx.taints_of(formula) if status == 'refuted' else ()
        if taints:
            status, why = 'undecided', 'counter-model with abstracted values (%s): %s' % (
                ', '.join(sorted(taints)), why[:800])
        if status != 'proved':
            o.worst(status, why)
        elif z3.is_false(formula):
            raise Infeasible()     # the path is contradictory: nothing follows
        return status == 'proved'

    def lemma(self, name, formula, hint=()):
        """proved here, then used by what follows on this path"""
        self.ensure(name, formula, hint)
        self.ctx.assume(formula)

    def fail(self, name, why):
        """this path must not be reachable"""
        self.ensure(name, z3.BoolVal(False))

    def prove(self, goal, o, hint=()):
        ctx = self.ctx
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            o.backends['simplify'] = o.backends.get('simplify', 0) + 1
            return 'proved', ''
        if time.time() > self.deadline:
            return 'undecided', 'time limit of the contract'
        plain = [f for f in list(ctx.axioms) + ctx.pc + list(hint) if not quantified(f)]
        if len(plain) < len(ctx.axioms) + len(ctx.pc) + len(hint):
            # first without the quantified facts
            s = z3.Solver()
            s.set('timeout', 300)
            for f in plain:
                s.add(f)
            s.add(z3.Not(goal))
            t = time.time()
            r = s.check()
            dt = time.time() - t
            self.stats.add('z3', dt)
            o.queries += 1
            o.solver_s += dt
            if r == z3.unsat:
                o.backends['z3'] = o.backends.get('z3', 0) + 1
                return 'proved', ''
        easy = [f for f in list(ctx.axioms) + ctx.pc + list(hint) if not sym.nonlinear(f)]
        if len(easy) < len(ctx.axioms) + len(ctx.pc) + len(hint) and not sym.nonlinear(goal):
            # first without the facts about products of numbers
            s = z3.Solver()
            s.set('timeout', 3000)
            for f in easy:
                s.add(f)
            s.add(z3.Not(goal))
            t = time.time()
            r = s.check()
            dt = time.time() - t
            self.stats.add('z3', dt)
            o.queries += 1
            o.solver_s += dt
            if r == z3.unsat:
                o.backends['z3'] = o.backends.get('z3', 0) + 1
                return 'proved', ''
        s = z3.Solver()
        quick = self.c.kw.get('z3_first')       # seconds given to z3 before cvc5
        s.set('timeout', int((quick or self.timeout) * 1000))
        for a in ctx.axioms:
            s.add(a)
        for f in ctx.pc:
            s.add(f)
        for h in hint:
            s.add(h)
        s.add(z3.Not(goal))
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.stats.add('z3', dt)
        o.queries += 1
        o.solver_s += dt
        if r == z3.unsat:
            o.backends['z3'] = o.backends.get('z3', 0) + 1
            return 'proved', ''
        if r == z3.sat:
            return 'refuted', self.describe(s.model(), goal)
        t = time.time()
        r2 = cvc5(s, self.timeout)
        dt = time.time() - t
        self.stats.add('cvc5', dt)
        o.queries += 1
        o.solver_s += dt
        if r2 == 'unsat':
            o.backends['cvc5'] = o.backends.get('cvc5', 0) + 1
            return 'proved', ''
        if quick:
            s.set('timeout', int(self.timeout * 1000))
            r = s.check()
            if r == z3.unsat:
                o.backends['z3'] = o.backends.get('z3', 0) + 1
                return 'proved', ''
            if r == z3.sat:
                return 'refuted', self.describe(s.model(), goal)
        return 'undecided', 'z3: unknown (%s), cvc5: %s' % (s.reason_unknown(), r2)

    def describe(self, m, goal):
        try:
            vs = []
            for d in sorted(m.decls(), key=lambda d: d.name()):
                if d.arity() == 0:
                    vs.append('%s = %s' % (d.name(), str(m[d])[:80]))
            return 'not %s with %s' % (str(goal)[:300], '; '.join(vs)[:1500])
        except Exception as e:
            return 'counter-model (%s)' % e

    def check_alive(self):
        """vacuity: every obligation needs a path whose condition is not contradictory"""
        dead = [n for n in self.on_path if not self.obligations[n].alive]
        if not dead:
            return
        s = z3.Solver()
        s.set('timeout', 700)
        for a in list(self.ctx.axioms) + self.ctx.pc:
            s.add(a)
        t = time.time()
        r = s.check()
        self.stats.add('z3', time.time() - t)
        if r != z3.unsat:
            for n in dead:
                self.obligations[n].alive = True

    def cover(self, name):
        """reachability: this point must be satisfiable on some path (checked at the end)"""
        o = 'cover ' + name
        if self.covers.get(o):
            return
        s = z3.Solver()
        s.set('timeout', 5000)
        for a in self.ctx.axioms:
            s.add(a)
        for f in self.ctx.pc:
            s.add(f)
        r = s.check()
        self.covers[o] = 1 if r != z3.unsat else 0

    def result(self):
        for o in self.obligations.values():
            if o.status == 'proved' and not o.alive:
                o.worst('undecided', 'vacuous: only proved on contradictory paths')
        for n, k in self.covers.items():
            if k == 0:
                if n in self.obligations:
                    self.obligations[n].worst('undecided', 'never generated')
                else:
                    o = self.obligations[n] = Obligation(n if ':' in n else self.c.name + ': ' + n)
                    o.worst('undecided', 'not reachable: vacuous contract')
        return self


QUANTIFIED = {}    # identifier of a term -> (the term, kept alive, answer)


def quantified(f):
    k = f.get_id()
    r = QUANTIFIED.get(k)
    if r is None:
        stack, seen, ans = [f], set(), False
        while stack and not ans:
            t = stack.pop()
            if t.get_id() not in seen:
                seen.add(t.get_id())
                ans = z3.is_quantifier(t)
                stack += t.children()
        r = QUANTIFIED[k] = (f, ans)
    return r[1]


def cvc5(solver, timeout):
    text = solver.to_smt2()
    text = '(set-logic ALL)\n' + '\n'.join(l for l in text.splitlines() if not l.startswith('(set-info'))
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fp:
        fp.write(text)
    try:
        exe = CVC5 if os.path.exists(CVC5) else 'cvc5'
        p = subprocess.run([exe, '--tlimit=%d' % int(timeout * 1000), '--strings-exp', fp.name], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout + 10)
        out = p.stdout.decode(errors='replace').strip().splitlines()
        if out and out[0] in ('sat', 'unsat', 'unknown'):
            return out[0]
        return 'error ' + (p.stderr.decode(errors='replace') + ' '.join(out))[:120]
    except subprocess.TimeoutExpired:
        return 'timeout'
    except OSError as e:
        return 'absent (%s)' % e
    finally:
        os.unlink(fp.name)


def run_contract(c):
    v = Verifier(c, timeout_s=c.kw.get('timeout', 10), total_s=c.kw.get('total', 200))
    try:
        c.f(v)
    except Unsupported as e:
        v.undecided('contract', 'outside of the subset: %s' % e)
    except Infeasible:
        v.undecided('contract', 'infeasible')
    except Exception as e:
        v.undecided('contract', 'error of the verifier: %s' % traceback.format_exc()[-700:])
    return v.result()


def _finite(self, name, bad, n):
    """a finite domain checked completely by running the real code; bad: a failing input or None"""
    o = self.ob(name)
    o.paths += n
    o.alive = True
    o.backends['enumeration'] = o.backends.get('enumeration', 0) + 1
    self.npaths += 1
    if bad is not None:
        o.worst('refuted', 'fails on %s' % (bad,))


Verifier.finite = _finite
