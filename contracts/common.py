"""Types of the symbolic objects and helpers shared by the contracts."""
import inspect

import z3

from pyvc.sym import (T, ObjType, SInt, SBool, SStr, SKey, SRef, VList, VSet, VDict, HObj, Part, one, indexed, conj, forall,
                      exists, rename, v_subst, Ref, Raised, ExcVal, Unsupported)
from pyvc.verify import contract
from pyvc.interp import Stub, Bound, IFunc


def bind(f, args, kwargs):
    """arguments of a call by name"""
    b = inspect.signature(f).bind(*args, **kwargs)
    b.apply_defaults()
    return b.arguments


def zint(x):
    return x.z if isinstance(x, SInt) else z3.IntVal(x)


def zstr(x):
    return x.z if isinstance(x, SStr) else z3.StringVal(x)


# ------------------------------------------------------------------ scripts

from ieml.dictionary.script import Script, NullScript, AdditiveScript, MultiplicativeScript   # noqa

SCR = 'ieml.dictionary.script.script:'


def script_inv(z):
    """facts established by the constructors (P02, P03, NullScript) about every script, and by P05"""
    t = SCRIPT
    return [t.z('layer', z) >= 0, t.z('cardinal', z) >= 1, t.len('singular_sequences', z) == t.z('cardinal', z),
            t.z('paradigm', z) == (t.z('cardinal', z) > 1)]


SCRIPT = ObjType('Script', [NullScript, AdditiveScript, MultiplicativeScript],
                 dict(_str=T.Key, layer=T.Int, cardinal=T.Int, canonical=T.Key, empty=T.Bool, paradigm=T.Bool,
                      script_class=T.Int, grammatical_class=T.Int), key='_str', inv=script_inv)
SCRIPT.attrs.update(children=T.Seq(SCRIPT), singular_sequences=T.Seq(SCRIPT), singular_sequences_set=T.Set(SCRIPT))
SCRIPT.set_of = {'singular_sequences_set': 'singular_sequences'}   # proved in P06
NULL_TAG, ADD_TAG, MUL_TAG = 0, 1, 2


def script_order(v):
    """Script.__lt__ by its contract (P01)"""
    def lt(it, args, kwargs):
        a, b = args
        if isinstance(b, SRef) and b.typ is SCRIPT:
            return SBool(it.type_lt(SCRIPT)(a.z, b.z))
        if isinstance(b, Script):
            return SBool(it.type_lt(SCRIPT)(a.z, it.lift(b, SCRIPT).z))
        return NotImplemented
    v.use(SCR + 'Script.__lt__', lt)


LIFT_SCRIPT = [(Script, SCRIPT)]


class LazySpec:
    """stub class of objects of the environment of a function (dictionary, repository...) given by a contract"""


def stub_obj(it, name, **attrs):
    o = HObj(type(name, (LazySpec,), {}), epoch=it.ctx.epoch)
    o.attrs.update(attrs)
    return o


def bag(l):
    """the elements of a list, before it was sorted (sorting permutes them)"""
    src = getattr(l, 'sorted_from', None)
    return VList(src) if src else l


def members(it, l, x):
    """x is an element of the list"""
    return it.member(l if isinstance(l, (VList, VSet)) else it.listy(l), x)


def at(l, i):
    """element of an indexed list"""
    if l.concrete:
        raise Unsupported('at')
    p = l.parts[0]
    if len(l.parts) != 1 or p.n is None:
        raise Unsupported('not an indexed list')
    return v_subst(p.value, [(p.vars[0], i)])


def strictly_sorted(it, l):
    """formula: each element is before the ones which follow it, in the order of scripts"""
    lt = it.type_lt(SCRIPT)
    if l.concrete:
        zs = [it.as_sym(x).z for x in l.items()]
        return conj([lt(x, y) for k, x in enumerate(zs) for y in zs[k + 1:]])
    i, j = z3.Int(it.ctx.name('si')), z3.Int(it.ctx.name('sj'))
    n = l.parts[0].n
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), lt(at(l, i).z, at(l, j).z)))


def for_elements(it, l, f):
    """formula: f holds for every element"""
    r = []
    for p in l.parts:
        q = rename(it.ctx, p)
        r.append(forall(q.vars, q.guard, f(q.value)))
    return conj(r)


def some_element(it, l, f):
    r = []
    for p in l.parts:
        q = rename(it.ctx, p)
        r.append(exists(q.vars, z3.And(q.guard, f(q.value))))
    return z3.Or(r) if r else z3.BoolVal(False)


def zsum(it, l, f):
    """sum of f over the elements; sorting does not change it"""
    parts = getattr(l, 'sorted_from', None) or l.parts
    tot, many = z3.IntVal(0), []
    for p in parts:
        if not p.vars and z3.is_true(p.guard):
            tot = tot + f(it.as_sym(p.value))
        else:
            many.append(Part(p.vars, p.guard, SInt(f(p.value)), p.n))
    if many:
        tot = tot + it.opaque('sum', many, z3.IntSort())
    return tot


def length(it, l):
    n = it.length(l)
    return z3.IntVal(n) if isinstance(n, int) else n.z


def zbool(it, v):
    z = it.truth_z(v)
    return z3.BoolVal(z) if isinstance(z, bool) else z


def same(it, a, b):
    """formula: two values are the same (references and numbers)"""
    if isinstance(a, SRef) and isinstance(b, SRef):
        return a.z == b.z
    return zbool(it, it.eq(a, b))


def invariant(v, it, state, name):
    """loop invariant of the loops which carry, from an iteration to the next, one object of the type of state(i): its value
    after i iterations, and numbers which grow by a constant. Returns the list of numbers of iterations of the loops met: the
    caller shows that it is the one expected."""
    import ast
    from pyvc.loops import assigned_names
    counts = []

    def carried(s, env, target):
        names = [n for n in assigned_names(s.body) if n in env.vars and n not in target]
        typ = state(z3.IntVal(0)).typ
        objs = [n for n in names if isinstance(env.vars[n], SRef) and env.vars[n].typ is typ]
        nums = [n for n in names if isinstance(env.vars[n], (int, SInt)) and not isinstance(env.vars[n], bool)]
        if len(objs) != 1:
            return None
        steps = {}
        for n in nums:
            incs = [x for x in ast.walk(ast.Module(s.body, [])) if n in assigned_names([x]) and isinstance(x, ast.stmt)]
            x = incs[0]
            if len(incs) != 1 or incs[0] not in s.body or not (isinstance(x, ast.AugAssign) and isinstance(x.value, ast.Constant) and
                                                              isinstance(x.value.value, int) and
                                                              isinstance(x.op, (ast.Add, ast.Sub))):
                return None
            steps[n] = x.value.value if isinstance(x.op, ast.Add) else -x.value.value
        zint = lambda x: x.z if isinstance(x, SInt) else z3.IntVal(x)
        start = {n: zint(env.vars[n]) for n in nums}
        return lambda i: {objs[0]: state(i), **{n: SInt(start[n] + steps[n] * i) for n in nums}}

    def simple(s):
        if any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for x in ast.walk(ast.Module(s.body, []))):
            raise Unsupported('exit of a loop with an invariant')

    def iteration(st, s, env, i, assume, vars_):
        saved = dict(env.vars)

        def body():
            env.vars.update(st(i))
            it.ctx.assume(assume())
            it.block(s.body, env)
            for x, val in st(i + 1).items():
                v.ensure('%s: kept by an iteration' % name, same(it, env.vars[x], val))
        hooks = it.loop_hook, it.while_hook
        it.loop_hook = it.while_hook = None
        try:
            out = it.ctx.sub(body, vars_)
        finally:
            it.loop_hook, it.while_hook = hooks
            env.vars = saved
        if any(eff for _, _, eff in out):
            raise Unsupported('effects in a loop with an invariant')

    def enter(st, env):
        for x, val in st(z3.IntVal(0)).items():
            v.ensure('%s: before the loop' % name, same(it, env.vars[x], val))

    def for_(it, s, env, q, ordered):
        if q.n is None or not isinstance(s.target, ast.Name):
            return False
        st = carried(s, env, {s.target.id})
        if st is None:
            return False
        simple(s)
        enter(st, env)

        def assume():
            it.assign(s.target, q.value, env)
            return q.guard
        iteration(st, s, env, q.vars[0], assume, q.vars)
        env.vars.update(st(q.n))
        counts.append(q.n)
        return True

    def while_(it, s, env):
        st = carried(s, env, set())
        if st is None:
            return False
        simple(s)
        enter(st, env)

        def test(i):
            saved = dict(env.vars)
            env.vars.update(st(i))
            try:
                return it.as_sym(it.ev(s.test, env)).z
            finally:
                env.vars = saved
        i = z3.Int(it.ctx.name('iteration'))
        iteration(st, s, env, i, lambda: z3.And(i >= 0, test(i)), [i])
        # the test holds before each iteration, and not after the last one (termination is not shown)
        n = z3.Int(it.ctx.name('iterations'))
        it.ctx.assume(z3.And(n >= 0, z3.Not(test(n)), z3.Implies(n > 0, test(n - 1))))
        env.vars.update(st(n))
        it.block(s.orelse, env)
        counts.append(n)
        return True
    it.loop_hook, it.while_hook = for_, while_
    return counts


def need(cond, why):
    """a fact about how the code is written which the contract relies on: not a property, so undecided when it fails"""
    if not cond:
        raise Unsupported(why)


def same_elems(it, a, b):
    """formula: two sequences have the same elements in the same order"""
    if a is b:
        return z3.BoolVal(True)
    a, b = it.to_seq(a), it.to_seq(b)
    a, b = VList(a.parts), VList(b.parts)
    if max(len(a.parts), len(b.parts)) > 1 and not (a.concrete and b.concrete):
        x, y = segments(it, a), segments(it, b)
        if x is not None and y is not None:
            (n, f), (m, g) = x, y
            i = z3.Int(it.ctx.name('e'))
            return z3.And(n == m, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), f(i) == g(i))))
    return zbool(it, it.eq(a, b))


def segments(it, l):
    """(length, function index -> element) of a list made of pieces, of references of one sort"""
    pieces, n = [], z3.IntVal(0)
    for p in l.parts:
        if not p.vars and z3.is_true(p.guard):
            x = it.as_sym(p.value)
            if not isinstance(x, (SRef, SInt)):
                return None
            pieces.append((n, z3.IntVal(1), lambda i, x=x: x.z))
            n = z3.simplify(n + 1)
        elif p.n is not None and isinstance(p.value, (SRef, SInt)):
            pieces.append((n, p.n, lambda i, p=p: z3.substitute(p.value.z, (p.vars[0], i))))
            n = z3.simplify(n + p.n)
        else:
            return None
    if not pieces:
        return None

    def f(i):
        r = pieces[-1][2](z3.simplify(i - pieces[-1][0]))
        for s, k, g in reversed(pieces[:-1]):
            r = z3.If(i < s + k, g(z3.simplify(i - s)), r)
        return r
    return n, f
