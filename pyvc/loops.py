"""Loops and comprehensions over symbolic sequences.

A loop over an unbounded sequence is not unrolled: its body is executed once for an arbitrary element, all its paths are
collected, and the loop is replaced by its summary: the exits (raise, return, break) at the first element which takes them,
the elements accumulated in lists, sets and dictionaries, sums and products, counters (induction variables), and flags.
Anything else that is carried from one iteration to the next is outside the subset."""
import ast
import copy

import z3

from .sym import (Unsupported, Infeasible, Raised, ExcVal, Sym, SInt, SBool, SStr, SRef, Poison, Part, one, is_one, VList, VSet,
                  VDict, HObj, VIter, conj, forall, exists, z_subst, v_subst, rename, Ref)


def occurs(x, consts):
    """does any of the z3 constants occur in the value"""
    ids = {c.get_id() for c in consts}
    seen = set()

    def zocc(e):
        stack = [e]
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in ids:
                return True
            if z3.is_quantifier(t):
                stack.append(t.body())
            else:
                stack += t.children()
        return False

    def vocc(v):
        if isinstance(v, z3.ExprRef):
            return zocc(v)
        if isinstance(v, Sym):
            return zocc(v.z)
        if isinstance(v, (tuple, list)):
            return any(map(vocc, v))
        if isinstance(v, (VList, VSet, VDict)):
            return any(zocc(p.guard) or vocc(p.value) for p in v.parts)
        if isinstance(v, ExcVal):
            return vocc(v.args)
        if isinstance(v, HObj) and id(v) not in objs:
            objs.add(id(v))
            return any(map(vocc, v.attrs.values()))
        if type(v).__name__ == 'IFunc' and id(v) not in objs:
            objs.add(id(v))
            e = v.env
            while e is not None and id(e) not in objs:
                objs.add(id(e))
                if any(map(vocc, list(e.vars.values()))):
                    return True
                e = e.parent
            return any(map(vocc, v.defaults))
        if type(v).__name__ == 'Bound':
            return vocc(v.obj) or vocc(v.func)
        return False
    objs = set()
    return bool(ids) and vocc(x)


def split(conds):
    """(decisions, facts as (preceding decisions, fact)), without the first condition (the guard of the element)"""
    dec, facts = [], []
    for f, d in conds:
        if d:
            dec.append(f)
        else:
            facts.append((list(dec), f))
    return dec, facts


def emit_facts(ctx, q, outcomes):
    """facts met in the body hold for every element"""
    if not q.vars:
        return
    done = set()
    for conds, *_ in outcomes:
        dec, facts = split(conds)
        for before, f in facts:
            k = (tuple(x.get_id() for x in before), f.get_id())
            if k in done:
                continue
            done.add(k)
            if not occurs(f, q.vars):
                if not before:
                    ctx.assume(z3.Implies(exists(q.vars, q.guard), f) if q.n is None else z3.Implies(q.n > 0, f))
                continue
            if f.get_id() == q.guard.get_id():
                continue
            vs, g, f2 = unshifted(ctx, q.vars, conj([q.guard] + before), f)
            ctx.assume(forall(vs, g, f2))


def unshifted(ctx, vars, guard, f):
    """for all the values of the variables: the same, with x instead of x + c (so that the solver matches the terms)"""
    if len(vars) != 1 or vars[0].sort() != z3.IntSort():
        return vars, guard, f
    x = vars[0]
    stack, seen, cs = [f], set(), set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_add(t) and t.num_args() == 2:
            a, b = t.children()
            if b.eq(x) and z3.is_int_value(a):
                cs.add(a.as_long())
                continue
            if a.eq(x) and z3.is_int_value(b):
                cs.add(b.as_long())
                continue
        if t.eq(x):
            cs.add(0)
        stack += [t.body()] if z3.is_quantifier(t) else t.children()
    if len(cs) != 1 or cs == {0}:
        return vars, guard, f
    c = cs.pop()
    k = z3.Int(ctx.name('k'))
    return [k], z3.simplify(z_subst(guard, [(x, k - c)])), z3.simplify(z_subst(f, [(x, k - c)]))


def own(ctx, v):
    """the objects created by an iteration: there is one for each element, which the value, kept once, cannot tell apart"""
    if isinstance(v, HObj) and v.epoch > ctx.epoch:
        v.many = True
    elif isinstance(v, (tuple, list)):
        for x in v:
            own(ctx, x)
    elif isinstance(v, (VList, VSet, VDict)):
        for p in v._parts:
            own(ctx, p.value)
    return v


def comprehension(it, gens, elt, env):
    from .interp import Env
    parts, unordered = comp(it, gens, 0, elt, Env(env.func, env))
    r = VList(parts, epoch=it.ctx.epoch)
    r.unordered = unordered
    return r


def comp(it, gens, k, elt, env):
    if k == len(gens):
        return [one(it.ev(elt, env))], False
    g = gens[k]
    if g.is_async:
        raise Unsupported('async')
    seq = it.to_seq(it.ev(g.iter, env))
    out, unordered = [], seq.unordered
    for p in seq.parts:
        def body(value):
            it.assign(g.target, value, env)
            for c in g.ifs:
                if not it.truth(it.ev(c, env)):
                    return [], False
            return comp(it, gens, k + 1, elt, env)
        if is_one(p):
            ps, u = body(p.value)
            out += ps
            unordered |= u
            continue
        q = rename(it.ctx, p)
        outcomes = element(it, q, lambda: body(q.value))
        many = 0
        if len(outcomes) > 1 and q.n is not None and \
                all(not e and not u and len(ps) == 1 and is_one(ps[0]) for _, (_, (ps, u)), e in outcomes):
            m = by_case([(conds, ps[0].value) for conds, (_, (ps, u)), _ in outcomes])
            if m is not None:
                out.append(Part(q.vars, q.guard, m, q.n))
                continue
        for conds, (kind, val), effects in outcomes:
            if effects:
                raise Unsupported('side effect in a comprehension')
            ps, u = val
            unordered |= u
            dec, _ = split(conds)
            many += bool(ps)
            for r in ps:
                own(it.ctx, r.value)
                if len(outcomes) == 1 and not dec and is_one(r) and q.n is not None:
                    out.append(Part(q.vars, q.guard, r.value, q.n))
                else:
                    out.append(Part(q.vars + r.vars, conj([q.guard] + dec + ([] if z3.is_true(r.guard) else [r.guard])),
                                    r.value))
        unordered |= many > 1
    return out, unordered


def by_case(cases):
    """one value for the (conditions, value) which cover all the cases, or None"""
    vals = [a for _, a in cases]
    if not all(isinstance(a, (SRef, SInt, SBool)) for a in vals) or len({type(a) for a in vals}) > 1 or \
            isinstance(vals[0], SRef) and len({a.typ for a in vals}) > 1:
        return None
    z = vals[-1].z
    for conds, a in cases[:-1]:
        z = z3.If(conj(split(conds)[0]), a.z, z)
    return SRef(z, vals[0].typ) if isinstance(vals[0], SRef) else type(vals[0])(z)


def element(it, q, thunk):
    """outcomes of thunk for an arbitrary element of the part; exceptional ones are decided here"""
    ctx = it.ctx

    def run():
        ctx.assume(q.guard)
        it.touch_deep(q.value)
        try:
            return ('next', thunk())
        except Raised as r:
            return ('raise', r.exc)
    outcomes = ctx.sub(run, q.vars)
    emit_facts(ctx, q, outcomes)
    exits = [o for o in outcomes if o[1][0] == 'raise']
    nexts = [o for o in outcomes if o[1][0] == 'next']
    if exits:
        take_exit(it, q, exits, ordered=False)
    return nexts


def take_exit(it, q, exits, ordered):
    """fork: no element exits (returns None), or the first one which does (returns its index in exits)"""
    ctx = it.ctx
    conds = [conj(split(o[0])[0]) for o in exits]
    any_exit = z3.Or(conds) if len(conds) > 1 else conds[0]
    opts = [forall(q.vars, q.guard, z3.Not(any_exit))]
    for c in conds:
        f = [q.guard, c]
        if ordered:
            j = z3.Int(ctx.name('j'))
            f.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q.vars[0]),
                                               z3.Not(z_subst(any_exit, [(q.vars[0], j)])))))
        opts.append(conj(f))
    k, pairs = decide_exit(ctx, q, opts)
    if k == 0:
        return None
    o = exits[k - 1]
    for before, f in split(o[0])[1]:
        ctx.assume(z_subst(f, pairs))
    if pairs and o[1][0] == 'raise':
        raise Raised(exc_subst(o[1][1], pairs))
    if o[1][0] == 'raise':
        raise Raised(o[1][1])
    return k - 1


def decide_exit(ctx, q, opts):
    """fork between the options: 0, or one of an element (q.vars) which exits; -> option, substitution of q.vars by this element,
    a function of the element of the enclosing loop"""
    if not ctx.bound:
        return ctx.decide(opts), []
    k = ctx.decide([opts[0]] + [exists(q.vars, f) for f in opts[1:]])
    if k == 0:
        return 0, []
    pairs = [(x, ctx.fresh('w', x.sort())) for x in q.vars]
    ctx.assume(z_subst(opts[k], pairs))
    return k, pairs


def exc_subst(e, pairs):
    return ExcVal(e.cls, v_subst(tuple(e.args), pairs)) if occurs(tuple(e.args), [a for a, _ in pairs]) else e


def assigned_names(body):
    names = set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            if isinstance(n, ast.FunctionDef):
                names.add(n.name)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            walk(c)
    for s in body:
        walk(s)
    return names


def only_in_place(body, name, op):
    """all the assignments of the name are augmented assignments by the operator"""
    k = 0
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                if not isinstance(n.op, op):
                    return False
                k += 1
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id == name:
                k -= 1
    return k == 0


def loaded_names(body):
    return {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


class Locals(ast.NodeTransformer):
    """the attributes (name of the object, attribute) become local names"""
    def __init__(self, attrs):
        self.attrs = attrs

    def visit_Attribute(self, n):
        if isinstance(n.value, ast.Name) and (n.value.id, n.attr) in self.attrs:
            return ast.copy_location(ast.Name(id='%s.%s' % (n.value.id, n.attr), ctx=n.ctx), n)
        return self.generic_visit(n)


def attribute_accumulators(it, s, env):
    """the attributes of objects which the body of the loop assigns, under a name that it does not assign"""
    nodes = [n for x in s.body for n in ast.walk(x)]
    if any(isinstance(n, (ast.Lambda, ast.FunctionDef, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for n in nodes):
        return {}
    rebound = {n.id for n in nodes + list(ast.walk(s.target)) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
    res, owner = {}, {}
    for n in nodes:
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            if not isinstance(n.value, ast.Name) or n.value.id in rebound:
                return {}
            o = it.ev(ast.Name(id=n.value.id, ctx=ast.Load()), env)
            if not isinstance(o, HObj) or n.attr not in o.attrs or hasattr(o, 'on_set') or o.epoch < it.ctx.epoch or \
                    isinstance(it.mro_lookup(o.cls, n.attr)[1], property) or owner.setdefault((id(o), n.attr), n.value.id) != n.value.id:
                return {}
            res[n.value.id, n.attr] = o
    return res


def for_loop(it, s, env):
    from .interp import BreakX, ContinueX
    seq = it.to_seq(it.ev(s.iter, env))
    parts = list(seq.parts)
    if any(p.vars for p in parts):
        attrs = attribute_accumulators(it, s, env)
        if attrs:
            # the attributes are local names during the loop; nothing else may read or set them
            t = copy.copy(s)
            t.body = [Locals(attrs).visit(copy.deepcopy(x)) for x in s.body]
            t.orelse = []
            gone = Poison('an attribute that the loop assigns')
            for (n, a), o in attrs.items():
                env.vars['%s.%s' % (n, a)] = o.attrs[a]
                o.attrs[a] = gone
            broken = run_loop(it, t, env, seq, parts)     # after an exception or a return, the attributes are unknown
            for (n, a), o in attrs.items():
                if o.attrs[a] is not gone:
                    raise Unsupported('an attribute set in two ways in a loop')
                o.attrs[a] = env.vars.pop('%s.%s' % (n, a))
            if not broken:
                it.block(s.orelse, env)
            return
    run_loop(it, s, env, seq, parts)


def run_loop(it, s, env, seq, parts):
    """-> True if left by a break"""
    from .interp import BreakX, ContinueX
    try:
        for p in parts:
            if is_one(p):
                it.assign(s.target, p.value, env)
                try:
                    it.block(s.body, env)
                except ContinueX:
                    pass
            elif not p.vars:
                if it.ctx.branch(p.guard):
                    it.assign(s.target, p.value, env)
                    try:
                        it.block(s.body, env)
                    except ContinueX:
                        pass
            else:
                symbolic_loop(it, s, env, rename(it.ctx, p), ordered=not seq.unordered and p.n is not None)
    except BreakX:
        return True
    it.block(s.orelse, env)


def symbolic_loop(it, s, env, q, ordered):
    from .interp import BreakX, ContinueX, ReturnX
    ctx = it.ctx
    hook = it.loop_hook
    if hook is not None and hook(it, s, env, q, ordered):
        return
    saved = dict(env.vars)
    names = assigned_names(s.body) | assigned_names([ast.Assign([s.target], ast.Constant(None))])
    # l += ..., s |= ... change the object in place
    names -= {n for n in names if isinstance(saved.get(n), VSet) or isinstance(saved.get(n), VList) and saved[n].kind == 'list'
              if only_in_place(s.body, n, ast.BitOr if isinstance(saved[n], VSet) else ast.Add)}
    carried = [n for n in names if n in saved]
    loads = loaded_names(s.body)
    iters = {n: v for n, v in saved.items() if isinstance(v, VIter) and n in loads}
    for v in iters.values():
        if v.pos is None:
            raise Unsupported('consumed iterator')
    zint = lambda v: v.z if isinstance(v, SInt) else z3.IntVal(v)

    def run_pass(known):
        """known: name -> formula of the value at the iteration"""
        ph = {}
        for n in carried:
            v = saved[n]
            if n in known:
                ph[n] = SInt(known[n])
            elif isinstance(v, SInt) or isinstance(v, int) and not isinstance(v, bool):
                ph[n] = SInt(z3.Int(ctx.name('carry_' + n)))
            elif isinstance(v, (SStr, str)) or isinstance(v, bytes) and it.bytes_as_text:
                ph[n] = SStr(z3.String(ctx.name('carry_' + n)))
            else:
                ph[n] = Poison('a loop body reads the value of %s left by the previous iteration' % n)
        for n, v in iters.items():
            ph['iter ' + n] = SInt(known['iter ' + n]) if 'iter ' + n in known else SInt(z3.Int(ctx.name('pos_' + n)))
        pos0 = {n: v.pos for n, v in iters.items()}

        def run():
            env.vars = dict(saved)
            for n in carried:
                env.vars[n] = ph[n]
            for n, v in iters.items():
                v.pos = ph['iter ' + n]
                if 'iter ' + n not in known:
                    ctx.assume(v.pos.z >= 0)
            ctx.assume(q.guard)
            it.touch_deep(q.value)
            try:
                it.assign(s.target, q.value, env)
                try:
                    it.block(s.body, env)
                    kind, val = 'next', None
                except ContinueX:
                    kind, val = 'next', None
                except BreakX:
                    kind, val = 'break', None
                except ReturnX as r:
                    kind, val = 'return', r.value
                except Raised as r:
                    kind, val = 'raise', r.exc
                return kind, val, dict(env.vars), {n: v.pos for n, v in iters.items()}
            finally:
                for n, v in iters.items():
                    v.pos = pos0[n]
                env.vars = dict(saved)
        try:
            return ph, ctx.sub(run, q.vars)
        finally:
            env.vars = dict(saved)

    ph, outcomes = run_pass({})
    # induction variables: the same constant is added by every iteration which goes on
    known = {}
    num = [n for n in ph if isinstance(ph[n], SInt)]
    init = {n: zint(iters[n[5:]].pos) if n.startswith('iter ') else zint(saved[n]) for n in num}
    deltas = {}
    for n in num:
        ds = []
        for conds, (kind, val, vars_, pos), eff in outcomes:
            if kind != 'next':
                continue
            v = pos[n[5:]] if n.startswith('iter ') else vars_[n]
            if not (isinstance(v, SInt) or isinstance(v, int)):
                ds.append(None)
                continue
            ds.append(z3.simplify(zint(v) - ph[n].z))
        deltas[n] = ds
        if ds and all(d is not None and z3.is_int_value(d) for d in ds) and len({d.as_long() for d in ds}) == 1:
            c = ds[0].as_long()
            if c == 0:
                known[n] = init[n]
            elif ordered:
                known[n] = z3.simplify(init[n] + c * q.vars[0])
        elif not ds:
            known[n] = init[n]
    if known:
        ph, outcomes = run_pass(known)
        deltas = {n: [None if not isinstance(x, (SInt, int)) else z3.simplify(zint(x) - ph[n].z) for x in
                      [(o[1][3][n[5:]] if n.startswith('iter ') else o[1][2][n]) for o in outcomes if o[1][0] == 'next']]
                  for n in num}
    acc = [n for n in num if n not in known]
    texts = [n for n in ph if isinstance(ph[n], SStr)]
    marks = [ph[n].z for n in acc + texts]
    emit_facts(ctx, q, outcomes)
    exits = [o for o in outcomes if o[1][0] != 'next']
    nexts = [o for o in outcomes if o[1][0] == 'next']
    for n in acc:
        if n.startswith('iter '):
            raise Unsupported('an iterator is not advanced once per iteration')
    # the accumulators must not be read by the body
    for conds, (kind, val, vars_, pos), eff in outcomes:
        if occurs([c for c, _ in conds], marks) or occurs(val, marks) or any(occurs(a, marks) for _, _, a in eff):
            raise Unsupported('a loop body reads an accumulated number')
        for n, v in vars_.items():
            if n in texts and (v is ph[n] or appended(v, ph[n].z) is not None):
                v = appended(v, ph[n].z) if v is not ph[n] else None
            if n not in acc and n in saved and v is not saved[n] and occurs(v, marks):
                raise Unsupported('a loop body reads an accumulated number')

    def merged(effs):
        """every iteration appends exactly one element: its value, by cases"""
        if q.n is None or len(nexts) < 2 or len(effs) != len(nexts) or any(op != 'append' for _, op, _ in effs) or \
                {id(o) for o, _, _ in effs} != {id(o) for o in nexts}:
            return None
        return by_case([(o[0], a) for o, _, a in effs])

    def apply(limit):
        """the effects of the iterations before limit (all when None)"""
        def cond(o):
            dec = split(o[0])[0]
            g = [q.guard] + dec + ([q.vars[0] < limit] if limit is not None else [])
            return conj(g)
        # effects
        done = set()
        objs = {}
        for o in nexts:
            for obj, op, arg in o[2]:
                objs.setdefault(id(obj), (obj, []))[1].append((o, op, arg))
        for obj, effs in objs.values():
            m = merged(effs) if limit is None else None
            if m is not None:
                x = rename(ctx, Part(q.vars, q.guard, m, q.n))
                if ctx.effects is not None and obj.epoch < ctx.epoch:
                    ctx.effects.append((obj, 'extend', VList([x])))
                else:
                    obj.parts.append(x)
                obj.bag = None
                continue
            for o, op, arg in effs:
                own(ctx, arg)
                full = len(nexts) == 1 and not split(o[0])[0] and limit is None
                if op == 'append':
                    new = [Part(q.vars, q.guard, arg, q.n) if full and q.n is not None else Part(q.vars, cond(o), arg)]
                elif op == 'extend':
                    new = []
                    for r in arg.parts:
                        r = rename(ctx, r)
                        new.append(Part(q.vars + r.vars, z3.And(cond(o), r.guard), r.value))
                    if getattr(arg, 'unordered', False):
                        obj.unordered = True
                elif op == 'setitem':
                    new = [Part(q.vars, cond(o), arg)]
                    obj.may_repeat = True
                else:
                    raise Unsupported('effect %s' % op)
                new = [rename(ctx, x) for x in new]
                if ctx.effects is not None and obj.epoch < ctx.epoch:
                    for x in new:
                        ctx.effects.append((obj, 'extend', VList([x])))
                else:
                    obj.parts += new
            if isinstance(obj, VList):
                if len(effs) > 1:
                    obj.unordered = True
                obj.bag = None
        # numbers
        for n in acc:
            terms, prods = [], []
            for o, d in zip(nexts, deltas[n]):
                v = o[1][2][n]
                if d is not None and not occurs(d, marks):
                    if not (z3.is_int_value(d) and d.as_long() == 0):
                        terms.append(Part(q.vars, cond(o), SInt(d)))
                    continue
                f = factor_of(zint(v), ph[n].z) if isinstance(v, (SInt, int)) else None
                if f is None or occurs(f, marks):
                    env.vars[n] = Poison('value of %s after a loop' % n)
                    break
                prods.append(Part(q.vars, cond(o), SInt(f)))
            else:
                for ts in (terms, prods):
                    # the paths of the body cover every element: the same number on all of them
                    if not exits and limit is None and len(ts) == len(nexts) > 1 and all(t.value.z.eq(ts[0].value.z) for t in ts):
                        ts[:] = [Part(q.vars, q.guard, ts[0].value, q.n)]
                if terms and prods:
                    env.vars[n] = Poison('value of %s after a loop' % n)
                elif prods:
                    env.vars[n] = SInt(init[n] * it.opaque('prod', prods, z3.IntSort()))
                elif terms:
                    env.vars[n] = SInt(init[n] + it.opaque('sum', terms, z3.IntSort()))
        for n in texts:
            vals = [None if o[1][2][n] is ph[n] else appended(o[1][2][n], ph[n].z) for o in nexts]
            if not any(v is not None for v in vals) or any(v is None and o[1][2][n] is not ph[n] for v, o in zip(vals, nexts)):
                continue
            if limit is not None or q.n is None or exits:
                env.vars[n] = Poison('value of %s after a loop' % n)
                done.add(n)
                continue
            vals = [z3.StringVal('') if v is None else v.z for v in vals]
            z = vals[-1]
            for o, a in zip(nexts[:-1], vals):
                z = z3.If(conj(split(o[0])[0]), a, z)
            x = rename(ctx, Part(q.vars, q.guard, SStr(z), q.n))
            env.vars[n] = it.binop(ast.Add(), saved[n], SStr(it.opaque("join ''", [x], z3.StringSort())))
            done.add(n)
        for n in known:
            c = [z3.simplify(zint(o[1][3][n[5:]] if n.startswith('iter ') else o[1][2][n]) - ph[n].z) for o in nexts]
            c = c[0].as_long() if c else 0
            end = init[n] + c * (limit if limit is not None else q.n) if c else init[n]
            if n.startswith('iter '):
                iters[n[5:]].pos = SInt(z3.simplify(end))
            else:
                e = z3.simplify(end)
                env.vars[n] = e.as_long() if z3.is_int_value(e) else SInt(e)
        # flags and temporaries
        for n in carried:
            if n in known or n in acc or n in done:
                continue
            finals = [(o, o[1][2].get(n)) for o in nexts]
            setting = [(o, v) for o, v in finals if v is not ph[n]]
            if not setting:
                env.vars[n] = saved[n]
                continue
            vals = [v for _, v in setting]
            if all(isinstance(v, (bool, str, int, type(None))) for v in vals) and len({repr(v) for v in vals}) == 1:
                ex = z3.Or([exists(q.vars, cond(o)) for o, _ in setting])
                env.vars[n] = vals[0] if ctx.branch(ex) else saved[n]
            else:
                env.vars[n] = Poison('value of %s after a loop' % n)
        for n in names:
            if n not in saved:
                env.vars[n] = Poison('value of %s after a loop' % n)

    if exits:
        # exits which raise do so in take_exit; effects before them on objects that survive are applied first
        surviving = any(o[2] for o in nexts)
        k = None
        conds = [conj(split(o[0])[0]) for o in exits]
        any_exit = z3.Or(conds) if len(conds) > 1 else conds[0]
        opts = [forall(q.vars, q.guard, z3.Not(any_exit))]
        for c in conds:
            f = [q.guard, c]
            if ordered:
                j = z3.Int(ctx.name('j'))
                f.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q.vars[0]),
                                                   z3.Not(z_subst(any_exit, [(q.vars[0], j)])))))
            opts.append(conj(f))
        k, wit = decide_exit(ctx, q, opts)
        if k > 0:
            o = exits[k - 1]
            kind, val, vars_, pos = o[1]
            lim = q.vars[0]
            effs = o[2]
            if wit:
                lim = wit[0][1]
                val = exc_subst(val, wit) if kind == 'raise' else v_subst(val, wit)
                vars_ = {a: v_subst(b, wit) if occurs(b, q.vars) else b for a, b in vars_.items()}
                pos = {a: v_subst(b, wit) for a, b in pos.items()}
                effs = [(a, b, v_subst(c, wit)) for a, b, c in effs]
            for before, f in split(o[0])[1]:
                ctx.assume(z_subst(f, wit))
            if surviving or acc or kind == 'break':
                if not ordered:
                    if surviving or acc:
                        raise Unsupported('exit from a loop over an unordered sequence which accumulates')
                else:
                    q2 = rename(ctx, q)
                    pairs = list(zip(q.vars, q2.vars))
                    nexts[:] = [([(z_subst(f, pairs), d) for f, d in n_[0]],
                                 (n_[1][0], v_subst(n_[1][1], pairs), {a: v_subst(b, pairs) for a, b in n_[1][2].items()},
                                  {a: v_subst(b, pairs) for a, b in n_[1][3].items()}),
                                 [(a, b, v_subst(c, pairs)) for a, b, c in n_[2]]) for n_ in nexts]
                    for n in deltas:
                        deltas[n] = [None if d is None else z_subst(d, pairs) for d in deltas[n]]
                    phz = {n: ph[n] for n in ph}
                    old = q.vars
                    q.vars, q.guard, q.value = q2.vars, q2.guard, q2.value
                    for n in known:
                        ph[n] = SInt(z_subst(phz[n].z, pairs)) if isinstance(phz[n], SInt) else phz[n]
                    apply(lim)
                    # the last, partial, iteration
                    sub = [(ph[n].z, zint(env.vars[n])) for n in acc if not isinstance(env.vars[n], Poison)]
                    for n in names:
                        v = vars_.get(n)
                        if n in known or v is None and n not in vars_:
                            if n in vars_:
                                env.vars[n] = vars_[n]
                            continue
                        if v is ph.get(n):
                            continue
                        env.vars[n] = Poison('a text accumulated by a loop left early') if n in texts and occurs(v, marks) else \
                            v_subst(v, sub)
                    for n in iters:
                        iters[n].pos = pos[n]
            else:
                for n in names:
                    if n in vars_:
                        env.vars[n] = vars_[n]
                for n in iters:
                    iters[n].pos = pos[n]
            for obj, op, arg in effs:
                if obj.epoch < ctx.epoch:
                    ctx.effects.append((obj, op, arg))
                elif op == 'append':
                    obj.parts.append(one(arg))
                elif op == 'extend':
                    obj.parts += arg.parts
                else:
                    it.dict_set(obj, *arg)
            if kind == 'raise':
                raise Raised(val)
            if kind == 'return':
                raise ReturnX(val)
            raise BreakX()
    apply(None)


def factor_of(e, ph):
    """e == ph * f -> f"""
    e = z3.simplify(e)
    if e.get_id() == ph.get_id():
        return z3.IntVal(1)
    if z3.is_app_of(e, z3.Z3_OP_MUL):
        ch = e.children()
        k = [i for i, c in enumerate(ch) if c.get_id() == ph.get_id()]
        if len(k) == 1:
            rest = ch[:k[0]] + ch[k[0] + 1:]
            r = rest[0]
            for x in rest[1:]:
                r = r * x
            return r
    return None


def appended(v, ph):
    """v == ph + t -> t"""
    if not isinstance(v, SStr):
        return None
    def flat(e):
        return [y for x in e.children() for y in flat(x)] if e.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [e]
    l = flat(v.z)
    if l[0].get_id() != ph.get_id():
        return None
    return SStr(z3.StringVal('') if len(l) == 1 else l[1] if len(l) == 2 else z3.Concat(l[1:]))
