"""P12: words and their roles."""
from .uslcommon import *
from .p09 import POS, LEXR, Recorder, SF, FUN, usl_obj
from ieml.usl.syntagmatic_function import (ProcessSyntagmaticFunction as Process, JunctionSyntagmaticFunction as Junction,
                                           DependantQualitySyntagmaticFunction as Dep,
                                           IndependantQualitySyntagmaticFunction as Indep)
from ieml.usl.constants import DEPENDANT_QUALITY, INDEPENDANT_QUALITY

VAL = z3.Function('is a process valence', Ref, z3.BoolSort())
KEY = lambda z: SCRIPT.z('_str', z)


def table(it, f):
    t = stub_obj(it, 'Table')
    t.methods = {'__contains__': lambda it, o: Stub(lambda it, a, k: SBool(f(it.as_sym(a[0]).z)))}
    return t


@contract('P12', SF + 'SyntagmaticFunction.from_list', name='from_list', timeout=20)
def from_list(v):
    """the kind of function is given by the first scripts of the roles"""
    def path(it):
        ctx = it.ctx
        it.globals['ieml.usl.syntagmatic_function', 'ADDRESS_PROCESS_VALENCE_SCRIPTS'] = table(it, VAL)
        dep, ind = it.lift(DEPENDANT_QUALITY, SCRIPT), it.lift(INDEPENDANT_QUALITY, SCRIPT)
        ctx.assume(KEY(dep.z) != KEY(ind.z))
        x, y = z3.Consts('vx vy', Ref)
        ctx.assume(z3.ForAll([x, y], z3.Implies(z3.And(VAL(x), KEY(x) == KEY(y)), VAL(y)), patterns=[z3.MultiPattern(VAL(x), VAL(y))]))
        ctx.assume(z3.Not(VAL(dep.z)))
        ctx.assume(z3.Not(VAL(ind.z)))
        l = it.fresh('l', T.Seq(POS))
        n = l.parts[0].n
        at_, ln = lambda i, j: POS.at('role', l.at(i), j), lambda i: POS.len('role', l.at(i))
        i, j = z3.Ints('li lj')
        rng = z3.And(i >= 0, i < n)
        first = lambda i: at_(i, z3.IntVal(0))
        noaddr = z3.Exists([i], z3.And(rng, ln(i) == 0))
        made = {}

        def sub(cls):
            def f(it, a, k):
                arg = it.to_seq(a[-1])
                need(len(arg.parts) == 1 and arg.parts[0].n is not None, 'list given to _from_list')
                made[cls] = arg
                if ctx.choose(2):
                    raise Raised(ExcVal(ValueError, ('refused below',)))
                return fun
            return f
        fun = it.fresh('function', FUN)
        for cls in (Process, Dep, Indep):
            ctx.contracts[SF + cls.__name__ + '._from_list'] = sub(cls)
        r = v.call(it, l)
        inside = bool(r.exc and r.raises(ValueError) and r.exc.args == ('refused below',))
        if r.exc and not inside:
            v.ensure('refused with ValueError', r.raises(ValueError))
            v.ensure('nothing else is refused here', z3.Or(
                n == 0, noaddr,
                z3.Exists([i, j], z3.And(rng, j >= 0, j < n, i != j, VAL(first(i)), VAL(first(j)))),
                z3.And(z3.ForAll([i], z3.Implies(rng, z3.Not(VAL(first(i))))),
                       z3.Exists([i], z3.And(rng, KEY(first(i)) != KEY(dep.z))),
                       z3.Exists([i], z3.And(rng, KEY(first(i)) != KEY(ind.z))))))
            return
        v.ensure('not empty, each lexeme with a role', z3.And(n > 0, z3.Not(noaddr)))
        if not v.ensure('one function is built', len(made) == 1):
            return
        cls, arg = list(made.items())[0]
        if not inside:
            k, fn = it.to_seq(r.value).items()
            v.ensure('its kind, and the function', k is cls and fn.z == fun.z)
        if cls is Process:
            v.ensure('a process has one role of process', z3.And(
                z3.Exists([i], z3.And(rng, VAL(first(i)))),
                z3.ForAll([i, j], z3.Implies(z3.And(rng, j >= 0, j < n, i != j), z3.Not(z3.And(VAL(first(i)), VAL(first(j))))))))
            v.ensure('a process is built of all the roles', same_elems(it, arg, l))
        else:
            q = dep if cls is Dep else ind
            v.ensure('a quality has only roles of its kind', z3.ForAll([i], z3.Implies(rng, KEY(first(i)) == KEY(q.z))))
            m = arg.parts[0].n
            e = at(arg, z3.Int('ai'))
            ro, le = it.to_seq(e).items()
            ro = it.to_seq(ro)
            i = z3.Int('ai')
            rng = z3.And(i >= 0, i < n)
            v.ensure('a quality is built of all the lexemes', z3.And(m == n, z3.ForAll([i], z3.Implies(rng, le.z == POS.z(
                'lexeme', l.at(i))))))
            need(len(ro.parts) == 1 and ro.parts[0].n is not None, 'role given to _from_list')
            v.ensure('at the rest of their roles', z3.ForAll([i], z3.Implies(rng, z3.And(
                ro.parts[0].n == ln(i) - 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln(i) - 1), at(ro, j).z == at_(i, j + 1)))))))
    v.paths(path, lifts=LIFT_SCRIPT)
    v.trust('valences, the dependant and the independant quality are different scripts (checked by "role scripts")')


@contract('P12', SF + 'SyntagmaticFunction.get_context_role_prefix', name='role scripts')
def role_scripts(v):
    from ieml.usl import constants as K
    sets = [list(K.ADDRESS_PROCESS_VALENCE_SCRIPTS), [DEPENDANT_QUALITY], [INDEPENDANT_QUALITY], list(K.ACTANTS_SCRIPTS),
            list(K.JUNCTION_SCRIPTS), list(K.JUNCTION_INDEX)]
    l = [str(s) for x in sets for s in x]
    v.finite('the scripts of roles are all different', next((x for x in l if l.count(x) > 1), None), len(l))
    f = v.resolve()
    bad = None
    for cls, want in ((Process, ()), (Dep, (DEPENDANT_QUALITY,)), (Indep, (INDEPENDANT_QUALITY,))):
        if tuple(f(cls)) != want:
            bad = cls
    v.finite('the prefix of the roles of each kind of function', bad, 3)


LPM = ObjType('PolyMorpheme of a lexeme', [PolyMorpheme], dict(_str=T.Key, is_singular=T.Bool), key='_str',
              inv=lambda z: [LPM.z('is_singular', z) == (LPM.len('singular_sequences', z) == 1)])
LPM.attrs['singular_sequences'] = T.Seq(LPM)


@contract('P12', 'ieml.usl.lexeme:Lexeme._compute_singular_sequences', name='of a lexeme')
def lexeme_ss(v):
    """the lexemes of all the pairs of the singular sequences of its parts (none, one or several each)"""
    def path(it):
        f, c = it.fresh('flexion', LPM), it.fresh('content', LPM)
        o = usl_obj(it, Lexeme, pm_flexion=f, pm_content=c)
        LX = z3.Function('lexeme of', Ref, Ref, Ref)
        it.ctx.contracts['ieml.usl.lexeme:Lexeme'] = lambda it, a, k: (lambda x: it.ref(
            LX(x['pm_flexion'].z, x['pm_content'].z), LEXR))(bind(lambda pm_flexion, pm_content: 0, a, k))
        r = v.call(it, o)
        if not v.ensure('no exception', r.ok):
            return
        n = lambda x: LPM.len('singular_sequences', x.z)
        own = lambda p: z3.And(n(p) == 1, LPM.z('_str', LPM.at('singular_sequences', p.z, 0)) == LPM.z('_str', p.z))
        l = it.to_seq(r.value)
        if l.concrete and any(x is o for x in l.items()):
            v.ensure('itself', len(l.items()) == 1)
            v.ensure('itself only when its parts are their own only singular sequence', z3.And(own(f), own(c)))
            return
        x = it.fresh('x', LEXR)
        i, j = z3.Ints('pi pj')
        at_ = lambda p, k: LPM.at('singular_sequences', p.z, k)
        i2, j2 = it.ctx.fresh('i', z3.IntSort()), it.ctx.fresh('j', z3.IntSort())
        it.ctx.assume(z3.And(i2 >= 0, i2 < n(f), j2 >= 0, j2 < n(c)))
        v.ensure('every pair is there', some_element(it, l, lambda e: e.z == LX(at_(f, i2), at_(c, j2))))
        v.ensure('nothing else', for_elements(it, l, lambda e: z3.Exists([i, j], z3.And(
            i >= 0, i < n(f), j >= 0, j < n(c), e.z == LX(at_(f, i), at_(c, j))))))
        v.ensure('as many as pairs', length(it, l) == n(f) * n(c))
    v.paths(path)


FNS = ObjType('Syntagmatic function', [Process, Dep, Indep, Junction], dict(k=T.Key), key='k')


@contract('P12', 'ieml.usl.word:Word._compute_singular_sequences', name='of a word')
def word_ss(v):
    """one word for each singular sequence of the function, of the same role and kind (none, one or several)"""
    def path(it):
        sf = stub_obj(it, 'function')
        seq = it.fresh('ss', T.Seq(FNS))
        role, ctxt = it.fresh('role', ROLE), (Process, Dep, Indep)[it.ctx.choose(3)]
        asked = []
        sf.methods = {'singular_sequences': lambda it, o: Stub(lambda it, a, k: (asked.append(
            bind(lambda context_type: 0, a, k)['context_type']), seq)[1])}
        W = z3.Function('word of', Ref, Ref, Ref)
        WT = ObjType('Word made', [Word], dict(_str=T.Key), key='_str')

        def word(it, a, k):
            x = bind(lambda syntagmatic_fun, role, context_type: 0, a, k)
            v.ensure('of the same kind', x['context_type'] is ctxt)
            return it.ref(W(x['syntagmatic_fun'].z, x['role'].z), WT)
        it.ctx.contracts['ieml.usl.word:Word'] = word
        o = usl_obj(it, Word, syntagmatic_fun=sf, role=role, context_type=ctxt)
        r = v.call(it, o)
        if not v.ensure('no exception', r.ok):
            return
        v.ensure('the singular sequences of its function, in its context', bool(asked) and all(x is ctxt for x in asked))
        l = it.to_seq(r.value)
        n = seq.parts[0].n
        v.ensure('not the word itself', not (l.concrete and any(x is o for x in l.items())),
                 'the only singular sequence of a word with groups is another word')
        i = z3.Int('wi')
        v.ensure('a word for each, with its role', z3.And(l.parts[0].n == n, z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < n), at(l, i).z == W(seq.at(i), role.z)))) if len(l.parts) == 1 and l.parts[0].n is not None
            else False)
    v.paths(path)


@contract('P12', SF + 'SyntagmaticFunction.singular_sequences', name='of a function')
def function_ss(v):
    """every choice of a singular sequence of each lexeme, at its role (1 to 3 lexemes, of any number of singular sequences)"""
    def path(it):
        ctx = it.ctx
        n = 1 + ctx.choose(3)
        ctxt = (Process, Dep, Indep)[ctx.choose(3)]
        xs = [it.fresh('x%d' % i, LPM) for i in range(n)]
        roles = [it.fresh('r%d' % i, T.Seq(SCRIPT)) for i in range(n)]
        o = usl_obj(it, Process)
        o.methods = {'as_list': lambda it, o: Stub(lambda it, a, k: (v.ensure('its roles in this context', bind(
            lambda context_type: 0, a, k)['context_type'] is ctxt), VList([one((r, x)) for r, x in zip(roles, xs)]))[1])}
        G = z3.Function('function of %d' % n, *([Ref] * (n + 1)))

        def build(it, a, k):
            l = it.to_seq(a[-1]).items()
            ok = len(l) == n
            zs = []
            for e, r in zip(l, roles):
                ro, x = it.to_seq(e).items()
                ok = ok and (ro is r)
                zs.append(x.z)
            need(ok, 'roles of the functions built')
            return (ctxt, it.ref(G(*zs), FNS))
        ctx.contracts[SF + 'SyntagmaticFunction.from_list'] = build
        r = v.call(it, o, ctxt)
        if not v.ensure('no exception', r.ok):
            return
        l = it.to_seq(r.value)
        js = [ctx.fresh('j%d' % i, z3.IntSort()) for i in range(n)]
        N = lambda x: LPM.len('singular_sequences', x.z)
        S = lambda x, j: LPM.at('singular_sequences', x.z, j)
        ok = lambda js: z3.And([z3.And(j >= 0, j < N(x)) for j, x in zip(js, xs)])
        ctx.assume(ok(js))
        v.ensure('every choice is there', some_element(it, l, lambda e: e.z == G(*[S(x, j) for x, j in zip(xs, js)])))
        bs = [z3.Int('b%d' % i) for i in range(n)]
        v.ensure('nothing else', for_elements(it, l, lambda e: z3.Exists(bs, z3.And(
            ok(bs), e.z == G(*[S(x, j) for x, j in zip(xs, bs)])))))
        tot = N(xs[0])
        for x in xs[1:]:
            tot = tot * N(x)
        v.ensure('as many as choices', length(it, l) == tot)
    v.paths(path)


ACT = ObjType('Actor', [Process, Dep, Indep, Junction], dict(k=T.Key), key='k')
ACT.attrs['actor'] = T.Obj(LEXR)


@contract('P12', SF + 'SyntagmaticFunction.as_list', name='as_list')
def as_list(v):
    """the roles which hold a lexeme, each with its lexeme, after the prefix of the kind of function"""
    def path(it):
        n = it.ctx.choose(4)
        ctxt = (Process, Dep, Indep)[it.ctx.choose(3)]
        prefix = {Process: [], Dep: [DEPENDANT_QUALITY], Indep: [INDEPENDANT_QUALITY]}[ctxt]
        rs, fs = [it.fresh('r%d' % i, ROLE) for i in range(n)], [it.fresh('f%d' % i, ACT) for i in range(n)]
        o = usl_obj(it, Process, actors=VDict([one((r, f)) for r, f in zip(rs, fs)]))
        junction = [ACT.tag(f.z) == 3 for f in fs]
        js = [it.ctx.branch(j) for j in junction]
        r = v.call(it, o, ctxt)
        if not v.ensure('no exception', r.ok):
            return
        got = it.to_seq(r.value).items()
        want = [(r, f) for r, f, j in zip(rs, fs, js) if not j]
        if not v.ensure('one for each role which is not a junction (up to 3 roles)', len(got) == len(want)):
            return
        for e, (ro, f) in zip(got, want):
            a, x = it.to_seq(e).items()
            c = it.to_seq(it.getattr(ro, 'constant'))
            v.ensure('the role after the prefix', same_elems(it, a, VList([one(it.lift(p, SCRIPT)) for p in prefix] + c.parts)))
            v.ensure('its lexeme', x.z == it.getattr(f, 'actor').z)
    v.paths(path, lifts=LIFT_SCRIPT)
