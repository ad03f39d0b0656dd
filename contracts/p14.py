"""P14: a USL as the list of its morphemes with their paths, and back."""
from .p13 import *
from .p12 import Dep, Indep, SF
from ieml.usl.word import Word

SEVERAL = (0, 1, 2, 3)

# paths made by the constructors, as terms
PP = ObjType('Path of a place', [PolymorphemePath], dict(k=T.Key, group=T.Int, named=T.Bool, mult=T.Int), key='k')
PP.attrs['morpheme'] = T.Obj(SCRIPT)
FP = ObjType('Path of an inflection', [FlexionPath], dict(k=T.Key), key='k')
FP.attrs['morpheme'] = T.Obj(SCRIPT)
PLACE = z3.Function('place', z3.IntSort(), z3.BoolSort(), Ref, z3.IntSort(), Ref)
INFL = z3.Function('inflection', Ref, Ref)
NOREF = z3.Const('no morpheme', Ref)
NOMULT = z3.IntVal(-1)


def place_z(g, m, mult):
    g = g.value if isinstance(g, GroupIndex) else g
    mult = NOMULT if mult is None else zint(mult)
    return PLACE(z3.IntVal(g), z3.BoolVal(m is not None), NOREF if m is None else m.z, mult)


def path_constructors(it):
    it.ctx.contracts[PA + 'PolymorphemePath'] = lambda it, a, k: (lambda x: it.ref(place_z(
        x['group_idx'], x['morpheme'], x['multiplicity']), PP))(bind(
            lambda group_idx, morpheme=None, multiplicity=None, child=None: 0, a, k))
    it.ctx.contracts[PA + 'FlexionPath'] = lambda it, a, k: (lambda x: it.ref(INFL(x['morpheme'].z), FP))(bind(
        lambda morpheme, child=None: 0, a, k))


def pair(it, x):
    return it.to_seq(x).items()


@contract('P14', 'ieml.usl.polymorpheme:PolyMorpheme.iter_structure_path', name='morphemes of a polymorpheme', timeout=20)
def pm_paths(v):
    """each constant and each member of a group, once, at its place, after the constants or the group as a whole"""
    def path(it):
        path_constructors(it)
        rec = pm_stub(it)
        flexion = it.ctx.choose(2) == 1
        n = it.ctx.choose(4)
        c = it.fresh('c', T.Seq(SCRIPT, 'tuple'))
        gs = [(it.fresh('g%d' % i, T.Seq(SCRIPT, 'tuple')), SInt(it.ctx.fresh('m%d' % i, z3.IntSort()))) for i in range(n)]
        for _, m in gs:
            it.ctx.assume(m.z >= 0)
        u = usl_obj(it, PolyMorpheme, constant=c, groups=VList([one(x) for x in gs]))
        r = v.call(it, u, flexion)
        if not v.ensure('no exception', r.ok):
            return
        l = it.to_seq(r.value)
        want = [(GroupIndex.CONSTANT, c, None)] + [(GROUPS[i + 1], g, m) for i, (g, m) in enumerate(gs)]
        Z = lambda g, x, m: INFL(x.z) if flexion else place_z(g, x, m)
        named, whole = [], []
        for p in l.parts:
            a, b = pair(it, p.value)
            (named if isinstance(b, SRef) and b.typ is SCRIPT else whole).append(Part(p.vars, p.guard, (a, b), p.n))
        tot = z3.IntVal(0)
        for g, ms, m in want:
            tot = tot + ms.parts[0].n
            i = it.ctx.fresh('i', z3.IntSort())
            it.ctx.assume(z3.Or(i < 0, i >= ms.parts[0].n, z3.BoolVal(True)))
            x = at(ms, i)
            v.ensure('each morpheme at its place (up to 3 groups, all there are)', z3.Implies(
                z3.And(i >= 0, i < ms.parts[0].n),
                some_element(it, VList(named), lambda e: z3.And(e[0].z == Z(g, x, m), e[1].z == x.z))))
        j = z3.Int('pj')
        v.ensure('nothing else', for_elements(it, VList(named), lambda e: z3.Or([z3.Exists([j], z3.And(
            j >= 0, j < ms.parts[0].n, e[0].z == Z(g, at(ms, j), m), e[1].z == at(ms, j).z)) for g, ms, m in want])))
        v.ensure('each once', length(it, VList(named)) == tot)
        if flexion:
            v.ensure('an inflection has no parts', not whole)
            return
        if not v.ensure('the constants and the groups', len(whole) == len(want) and all(not p.vars for p in whole)):
            return
        for p, (g, ms, m) in zip(whole, want):
            a, b = p.value
            x = rec.of(b)
            v.ensure('at their places', a.z == place_z(g, None, m))
            if not v.ensure('polymorphemes', x is not None):
                continue
            x = x[1]
            cs, grp = it.to_seq(x['constant']), it.to_seq(x['groups'])
            if m is None:
                v.ensure('of the constants', z3.And(same_elems(it, cs, ms), z3.BoolVal(it.length(grp) == 0)))
            else:
                y = [pair(it, z) for z in grp.items()]
                v.ensure('of the group', z3.And(same_elems(it, y[0][0], ms), zint(y[0][1]) == m.z)
                         if it.length(cs) == 0 and len(y) == 1 else False)
    v.paths(path)


# ------------------------------------------------------------------ of a lexeme, a function, a word

ITEM = ObjType('Component', [Script, PolyMorpheme, Lexeme], dict(k=T.Key), key='k')
ANYP = ObjType('Some place', [PolymorphemePath, FlexionPath, LexemePath], dict(k=T.Key), key='k')
ANYP.attrs['morpheme'] = T.Opt(T.Obj(SCRIPT))
PAIR = ObjType('Path and component', [tuple], dict(k=T.Key), key='k')
PAIR.attrs.update(path=T.Obj(ANYP), item=T.Obj(ITEM))
PAIR.fields = ['path', 'item']
LPATH = ObjType('Path in a lexeme', [LexemePath], dict(k=T.Key), key='k')
LP = z3.Function('lexeme place', z3.IntSort(), Ref, Ref)
NOCHILD = z3.Const('no child', Ref)


@contract('P14', 'ieml.usl.lexeme:Lexeme.iter_structure_path', name='morphemes of a lexeme', timeout=20)
def lexeme_paths(v):
    """the flexion and the content; the morphemes of the flexion, as inflections, and all that the content has, once each"""
    def path(it):
        path_constructors(it)

        def lp(it, a, k):
            x = bind(lambda index, child=None: 0, a, k)
            c = x['child']
            return it.ref(LP(z3.IntVal(x['index'].value), NOCHILD if c is None else c.z), LPATH)
        it.ctx.contracts[PA + 'LexemePath'] = lp
        lists = [it.fresh(n, T.Seq(PAIR)) for n in ('content', 'flexion')]
        pms = [stub_obj(it, n) for n in ('content', 'flexion')]
        for pm, l in zip(pms, lists):
            def ask(it, a, k, l=l):
                x = bind(lambda flexion=False: 0, a, k)
                need(x['flexion'] is False, 'paths of inflections')
                return l
            pm.methods = {'iter_structure_path': lambda it, o, ask=ask: Stub(ask)}
        u = usl_obj(it, Lexeme, pm_content=pms[0], pm_flexion=pms[1])
        r = v.call(it, u)
        if not v.ensure('no exception', r.ok):
            return
        l = it.to_seq(r.value)
        whole, named = [], []
        for p in l.parts:
            a, b = pair(it, p.value)
            (whole if isinstance(b, HObj) else named).append(Part(p.vars, p.guard, (a, b), p.n))
        v.ensure('the content and the flexion, once', len(whole) == 2 and all(not p.vars for p in whole) and
                 {id(p.value[1]) for p in whole} == {id(x) for x in pms})
        for p in whole:
            i = 0 if p.value[1] is pms[0] else 1
            v.ensure('at their places', p.value[0].z == LP(z3.IntVal(i), NOCHILD))
        has = lambda z: z3.Not(ANYP.none('morpheme', z))
        cont, flex = lists
        Pz = lambda l, i: PAIR.z('path', at(l, i).z)
        Iz = lambda l, i: PAIR.z('item', at(l, i).z)
        named_l = VList(named)
        i = it.ctx.fresh('i', z3.IntSort())
        rng = lambda l, i: z3.And(i >= 0, i < l.parts[0].n)
        C = lambda i: LP(z3.IntVal(0), Pz(cont, i))
        F = lambda i: LP(z3.IntVal(1), INFL(ANYP.z('morpheme', Pz(flex, i))))
        v.ensure('all of the content is there', z3.Implies(rng(cont, i), some_element(
            it, named_l, lambda e: z3.And(e[0].z == C(i), e[1].z == Iz(cont, i)))))
        v.ensure('the morphemes of the flexion are there', z3.Implies(z3.And(rng(flex, i), has(Pz(flex, i))), some_element(
            it, named_l, lambda e: z3.And(e[0].z == F(i), e[1].z == Iz(flex, i)))))
        j = z3.Int('pj')
        v.ensure('nothing else', for_elements(it, named_l, lambda e: z3.Or(
            z3.Exists([j], z3.And(rng(cont, j), e[0].z == C(j), e[1].z == Iz(cont, j))),
            z3.Exists([j], z3.And(rng(flex, j), has(Pz(flex, j)), e[0].z == F(j), e[1].z == Iz(flex, j))))))
    v.paths(path)


CHAIN = ObjType('Role as a list', [list], dict(k=T.Key), key='k')
RO = ObjType('Role of a lexeme', [SyntagmaticRole], dict(_str=T.Key), key='_str')
RLEX = ObjType('Lexeme and its parts', [Lexeme], dict(_str=T.Key), key='_str')
RLEX.attrs['parts'] = T.Seq(PAIR)
HOLD = ObjType('Role and lexeme', [tuple], dict(k=T.Key), key='k')
HOLD.attrs.update(role=T.Obj(CHAIN), lexeme=T.Obj(RLEX))
HOLD.fields = ['role', 'lexeme']
RPATH = ObjType('Path of a role', [RolePath], dict(k=T.Key), key='k')
ROLEOF = z3.Function('role of', Ref, Ref)
RP = z3.Function('role place', Ref, z3.BoolSort(), Ref, Ref)


@contract('P14', SF + 'SyntagmaticFunction.iter_structure_path', name='morphemes of a function', timeout=20)
def function_paths(v):
    """each lexeme at its role, the focused one marked, and all that it has"""
    def path(it):
        l = it.fresh('l', T.Seq(HOLD))
        ctxt = (Process, Dep, Indep)[it.ctx.choose(3)]
        o = usl_obj(it, Process)
        o.methods = {'as_list': lambda it, o: Stub(lambda it, a, k: (v.ensure('its roles in this context', bind(
            lambda context_type: 0, a, k)['context_type'] is ctxt), l)[1])}
        it.ctx.contracts[SF + 'SyntagmaticRole'] = lambda it, a, k: it.ref(ROLEOF(bind(lambda constant: 0, a, k)['constant'].z), RO)
        it.ctx.contracts['ieml.usl.lexeme:Lexeme.iter_structure_path'] = lambda it, a, k: it.getattr(a[0], 'parts')

        def rp(it, a, k):
            x = bind(lambda role, has_focus=False, child=None: 0, a, k)
            f = x['has_focus']
            return it.ref(RP(x['role'].z, f.z if isinstance(f, SBool) else z3.BoolVal(bool(f)),
                             NOCHILD if x['child'] is None else x['child'].z), RPATH)
        it.ctx.contracts[PA + 'RolePath'] = rp
        focus = it.fresh('focus', RO)
        r = v.call(it, o, ctxt, focus)
        if not v.ensure('no exception', r.ok):
            return
        whole, named = [], []
        for p in it.to_seq(r.value).parts:
            a, b = pair(it, p.value)
            (whole if b.typ is RLEX else named).append(Part(p.vars, p.guard, (a, b), p.n))
        R = lambda i: ROLEOF(HOLD.z('role', at(l, i).z))
        X = lambda i: HOLD.z('lexeme', at(l, i).z)
        isf = lambda i: RO.z('_str', R(i)) == RO.z('_str', focus.z)
        i, j = it.ctx.fresh('i', z3.IntSort()), it.ctx.fresh('j', z3.IntSort())
        n, m = l.parts[0].n, lambda i: RLEX.len('parts', X(i))
        Q = lambda a, i, j: PAIR.z(a, RLEX.at('parts', X(i), j))
        ini, inj = z3.And(i >= 0, i < n), z3.And(i >= 0, i < n, j >= 0, j < m(i))
        v.ensure('each lexeme at its role, marked if it has the focus', z3.Implies(ini, some_element(
            it, VList(whole), lambda e: z3.And(e[0].z == RP(R(i), isf(i), NOCHILD), e[1].z == X(i)))))
        v.ensure('all that the lexeme has, after its role', z3.Implies(inj, some_element(
            it, VList(named), lambda e: z3.And(e[0].z == RP(R(i), isf(i), Q('path', i, j)), e[1].z == Q('item', i, j)))))
        bi, bj = z3.Ints('bi bj')
        v.ensure('no other role', for_elements(it, VList(whole), lambda e: z3.Exists([bi], z3.And(
            bi >= 0, bi < n, e[0].z == RP(R(bi), isf(bi), NOCHILD), e[1].z == X(bi)))))
        v.ensure('nothing else', for_elements(it, VList(named), lambda e: z3.Exists([bi, bj], z3.And(
            bi >= 0, bi < n, bj >= 0, bj < m(bi), e[0].z == RP(R(bi), isf(bi), Q('path', bi, bj)),
            e[1].z == Q('item', bi, bj)))))
        v.ensure('each role once', length(it, VList(whole)) == n)
    v.paths(path)


@contract('P14', 'ieml.usl.word:Word.iter_structure_path', name='morphemes of a word')
def word_paths(v):
    """the word itself, then all that its function has, in its context"""
    def path(it):
        ctxt = (Process, Dep, Indep)[it.ctx.choose(3)]
        l = it.fresh('l', T.Seq(PAIR))
        f = stub_obj(it, 'function')
        role = it.fresh('role', RO)
        f.methods = {'iter_structure_path': lambda it, o: Stub(lambda it, a, k: (lambda x: (v.ensure(
            'in the context of the word, with the role of the word as focus', x['context'] is ctxt and x['focus_role'] is role), l)[1])(
                bind(lambda context, focus_role=None: 0, a, k)))}
        from ieml.usl.word import Word
        o = usl_obj(it, Word, syntagmatic_fun=f, context_type=ctxt, role=role)
        r = v.call(it, o)
        if not v.ensure('no exception', r.ok):
            return
        g = it.to_seq(r.value)
        own, rest = [p for p in g.parts if not p.vars], VList([p for p in g.parts if p.vars])
        if v.ensure('the word itself once', len(own) == 1):
            p, u = pair(it, own[0].value)
            v.ensure('at the empty path', isinstance(p, HObj) and p.cls is UslPath and it.getattr(p, 'child') is None and u is o)
        v.ensure('all that the function has', same_elems(it, rest, l))
    v.paths(path)


@contract('P14', 'ieml.usl.usl:USL.iter_structure_path_by_script_ss', name='only the morphemes')
def only_morphemes(v):
    """of the parts, those which are at the place of a morpheme"""
    def path(it):
        l = it.fresh('l', T.Seq(TPAIR))
        o = usl_obj(it, PolyMorpheme)
        flex = it.ctx.choose(2) == 1
        o.methods = {'iter_structure_path': lambda it, o: Stub(lambda it, a, k: (v.ensure(
            'of the kind asked', bind(lambda flexion=False: 0, a, k)['flexion'] is flex), l)[1])}
        r = v.call(it, o, flex)
        if not v.ensure('no exception', r.ok):
            return
        g = it.to_seq(r.value)
        i, j = it.ctx.fresh('i', z3.IntSort()), z3.Int('bj')
        end = lambda i: TPATH.z('tail', TPAIR.z('path', at(l, i).z))
        good = lambda i: z3.And(i >= 0, i < l.parts[0].n, TAIL.tag(end(i)) < 2, z3.Not(TAIL.none('morpheme', end(i))))
        same = lambda e, i: (lambda x: z3.And(x[0].z == TPAIR.z('path', at(l, i).z), x[1].z == TPAIR.z('item', at(l, i).z)))(pair(it, e))
        v.ensure('each morpheme is there', z3.Implies(good(i), some_element(it, g, lambda e: same(e, i))))
        v.ensure('nothing else', for_elements(it, g, lambda e: z3.Exists([j], z3.And(good(j), same(e, j)))))
    v.paths(path)


TAIL = ObjType('Last step', [FlexionPath, PolymorphemePath, LexemePath, RolePath, UslPath], dict(k=T.Key), key='k')
TAIL.attrs['morpheme'] = T.Opt(T.Obj(SCRIPT))
TPATH = ObjType('Whole path', [UslPath], dict(k=T.Key), key='k')
TPATH.attrs['tail'] = T.Obj(TAIL)
TPAIR = ObjType('Path and part', [tuple], dict(k=T.Key), key='k')
TPAIR.attrs.update(path=T.Obj(TPATH), item=T.Obj(ITEM))
TPAIR.fields = ['path', 'item']

PMV = ObjType('PolyMorpheme given', [PolyMorpheme], dict(_str=T.Key), key='_str')
PMV.attrs['constant'] = T.Seq(SCRIPT, 'tuple')


def same_members(it, a, b):
    """formula: the same elements, as many"""
    return z3.And(for_elements(it, a, lambda x: members(it, b, x)), for_elements(it, b, lambda x: members(it, a, x)),
                  length(it, a) == length(it, b))


@contract('P14', PA + 'PolymorphemePath.build_usl_from_path_to_node', name='polymorpheme of its places', timeout=20, total=240)
def build_pm(v):
    """the values of the constants and of each group, with its multiplicity; refused when two paths of a group do not agree"""
    def path(it):
        rec = pm_stub(it)
        n = it.ctx.choose(4)
        scripts = it.ctx.choose(2) == 0
        ents = []
        for i in range(n):
            g = GROUPS[it.ctx.choose(4)]
            mult = None
            if g is not GroupIndex.CONSTANT:
                mult = SInt(it.ctx.fresh('mult%d' % i, z3.IntSort()))
                it.ctx.assume(mult.z >= 1)
            p = usl_obj(it, PolymorphemePath, group_idx=g, morpheme=None, multiplicity=mult, child=None)
            if scripts:
                s = it.fresh('v%d' % i, T.Seq(SCRIPT))
                it.ctx.assume(s.parts[0].n >= 1)
                val = s
            else:
                x = it.fresh('v%d' % i, PMV)
                s = it.getattr(x, 'constant')
                it.ctx.assume(s.parts[0].n >= 1)
                val = VList([one(x)])
            ents.append((g, mult, s, p, val))
        r = v.call(it, PolymorphemePath, VDict([one((p, val)) for _, _, _, p, val in ents]))
        agree = z3.And([a[1].z == b[1].z for i, a in enumerate(ents) for b in ents[i + 1:] if a[0] is b[0] and a[1] is not None])
        if not r.ok:
            v.ensure('refused with ValueError', r.raises(ValueError))
            v.ensure('refused only when paths of a group do not agree', z3.Not(agree))
            return
        v.ensure('the paths of each group agree', agree)
        x = rec.of(r.value)
        if not v.ensure('a polymorpheme is built', x is not None):
            return
        x = x[1]
        of = lambda g: VList([q for e in ents if e[0] is g for q in e[2].parts])
        v.ensure('its constants', same_members(it, it.to_seq(x['constant']), of(GroupIndex.CONSTANT)))
        used = [g for g in GROUPS[1:] if any(e[0] is g for e in ents)]
        gs = it.to_seq(x['groups'])
        gs = gs.items() if gs.concrete else []
        if not v.ensure('as many groups as in the paths', len(gs) == len(used)):
            return
        gs = [pair(it, y) for y in gs]
        for g in used:
            m = next(e[1].z for e in ents if e[0] is g)
            v.ensure('each group with its morphemes and its multiplicity', z3.Or(
                [z3.And(zint(m2) == m, same_members(it, it.to_seq(ms), of(g))) for ms, m2 in gs]))
    v.paths(path)


@contract('P14', PA + 'LexemePath.build_usl_from_path_to_node', name='lexeme of its parts')
def build_lexeme(v):
    """the lexeme of the content and of the flexion, empty when not given; a list of morphemes makes a polymorpheme"""
    def path(it):
        rec = pm_stub(it)
        rec.stub('ieml.usl.lexeme:Lexeme', LX2, 'pm_flexion, pm_content')
        flex = []

        def build_flexion(it, a, k):
            d = bind(lambda path_to_node: 0, a[1:] if a[0] is FlexionPath else a, k)['path_to_node']
            flex.append(d)
            r = it.fresh('flexion', PMC)
            rec.keep.append(r)
            flex.append(r)
            return r
        it.ctx.contracts[PA + 'FlexionPath.build_usl_from_path_to_node'] = build_flexion
        given = {}
        ents = []
        for i in range(it.ctx.choose(4)):
            idx = (LexemeIndex.CONTENT, LexemeIndex.FLEXION)[it.ctx.choose(2)]
            kind = it.ctx.choose(3)
            val = it.fresh('pm%d' % i, PMC) if kind == 0 else VList([one(it.fresh('s%d%d' % (i, j), MS)) for j in range(kind)])
            if kind == 2:
                it.ctx.assume(*[z3.Not(KEYZ(val.items()[0]) == KEYZ(val.items()[1]))])
            given.setdefault(idx, []).append(val)
            ents.append((usl_obj(it, LexemePath, index=idx, child=None), val))
        # two steps to the same part are the same key
        r = v.call(it, LexemePath, VDict([one((p, val)) for p, val in ents]))
        many = any(len(x) > 1 for x in given.values())
        if not r.ok:
            v.ensure('refused with ValueError', r.raises(ValueError))
            v.ensure('refused only when a part is given twice', many)
            return
        v.ensure('each part is given once', not many)
        x = rec.of(r.value)
        if not v.ensure('a lexeme is built', x is not None and x[0] == 'Lexeme'):
            return
        for idx, what in ((LexemeIndex.CONTENT, 'pm_content'), (LexemeIndex.FLEXION, 'pm_flexion')):
            got = x[1][what]
            if idx not in given:
                y = rec.of(got)
                v.ensure('a part which is not given is empty', y is not None and len(it.to_seq(y[1]['constant']).parts) == 0
                         and len(it.to_seq(y[1]['groups']).parts) == 0)
                continue
            val = given[idx][0]
            if not isinstance(val, VList):
                v.ensure('a polymorpheme is taken as it is', got.z == val.z)
            elif idx is LexemeIndex.CONTENT:
                y = rec.of(got)
                v.ensure('the morphemes of a content are its constants', same_elems(it, it.to_seq(y[1]['constant']), val)
                         if y is not None and not it.to_seq(y[1]['groups']).parts else False)
            else:
                v.ensure('the inflections make the flexion', len(flex) == 2 and got.z.eq(flex[1].z))
                es = [pair(it, e.value) for e in flex[0].parts] if flex and isinstance(flex[0], VDict) else []
                if v.ensure('one entry for each inflection', len(es) == len(val.items())):
                    for (p, ms), m in zip(es, val.items()):
                        ms = it.to_seq(ms).items()
                        v.ensure('each inflection at its place', z3.And(it.getattr(p, 'morpheme').z == m.z, ms[0].z == m.z)
                                 if len(ms) == 1 and isinstance(p, HObj) and p.cls is FlexionPath else False)
    v.paths(path)


KEYZ = lambda m: MS.z('_str', m.z)
LX2 = ObjType('Lexeme built', [Lexeme], dict(_str=T.Key), key='_str')
WD2 = ObjType('Word built', [Word], dict(_str=T.Key), key='_str')
FN2 = ObjType('Function built', [Process], dict(k=T.Key), key='k')


@contract('P14', PA + 'RolePath.build_usl_from_path_to_node', name='word of its roles', timeout=20, total=240)
def build_word(v):
    """the function of all the roles with their lexemes, and the role which is marked; refused unless one role is marked, or
    when a role is given twice"""
    from ieml.usl.word import Word

    def path(it):
        rec = Recorder(it)
        rec.stub('ieml.usl.word:Word', WD2, 'syntagmatic_fun, role, context_type')
        seen = []

        def from_list(it, a, k):
            seen.append(it.to_seq(bind(lambda l: 0, a, k)['l']))
            seen.append(it.fresh('function', FN2))
            if it.ctx.choose(2):
                raise Raised(ExcVal(ValueError, ('refused below',)))
            return (Process, seen[1])
        it.ctx.contracts[SF + 'SyntagmaticFunction.from_list'] = from_list
        n = it.ctx.choose(4)
        ents = []
        for i in range(n):
            ro, fo = it.fresh('r%d' % i, PR), it.ctx.choose(2) == 1
            it.ctx.assume(z3.Not(z3.PrefixOf('!', TX(ro))))
            ents.append((ro, fo, it.fresh('x%d' % i, LEXB), usl_obj(it, RolePath, role=ro, has_focus=fo, child=None)))
        for i, a in enumerate(ents):
            for b in ents[i + 1:]:
                if a[1] == b[1]:
                    it.ctx.assume(TX(a[0]) != TX(b[0]))        # the keys of a dict are different
        r = v.call(it, RolePath, VDict([one((p, x)) for _, _, x, p in ents]))
        foc = [e for e in ents if e[1]]
        one_focus = z3.And(len(foc) > 0, *[TX(foc[0][0]) == TX(e[0]) for e in foc[1:]])
        distinct = z3.And([TX(a[0]) != TX(b[0]) for i, a in enumerate(ents) for b in ents[i + 1:]])
        if r.exc and r.raises(ValueError) and isinstance(r.exc.args[0], str) and r.exc.args == ('refused below',):
            pass
        elif not r.ok:
            v.ensure('refused with ValueError', r.raises(ValueError))
            v.ensure('refused only when no role or several are marked, or a role is given twice', z3.Not(z3.And(one_focus, distinct)))
            return
        v.ensure('one role is marked, each role is given once', z3.And(one_focus, distinct))
        if not v.ensure('one function is built', len(seen) == 2 and len(foc) == 1):
            return
        if v.ensure('of as many lexemes', len(seen[0].parts) == n and all(not p.vars for p in seen[0].parts)):
            got = [pair(it, e) for e in seen[0].items()]
            for ro, fo, x, p in ents:
                c = it.getattr(ro, 'constant')
                v.ensure('each lexeme at its role', z3.Or([z3.And(b.z == x.z, same_elems(it, it.to_seq(a), c)) for a, b in got]))
        if r.ok:
            y = rec.of(r.value)
            if v.ensure('a word is built', y is not None):
                v.ensure('of this function, in its context, at the marked role', z3.And(
                    y[1]['syntagmatic_fun'].z == seen[1].z, y[1]['context_type'] is Process,
                    TX(y[1]['role']) == TX(foc[0][0])))
    v.paths(path)


LEXB = ObjType('Lexeme given', [Lexeme], dict(_str=T.Key), key='_str')
TX = lambda r: PR.z('_str', r.z)


@contract('P14', PA + 'FlexionPath.build_usl_from_path_to_node', name='flexion of its inflections', timeout=20, total=240)
def build_flexion(v):
    """for each paradigm of inflections: one of its inflections is a constant, several are a group, of multiplicity 1"""
    script_order(v)

    def path(it):
        rec = pm_stub(it)
        F = [it.fresh('f%d' % i, SCRIPT) for i in range(2)]
        it.ctx.assume(SCRIPT.z('_str', F[0].z) != SCRIPT.z('_str', F[1].z))
        it.globals['ieml.usl.decoration.path', 'FLEXION_SCRIPTS'] = VList([one(f) for f in F])
        ms = [it.fresh('m%d' % i, SCRIPT) for i in range(it.ctx.choose(4))]
        K = lambda m: SCRIPT.z('_str', m.z)
        for i, a in enumerate(ms):
            for b in ms[i + 1:]:
                it.ctx.assume(K(a) != K(b))
        r = v.call(it, FlexionPath, VDict([one((usl_obj(it, FlexionPath, morpheme=m, child=None), VList([one(m)]))) for m in ms]))
        if not v.ensure('no exception', r.ok):
            return
        x = rec.of(r.value)
        if not v.ensure('a polymorpheme is built', x is not None):
            return
        cs, gs = it.to_seq(x[1]['constant']), [pair(it, g) for g in it.to_seq(x[1]['groups']).items()]
        inn = lambda m, f: members(it, it.getattr(f, 'singular_sequences'), m)
        cnt = lambda f: z3.Sum([z3.If(inn(m, f), 1, 0) for m in ms] + [z3.IntVal(0)])
        for m in ms:
            v.ensure('a constant is alone in a paradigm', members(it, cs, m) == z3.Or(
                [z3.And(inn(m, f), cnt(f) == 1) for f in F]))
        v.ensure('as many constants', length(it, cs) == z3.Sum([z3.If(cnt(f) == 1, 1, 0) for f in F]))
        v.ensure('as many groups', z3.IntVal(len(gs)) == z3.Sum([z3.If(cnt(f) > 1, 1, 0) for f in F]))
        for f in F:
            v.ensure('each group is of the inflections of a paradigm', z3.Implies(cnt(f) > 1, z3.Or([z3.And(
                zint(n) == 1, length(it, it.to_seq(g)) == cnt(f), *[members(it, it.to_seq(g), m) == inn(m, f) for m in ms])
                for g, n in gs])))
    v.paths(path, lifts=LIFT_SCRIPT)
