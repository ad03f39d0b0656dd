"""P13: paths. A path is a chain of at most three steps (a role, then content or flexion, then a place in a polymorpheme or an
inflection): the contracts are proved for every shape of chain, with symbolic roles, morphemes, focus and multiplicities."""
from .grammar import *
from .uslcommon import *
from .p09 import MS, PMT, cat, S_
from .p10 import usl_obj, GRP
from .p12 import ACT, table, Process
from pyvc.sym import Sym
import ieml.usl.constants as UC
from ieml.usl.decoration.path import (UslPath, RolePath, LexemePath, FlexionPath, PolymorphemePath, LexemeIndex, GroupIndex,
                                      DeferenceError)

PA = 'ieml.usl.decoration.path:'
PR = ObjType('Role of a path', [SyntagmaticRole], dict(_str=T.Str), key='_str', inv=lambda z: [z3.Length(PR.z('_str', z)) >= 2])
PR.attrs['constant'] = T.Seq(MS, 'tuple')
GROUPS = list(GroupIndex)


def shapes():
    """every kind of path; a step is a letter: R role, C content, F flexion, f inflection, g polymorpheme place (m: with a
    morpheme) of group number"""
    last = ['g%d' % i for i in range(4)] + ['m%d' % i for i in range(4)]
    lex = [['C'], ['F'], ['F', 'f']] + [['C', x] for x in last]
    return [[]] + lex + [['R']] + [['R'] + x for x in lex] + [['f']] + [[x] for x in last]


def step_values(it, shape):
    """symbolic contents of the steps of a path"""
    r = []
    for i, s in enumerate(shape):
        n = '%s%d_' % (s, i)
        if s == 'R':
            r.append(dict(role=it.fresh(n + 'role', PR), has_focus=it.ctx.choose(2) == 1))
        elif s in 'CF':
            r.append(dict(index=LexemeIndex.CONTENT if s == 'C' else LexemeIndex.FLEXION))
        elif s == 'f':
            r.append(dict(morpheme=it.fresh(n + 'm', MS)))
        else:
            g = GROUPS[int(s[1])]
            mult = None
            if g is not GroupIndex.CONSTANT:
                mult = SInt(it.ctx.fresh(n + 'mult', z3.IntSort()))
                it.ctx.assume(z3.And(mult.z >= 0, mult.z <= 9))
            r.append(dict(group_idx=g, morpheme=it.fresh(n + 'm', MS) if s[0] == 'm' else None, multiplicity=mult))
    return r


def kind(s):
    return dict(R=RolePath, C=LexemePath, F=LexemePath, f=FlexionPath).get(s, PolymorphemePath)


def make(it, shape, values):
    """the path made by the real constructors"""
    p = None
    for s, x in reversed(list(zip(shape, values))):
        p = it.call(kind(s), [], dict(x, child=p))
    return it.call(UslPath, [], {}) if p is None else p


def attr(o, k):
    return o.attrs.get(k)


def steps(p):
    r = []
    while p is not None:
        if isinstance(p, HObj) and p.cls is not UslPath:
            r.append(p)
        elif not isinstance(p, HObj):
            raise Unsupported('a path which is not an object')
        p = p.attrs['child']
    return r


def val_eq(a, b):
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, SRef) and isinstance(b, SRef):
        return a.z == b.z
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and not isinstance(a, bool):
        return zint(a) == zint(b)
    if isinstance(a, SBool) or isinstance(b, SBool):
        f = lambda x: x.z if isinstance(x, SBool) else z3.BoolVal(x)
        return f(a) == f(b)
    need(not (isinstance(a, HObj) or isinstance(b, HObj)), 'a copy of a component')
    return z3.BoolVal(not isinstance(a, Sym) and not isinstance(b, Sym) and a == b)


def is_path(p, shape, values):
    """formula: p is the chain of these steps"""
    if not isinstance(p, HObj):
        return z3.BoolVal(False)
    l = steps(p)
    if len(l) != len(shape) or not l and p.cls is not UslPath:
        return z3.BoolVal(False)
    return conj([z3.BoolVal(o.cls is kind(s)) for o, s in zip(l, shape)] +
                [val_eq(o.attrs.get(k), x[k]) for o, x in zip(l, values) for k in x])


def text(shape, values):
    r = []
    for s, x in zip(shape, values):
        if s == 'R':
            r += ['>role>' + ('! ' if x['has_focus'] else ''), S_(it_str(x['role']))]
        elif s in 'CF':
            r.append('>content' if s == 'C' else '>flexion')
        elif s == 'f':
            r += ['>', S_(it_str(x['morpheme']))]
        else:
            r.append('>constant' if x['group_idx'] is GroupIndex.CONSTANT else '>group_%d' % x['group_idx'].value)
            if x['multiplicity'] is not None:
                r += [' ', z3.IntToStr(x['multiplicity'].z)]
            if x['morpheme'] is not None:
                r += ['>', S_(it_str(x['morpheme']))]
    return cat(*r) if r else z3.StringVal('>')


def it_str(x):
    return SStr(x.typ.z('_str', x.z))



@contract('P13', PA + 'UslPath.__str__', name='text of a path', timeout=20, total=300)
def path_text(v):
    for shape in shapes():
        def path(it, shape=shape):
            vals = step_values(it, shape)
            p = make(it, shape, vals)
            v.ensure('the constructor keeps the steps', is_path(p, shape, vals))
            r = v.call(it, p)
            if v.ensure('no exception', r.ok):
                v.ensure('each step after a separator', S_(r.value) == text(shape, vals))
        v.paths(path)


@contract('P13', PA + 'UslPath.__eq__', name='equality', timeout=20, total=300)
def equality(v):
    """== is the equality of texts, and equal paths have the same hash"""
    def path(it):
        texts = [SStr(it.ctx.fresh('t%d' % i, z3.StringSort())) for i in range(2)]
        a, b = [usl_obj(it, (RolePath, LexemePath, FlexionPath, PolymorphemePath, UslPath)[it.ctx.choose(5)]) for _ in range(2)]
        for o, t in ((a, texts[0]), (b, texts[1])):
            o.methods = {'__str__': lambda it, o, t=t: Stub(lambda it, a, k: t)}
        r = v.call(it, a, b)
        if v.ensure('no exception', r.ok):
            v.ensure('of the texts', zbool(it, r.value) == (texts[0].z == texts[1].z))
        h = [v.call(it, o, target=PA + 'UslPath.__hash__') for o in (a, b)]
        if v.ensure('no exception', h[0].ok and h[1].ok):
            v.ensure('same text, same hash', z3.Implies(texts[0].z == texts[1].z, val_eq(h[0].value, h[1].value)))
    v.paths(path)


def cuts():
    return [(s, i) for s in shapes() for i in range(1, len(s))]


@contract('P13', PA + 'UslPath.concat', name='appending and removing', timeout=20, total=400)
def composition(v):
    for shape, i in cuts():
        def path(it, shape=shape, i=i):
            vals = step_values(it, shape)
            pre, suf, p = make(it, shape[:i], vals[:i]), make(it, shape[i:], vals[i:]), make(it, shape, vals)
            r = v.call(it, pre, suf)
            if not v.ensure('no exception', r.ok):
                return
            c = r.value
            v.ensure('the steps of one, then of the other', is_path(c, shape, vals))
            r = v.call(it, pre, suf, True)
            v.ensure('forced or not', r.ok and is_path(r.value, shape, vals))
            r = v.call(it, c, pre, target=PA + 'UslPath.has_prefix')
            v.ensure('the first part is a prefix', r.ok and zbool(it, r.value))
            r = v.call(it, c, pre, target=PA + 'UslPath.remove_prefix')
            v.ensure('the first part removed, the second is left', r.ok and is_path(r.value, shape[i:], vals[i:]))
            r = v.call(it, pre, p, target=PA + 'UslPath.has_prefix')
            v.ensure('a longer path is not a prefix', r.ok and z3.Not(zbool(it, r.value)))
            r = v.call(it, pre, p, target=PA + 'UslPath.remove_prefix')
            v.ensure('nothing is left when a longer path is removed', r.ok and r.value is None)
            v.ensure('the parts are unchanged', z3.And(is_path(pre, shape[:i], vals[:i]), is_path(suf, shape[i:], vals[i:])))
        v.paths(path)
    for shape in shapes():
        def path(it, shape=shape):
            vals = step_values(it, shape)
            p, e = make(it, shape, vals), make(it, [], [])
            for r in (v.call(it, p, e), v.call(it, e, p)):
                v.ensure('the empty path is neutral', r.ok and is_path(r.value, shape, vals))
            if shape:
                r = v.call(it, p, p, target=PA + 'UslPath.has_prefix')
                v.ensure('a path is a prefix of itself', r.ok and zbool(it, r.value))
        v.paths(path)


@contract('P13', PA + 'UslPath.has_prefix', name='prefixes', timeout=20, total=400)
def prefixes(v):
    """a path has a prefix iff the prefix is one of its cuts (for paths whose steps are roles, content, flexion, inflections;
    places of polymorphemes are compared up to their morphemes)"""
    sh = [['R'], ['C'], ['F'], ['f'], ['R', 'C'], ['R', 'F'], ['F', 'f'], ['R', 'F', 'f'], ['m0'], ['g1'], ['m1'], ['m2'], ['C', 'g0'],
          ['C', 'm1'], ['C', 'm3'], ['R', 'C', 'm1'], ['R', 'C', 'g2']]
    for a in sh:
        for b in sh:
            def path(it, a=a, b=b):
                x, y = step_values(it, a), step_values(it, b)
                p, q = make(it, a, x), make(it, b, y)
                r = v.call(it, p, q)
                if not v.ensure('no exception', r.ok):
                    return
                n = len(b)
                same = z3.BoolVal(False)
                if len(a) >= n and [kind(s) for s in a[:n]] == [kind(s) for s in b] and bool(a) == bool(b):
                    same = conj([val_eq(u[f], w[f]) if not isinstance(u[f], SRef) else it_str(u[f]).z == it_str(w[f]).z
                                 for u, w in zip(x[:n], y) for f in u if 'group_idx' not in u or f != 'morpheme'])
                v.ensure('iff it is a cut', zbool(it, r.value) == same)
            v.paths(path)


@contract('P13', PA + 'UslPath.clone', name='copies')
def copies(v):
    for shape in shapes():
        def path(it, shape=shape):
            vals = step_values(it, shape)
            p = make(it, shape, vals)
            if not shape:
                return
            r = v.call_value(it, Bound_of(it, p, 'clone'))
            v.ensure('a copy has the same steps', r.ok and is_path(r.value, shape, vals))
            r = v.call_value(it, Bound_of(it, p, 'no_child_clone'))
            v.ensure('the first step alone', r.ok and is_path(r.value, shape[:1], vals[:1]))
            t = it.getattr(p, 'tail')
            v.ensure('the last step', is_path(t, shape[-1:], vals[-1:]))
            r = v.call(it, p, target=PA + 'UslPath.split_tail')
            if v.ensure('no exception', r.ok):
                h, t = it.to_seq(r.value).items()
                v.ensure('cut before the last step', z3.And(is_path(h, shape[:-1], vals[:-1]), is_path(t, shape[-1:], vals[-1:])))
            v.ensure('the path is unchanged', is_path(p, shape, vals))
        v.paths(path)


def Bound_of(it, o, name):
    return it.getattr(o, name)


# ------------------------------------------------------------------ the grammar

SF = 'ieml.usl.syntagmatic_function:'
GR = 'ieml.usl.decoration.parser.parser:PathParser.'


def digits_text(it):
    """the text of a number of one digit"""
    n = it.ctx.fresh('digit', z3.IntSort())
    it.ctx.assume(z3.And(n >= 0, n <= 9))
    return n, SStr(z3.IntToStr(n))


@contract('P13', GR + 'p_path', name='actions of the grammar of paths', total=300)
def grammar(v):
    from ieml.usl.decoration.parser.parser import PathParser
    v.trust('PLY builds the derivation of a text by the productions of the grammar; the text of paths has one derivation')
    v.assume_note('script(text of a script) is this script (P04)')
    ps = productions(PathParser)
    for f, left, right in ps:
        text_ = ' '.join(right)

        def path(it, f=f, left=left, right=right, text_=text_):
            words = []
            read = {}

            def read_script(it, a, k):
                x = read.get(id(a[0]))
                need(x is not None, 'script() of something else')
                return x
            it.ctx.contracts['ieml.dictionary.script.operator:script'] = read_script
            rec = Recorder(it)
            rec.stub(SF + 'SyntagmaticRole', PR, 'constant')
            names = table_of_names(it)
            it.globals['ieml.usl.decoration.parser.parser', 'ROLE_NAMES_TO_SCRIPT'] = names
            vals, got = [], {}
            for s in right:
                x = s
                if s == 'SEPARATOR':
                    x = '>'
                elif s == 'EXCLAMATION_MARK':
                    x = '!'
                elif s == 'ROLE_TOKEN':
                    x = 'role'
                elif s == 'MORPHEME':
                    m = it.fresh('m', MS)
                    x = it_str(m)
                    names.no.append(x)
                    read[id(x)] = m
                    got[s] = m
                elif s == 'ROLE_NAME':
                    x = SStr(it.ctx.fresh('name', z3.StringSort()))
                    m = it.fresh('named', MS)
                    names.yes.append((x, m))
                    got[s] = m
                elif s == 'LEXEME_POSITION':
                    x = ('content', 'flexion')[it.ctx.choose(2)]
                    got[s] = LexemeIndex.CONTENT if x == 'content' else LexemeIndex.FLEXION
                elif s == 'POLYMORPHEME_POSITION':
                    i = it.ctx.choose(4)
                    x = ('constant', 'group_0', 'group_1', 'group_2')[i]
                    got[s] = GROUPS[i]
                elif s == 'MULTIPLICITY':
                    n, x = digits_text(it)
                    got[s] = n
                elif s == 'role_path_list':
                    x = it.fresh('roles', T.Seq(MS))
                    got[s] = x
                else:
                    sh = dict(lexeme_path=['C'], flexion_path=['f'], polymorpheme_path=['m0'], role_path=['R'])[s]
                    x = make(it, sh, step_values(it, sh))
                    got[s] = x
                vals.append(x)
            p = p_stub(it, vals)
            r = v.call_value(it, f, stub_obj(it, 'parser'), p)
            y = p.vals[0]
            g = got.get
            if left == 'path':
                sub = [x for x in got.values()]
                if v.ensure('no exception', r.ok):
                    v.ensure('the path read', y is sub[0] if sub else isinstance(y, HObj) and y.cls is UslPath and
                             y.attrs['child'] is None)
            elif left == 'role_path_list':
                if v.ensure('no exception', r.ok):
                    one_ = g('MORPHEME') if 'MORPHEME' in got else g('ROLE_NAME')
                    before = g('role_path_list')
                    v.ensure('the scripts read so far', same_elems(it, y, VList((before.parts if before else []) + [one(one_)])))
            elif left == 'role_path':
                if v.ensure('no exception', r.ok):
                    v.ensure('a role', isinstance(y, HObj) and y.cls is RolePath)
                    a = rec.of(y.attrs['role'])
                    v.ensure('of the scripts read', same_elems(it, a[1]['constant'], g('role_path_list')) if a else False)
                    v.ensure('singled out iff marked', y.attrs['has_focus'] is ('EXCLAMATION_MARK' in right))
                    v.ensure('followed by the path read', y.attrs['child'] is g('lexeme_path'))
            elif left == 'lexeme_path':
                i = g('LEXEME_POSITION')
                pm, fl = g('polymorpheme_path'), g('flexion_path')
                if (pm is not None and i is not LexemeIndex.CONTENT) or (fl is not None and i is not LexemeIndex.FLEXION):
                    v.ensure('refused at a position of the other kind', not r.ok)
                elif v.ensure('no exception', r.ok):
                    v.ensure('a lexeme position', isinstance(y, HObj) and y.cls is LexemePath and y.attrs['index'] is i)
                    v.ensure('followed by the path read', y.attrs['child'] is (pm if pm is not None else fl))
            elif left == 'flexion_path':
                if v.ensure('no exception', r.ok):
                    v.ensure('an inflection', is_path(y, ['f'], [dict(morpheme=g('MORPHEME'))]))
            elif left == 'polymorpheme_path':
                if v.ensure('no exception', r.ok):
                    i = g('POLYMORPHEME_POSITION')
                    n = g('MULTIPLICITY')
                    mult = SInt(n) if n is not None else None if i is GroupIndex.CONSTANT else 1
                    v.ensure('a place', is_path(y, ['g0'], [dict(group_idx=i, morpheme=g('MORPHEME'), multiplicity=mult)]))
            else:
                need(False, 'rule %s' % left)
        v.paths(path, prefix='%s -> %s: ' % (left, text_))
    by = {}
    for f, l, r in ps:
        by.setdefault(l, set()).add(' '.join(r))
    S, M = 'SEPARATOR', 'MORPHEME'
    want = dict(path={S} | {S + ' ' + x for x in ('role_path', 'lexeme_path', 'flexion_path', 'polymorpheme_path')},
                role_path={'ROLE_TOKEN SEPARATOR ' + e + 'role_path_list' + l for e in ('', 'EXCLAMATION_MARK ')
                           for l in ('', ' SEPARATOR lexeme_path')},
                lexeme_path={'LEXEME_POSITION' + x for x in ('', ' SEPARATOR polymorpheme_path', ' SEPARATOR flexion_path')},
                polymorpheme_path={'POLYMORPHEME_POSITION' + a + b for a in ('', ' MULTIPLICITY') for b in ('', ' SEPARATOR MORPHEME')},
                flexion_path={M}, role_path_list={M, 'role_path_list ' + M})
    bad = [(l, x) for l in want for x in want[l] if x not in by.get(l, ())]
    if not bad:
        v.finite('every form of text of a path is read', None, sum(map(len, want.values())))
    else:
        v.undecided('every form of text of a path is read', 'other rules: %s' % (bad[0],))


def table_of_names(it):
    """ROLE_NAMES_TO_SCRIPT: the names are not texts of scripts"""
    t = stub_obj(it, 'names')
    t.no, t.yes = [], []

    def find(x):
        for n, m in t.yes:
            if n is x:
                return m
        need(any(x is n for n in t.no), 'looked up in the names of roles')
        return None

    def get(it, o):
        def f(it, a, k):
            m = find(a[0])
            if m is None:
                raise Raised(ExcVal(KeyError, (a[0],)))
            return m
        return Stub(f)
    t.methods = {'__contains__': lambda it, o: Stub(lambda it, a, k: find(a[0]) is not None), '__getitem__': get}
    return t


@contract('P13', PA + 'UslPath.__str__', name='a path is read back')
def read_back(v):
    """composition of the rendering and of the grammar: the text of a path, cut in tokens, derives by the productions, whose
    actions make the same steps"""
    from ieml.usl.decoration.parser.parser import PathParser
    prods = {(l, tuple(r)): f for f, l, r in productions(PathParser)}
    for shape in shapes():
        def path(it, shape=shape):
            vals = step_values(it, shape)
            read, toks, lists = {}, [], []
            it.ctx.contracts['ieml.dictionary.script.operator:script'] = lambda it, a, k: read[id(a[0])]
            it.globals['ieml.usl.decoration.parser.parser', 'ROLE_NAMES_TO_SCRIPT'] = t = stub_obj(it, 'names')
            t.methods = {'__contains__': lambda it, o: Stub(lambda it, a, k: False)}

            def apply(left, *l):
                """(production, values) -> value; tokens are pairs (name, text)"""
                f = prods.get((left, tuple(x[0] for x in l)))
                need(f is not None, 'production of %s' % left)
                p = p_stub(it, [x[1] for x in l])
                r = v.call_value(it, f, stub_obj(it, 'parser'), p)
                v.ensure('no exception', r.ok)
                return left, p.vals[0]

            def tok(name, txt):
                toks.append((name, txt))
                return name, txt

            def morpheme(m):
                x = it_str(m)
                read[id(x)] = m
                return tok('MORPHEME', x)
            sep = lambda: tok('SEPARATOR', '>')

            def rest(i):
                if i == len(shape):
                    return ()
                s, x = shape[i], vals[i]
                if s == 'R':
                    # the scripts of the role are read one by one
                    h = (tok('ROLE_TOKEN', 'role'), sep())
                    if x['has_focus']:
                        h += (tok('EXCLAMATION_MARK', '! '),)
                    toks.append(('role', it_str(x['role'])))
                    lists.append((it.getattr(x['role'], 'constant'), x['role']))
                    h += (('role_path_list', lists[-1][0]),)
                    return (apply('role_path', *(h + ((sep(),) + rest(i + 1) if i + 1 < len(shape) else ()))),)
                if s in 'CF':
                    h = (tok('LEXEME_POSITION', 'content' if s == 'C' else 'flexion'),)
                    return (apply('lexeme_path', *(h + ((sep(),) + rest(i + 1) if i + 1 < len(shape) else ()))),)
                if s == 'f':
                    return (apply('flexion_path', morpheme(x['morpheme'])),)
                g = x['group_idx']
                h = (tok('POLYMORPHEME_POSITION', 'constant' if g is GroupIndex.CONSTANT else 'group_%d' % g.value),)
                if x['multiplicity'] is not None:
                    toks.append((' ', ' '))
                    h += (tok('MULTIPLICITY', SStr(z3.IntToStr(x['multiplicity'].z))),)
                if x['morpheme'] is not None:
                    h += (sep(), morpheme(x['morpheme']))
                return (apply('polymorpheme_path', *h),)

            def new_role(it, a, k):
                x = bind(lambda constant=(): 0, a, k)['constant']
                need(lists and x is lists[-1][0], 'another role')
                return lists[-1][1]
            it.ctx.contracts[SF + 'SyntagmaticRole'] = new_role
            _, y = apply('path', *((sep(),) + rest(0)))
            p = make(it, shape, vals)
            r = v.call(it, p)
            v.ensure('its text is made of these tokens', r.ok and S_(r.value) == cat(*[x for _, x in toks]))
            v.ensure('the same steps', is_path(y, shape, vals))
        v.paths(path)


# ------------------------------------------------------------------ following a path

PMC = ObjType('PolyMorpheme followed', [PolyMorpheme], dict(_str=T.Key, empty=T.Bool), key='_str')
PMC.attrs.update(constant=T.Seq(SCRIPT, 'tuple'), groups=T.Seq(GRP, 'tuple'))
LXC = ObjType('Lexeme followed', [Lexeme], dict(_str=T.Key), key='_str')
LXC.attrs.update(pm_content=T.Obj(PMC), pm_flexion=T.Obj(PMC))
SR = ObjType('Scripted role', [SyntagmaticRole], dict(_str=T.Key), key='_str')


def pm_stub(it):
    rec = Recorder(it)
    rec.stub('ieml.usl.polymorpheme:PolyMorpheme', PMC, 'constant=(), groups=()')
    return rec


@contract('P13', PA + 'PolymorphemePath._deference', name='places of a polymorpheme')
def place(v):
    def path(it):
        rec = pm_stub(it)
        g = GROUPS[it.ctx.choose(4)]
        m = it.fresh('m', SCRIPT) if it.ctx.choose(2) else None
        o = usl_obj(it, PolymorphemePath, group_idx=g, morpheme=m, multiplicity=None, child=None)
        u = it.fresh('u', PMC)
        n = PMC.len('groups', u.z)
        out = z3.BoolVal(False) if g is GroupIndex.CONSTANT else n <= g.value
        r = v.call(it, o, u)
        if g is GroupIndex.CONSTANT:
            ms = it.getattr(u, 'constant')
        else:
            grp = it.ref(PMC.at('groups', u.z, z3.IntVal(g.value)), GRP)
            ms = it.getitem(grp, 0)
        if m is None:
            if not r.ok:
                v.ensure('refused with DeferenceError', r.raises(DeferenceError))
                v.ensure('refused only when there is no such group', out)
                return
            v.ensure('not beyond the groups', z3.Not(out))
            a = rec.of(r.value)
            if not v.ensure('a polymorpheme', a is not None):
                return
            c, gs = it.to_seq(a[1]['constant']), it.to_seq(a[1]['groups'])
            if g is GroupIndex.CONSTANT:
                v.ensure('of the constants', z3.And(same_elems(it, c, ms), z3.BoolVal(it.length(gs) == 0)))
            else:
                v.ensure('of the group', it.length(c) == 0 and gs.concrete and len(gs.items()) == 1 and
                         gs.items()[0].z == grp.z)
            return
        inside = members(it, it.to_seq(ms), m)
        if not r.ok:
            v.ensure('refused with DeferenceError', r.raises(DeferenceError))
            v.ensure('refused only when it is not there', z3.Or(out, z3.Not(inside)))
            return
        v.ensure('not beyond the groups', z3.Not(out))
        v.ensure('the morpheme', r.value.z == m.z if isinstance(r.value, SRef) else False)
        v.ensure('which is there, when it is not empty', z3.Or(SCRIPT.z('empty', m.z), inside))
    v.paths(path)


@contract('P13', PA + 'FlexionPath._deference', name='inflections')
def inflection(v):
    def path(it):
        m = it.fresh('m', SCRIPT)
        o = usl_obj(it, FlexionPath, morpheme=m, child=None)
        ng = it.ctx.choose(4)
        c = it.fresh('c', T.Seq(SCRIPT, 'tuple'))
        gs = [it.fresh('g%d' % i, T.Seq(SCRIPT, 'tuple')) for i in range(ng)]
        u = usl_obj(it, PolyMorpheme, constant=c, groups=VList([one(VList([one(g), one(1)])) for g in gs]))
        r = v.call(it, o, u)
        f = lambda y: SCRIPT.z('_str', y.z) == SCRIPT.z('_str', m.z)
        inside = z3.Or([some_element(it, c, f)] + [some_element(
            it, g, lambda y: z3.And(f(y), z3.Not(SCRIPT.z('empty', y.z)))) for g in gs])
        if not r.ok:
            v.ensure('refused with DeferenceError', r.raises(DeferenceError))
            v.ensure('refused only when it is not there (up to 3 groups, all that a polymorpheme has)', z3.Not(inside))
            return
        v.ensure('the morpheme, which is there', z3.And(inside, r.value.z == m.z) if isinstance(r.value, SRef) else False)
    v.paths(path, lifts=LIFT_SCRIPT)


@contract('P13', PA + 'LexemePath._deference', name='content and flexion')
def position(v):
    def path(it):
        i = LexemeIndex.CONTENT if it.ctx.choose(2) else LexemeIndex.FLEXION
        u = it.fresh('u', LXC)
        r = v.call(it, usl_obj(it, LexemePath, index=i, child=None), u)
        want = it.getattr(u, 'pm_content' if i is LexemeIndex.CONTENT else 'pm_flexion')
        v.ensure('of the lexeme', r.ok and r.value.z == want.z)
    v.paths(path)


@contract('P13', PA + 'RolePath._deference', name='roles')
def role(v):
    def path(it):
        ro = it.fresh('role', SR)
        fun = stub_obj(it, 'function')
        lex, there = it.fresh('lexeme', LXC), it.ctx.choose(2)

        def get(it, a, k):
            x = bind(lambda role, ignore_prefix=False, ignore_process_valence=False: 0, a, k)
            v.ensure('of this role', x['role'] is ro and x['ignore_prefix'] is True and x['ignore_process_valence'] is True)
            if not there:
                raise Raised(ExcVal(KeyError, ('role',)))
            return lex
        fun.methods = {'get': lambda it, o: Stub(get)}
        u = usl_obj(it, Word, syntagmatic_fun=fun)
        r = v.call(it, usl_obj(it, RolePath, role=ro, has_focus=False, child=None), u)
        if there:
            v.ensure('the lexeme of the role', r.ok and r.value is lex)
        else:
            v.ensure('refused with DeferenceError when there is none', r.raises(DeferenceError))
    v.paths(path)


@contract('P13', PA + 'UslPath.deference', name='following a path')
def following(v):
    """each step is followed from the component reached by the steps before; a component of another kind, or a refused step, is
    refused; following a concatenation is following its parts in turn"""
    from ieml.usl.decoration.instance import InstancedUSL
    classes = {'R': Word, 'C': Lexeme, 'F': Lexeme}
    for shape in shapes():
        if not shape:
            continue

        def path(it, shape=shape):
            vals = step_values(it, shape)
            refused = it.ctx.choose(len(shape) + 1)      # the first step which is refused, if any
            cls = [classes.get(s, PolyMorpheme) for s in shape]
            nodes = [usl_obj(it, c) for c in cls] + [stub_obj(it, 'component')]
            wrong = it.ctx.choose(len(shape) + 1)        # the first component of another kind, if any
            if wrong < len(shape):
                nodes[wrong] = usl_obj(it, [c for c in (Word, Lexeme, PolyMorpheme) if c is not cls[wrong]][it.ctx.choose(2)])
            asked = []

            def follow(i):
                def f(it, a, k):
                    v.ensure('from the component reached', a[0] is nodes[i])
                    if i == refused:
                        raise Raised(ExcVal(DeferenceError, ('refused',)))
                    return nodes[i + 1]
                return lambda it, o: Stub(f)

            def install(p, start):
                for i, o in enumerate(steps(p)):
                    o.methods = dict(o.methods or {}, _deference=follow(start + i)) if getattr(o, 'methods', None) else {
                        '_deference': follow(start + i)}
                return p
            p = install(make(it, shape, vals), 0)
            u = nodes[0]
            if it.ctx.choose(2):
                u = usl_obj(it, InstancedUSL, usl=u)
            r = v.call(it, p, u)
            ok = refused == len(shape) and wrong == len(shape)
            if ok:
                v.ensure('the last component', r.ok and r.value is nodes[-1])
            else:
                v.ensure('refused with DeferenceError', r.raises(DeferenceError))
            r = v.call(it, p, u, target=PA + 'UslPath.contained')
            v.ensure('contained iff it is not refused', r.ok and r.value is ok)
            for i in range(1, len(shape)):
                a, b = install(make(it, shape[:i], vals[:i]), 0), install(make(it, shape[i:], vals[i:]), i)
                r = v.call(it, a, u)
                if r.ok:
                    r = v.call(it, b, r.value)
                v.ensure('the same in turn', r.ok and r.value is nodes[-1] if ok else r.raises(DeferenceError))
        v.paths(path)


@contract('P13', SF + 'SyntagmaticFunction.get', name='role of a function')
def get(v):
    """the lexeme of a role, KeyError when there is none: the role itself when no prefix or valence is ignored or it starts in
    the process by an actant, the rest of the role after its prefix otherwise (up to 3 roles)"""
    def path(it):
        INP = z3.Function('role in process', Ref, z3.BoolSort())
        VAL = z3.Function('valence', Ref, z3.BoolSort())
        tb = lambda f: table(it, f)
        it.globals['ieml.usl.syntagmatic_function', 'ADDRESS_ROLE_IN_PROCESS'] = tb(INP)
        it.globals['ieml.usl.syntagmatic_function', 'ADDRESS_PROCESS_VALENCE_SCRIPTS'] = tb(VAL)
        n = it.ctx.choose(4)
        rs, fs = [it.fresh('r%d' % i, ROLE) for i in range(n)], [it.fresh('f%d' % i, ACT) for i in range(n)]
        for i in range(n):
            for j in range(i):
                it.ctx.assume(ROLE.z('_str', rs[i].z) != ROLE.z('_str', rs[j].z))
        o = usl_obj(it, Process, actors=VDict([one((r, f)) for r, f in zip(rs, fs)]))
        ro = it.fresh('role', ROLE)
        c = it.getattr(ro, 'constant')
        it.ctx.assume(c.parts[0].n >= 1)
        rest = it.fresh('rest', ROLE)

        def new_role(it, a, k):
            x = it.to_seq(bind(lambda constant=(): 0, a, k)['constant'])
            v.ensure('the rest of the role', same_elems(it, x, it.getitem(c, slice(1, None))))
            return rest
        it.ctx.contracts[SF + 'SyntagmaticRole'] = new_role
        it.ctx.assume(ROLE.len('constant', rest.z) == c.parts[0].n - 1)
        f = lambda x: at(it.getattr(x, 'constant'), z3.IntVal(0)).z
        it.ctx.assume(z3.Not(VAL(f(ro))))
        it.ctx.assume(z3.Not(VAL(f(rest))))
        p, q = it.ctx.choose(2) == 1, it.ctx.choose(2) == 1
        looked = it.ctx.branch(z3.Not(INP(f(ro)))) if p else False
        r = v.call(it, o, ro, p, q)
        key = rest if looked else ro
        same = [ROLE.z('_str', x.z) == ROLE.z('_str', key.z) for x in rs]
        if not r.ok:
            v.ensure('refused with KeyError when there is no such role', z3.And(z3.BoolVal(r.raises(KeyError)), z3.Not(z3.Or(same))))
            return
        v.ensure('the lexeme of the role', z3.Or([z3.And(e, r.value.z == it.getattr(x, 'actor').z) for e, x in zip(same, fs)]))
    v.paths(path, lifts=LIFT_SCRIPT)


@contract('P13', 'ieml.usl.decoration.parser.lexer:get_lexer', name='tokens', timeout=30, total=300, z3_first=15)
def tokens(v):
    """the pieces of the texts of paths are read as the tokens of the grammar"""
    from .lexing import reads, script_texts, chars, seq
    from ieml.usl.decoration.parser.lexer import get_lexer
    lx = get_lexer()

    def path(it):
        r = lambda *a, **k: reads(v, lx, 'path_token', *a, **k)
        r('morphemes', 'MORPHEME', script_texts(), ' >', after='> ')
        r('separators', 'SEPARATOR', z3.Re('>'), None)
        r('marks', 'EXCLAMATION_MARK', z3.Re('!'), ' ', end=False)
        r('roles', 'ROLE_TOKEN', z3.Re('role'), '>', end=False)
        r('positions', 'LEXEME_POSITION', z3.Union(z3.Re('flexion'), z3.Re('content')), '>')
        r('places', 'POLYMORPHEME_POSITION', z3.Union(z3.Re('constant'), seq(z3.Re('group_'), chars('012'))), ' >')
        r('multiplicities', 'MULTIPLICITY', z3.Range('0', '9'), '>')
    v.paths(path)
    v.finite('blanks are skipped', None if ' ' in lx.lexignore else ' ', 1)
    v.trust('the texts of scripts are letters with marks in the order of layers (P04)')
    v.trust('a regular expression whose alternatives differ by their next character matches the longest text; PLY tries the '
            'rules in the order of its master expression')
