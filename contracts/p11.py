"""P11: the order of USLs."""
from .uslcommon import *

SF = 'ieml.usl.syntagmatic_function:'
ORDER = z3.Function('rank of a role script', Ref, z3.IntSort())


def address_tables(it):
    """contract of ADDRESS_SCRIPTS and ADDRESS_SCRIPTS_ORDER (checked on the real tables by 'address table')"""
    x, y = z3.Consts('ax ay', Ref)
    it.ctx.assume(z3.ForAll([x, y], (ORDER(x) == ORDER(y)) == (SCRIPT.z('_str', x) == SCRIPT.z('_str', y)),
                            patterns=[z3.MultiPattern(ORDER(x), ORDER(y))]))
    IN = z3.Function('is a role script', Ref, z3.BoolSort())
    t = stub_obj(it, 'Table')
    t.methods = {'__contains__': lambda it, o: Stub(lambda it, a, k: SBool(IN(a[0].z))),
                 '__getitem__': lambda it, o: Stub(lambda it, a, k: SInt(ORDER(a[0].z)))}
    for n in ('ADDRESS_SCRIPTS', 'ADDRESS_SCRIPTS_ORDER'):
        it.globals['ieml.usl.syntagmatic_function', n] = t
    return IN


def roles(it, n):
    IN = address_tables(it)
    rs = [it.fresh('r%d' % i, ROLE) for i in range(n)]
    i = z3.Int('ri')
    for r in rs:
        L = ROLE.len('constant', r.z)
        it.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L), IN(ROLE.at('constant', r.z, i)))))
    # the text of a role determines its scripts: they are joined by blanks, which they do not have
    for k, a in enumerate(rs):
        for b in rs[k + 1:]:
            it.ctx.assume((ROLE.z('_str', a.z) == ROLE.z('_str', b.z)) == z3.And(
                ROLE.len('constant', a.z) == ROLE.len('constant', b.z), z3.ForAll([i], z3.Implies(
                    z3.And(i >= 0, i < ROLE.len('constant', a.z)),
                    SCRIPT.z('_str', ROLE.at('constant', a.z, i)) == SCRIPT.z('_str', ROLE.at('constant', b.z, i))))))
    return rs


@contract('P11', SF + 'SyntagmaticRole.__lt__', name='roles', timeout=20)
def role_order(v):
    script_order(v)

    def lt(it, a, b):
        r = v.call(it, a, b)
        v.ensure('no exception', r.ok)
        return zbool(it, r.value)

    def eq(it, a, b):
        r = v.call(it, a, b, target=SF + 'SyntagmaticRole.__eq__')
        v.ensure('no exception', r.ok)
        return zbool(it, r.value)

    def two(it):
        a, b = roles(it, 2)
        x, y, e = lt(it, a, b), lt(it, b, a), eq(it, a, b)
        v.ensure('equality is that of the texts', e == (ROLE.z('_str', a.z) == ROLE.z('_str', b.z)))
        trichotomy(v, '', x, y, e)
    v.paths(two)

    def three(it):
        a, b, c = roles(it, 3)
        v.ensure('transitive', z3.Implies(z3.And(lt(it, a, b), lt(it, b, c)), lt(it, a, c)))
    v.paths(three)

    def hash_(it):
        a, b = roles(it, 2)
        r, s = v.call(it, a, target=SF + 'SyntagmaticRole.__hash__'), v.call(it, b, target=SF + 'SyntagmaticRole.__hash__')
        v.ensure('equal roles have the same hash', z3.Implies(ROLE.z('_str', a.z) == ROLE.z('_str', b.z),
                                                             zbool(it, it.eq(r.value, s.value))))
    v.paths(hash_)


@contract('P11', SF + 'SyntagmaticRole.__lt__', name='address table')
def address_table(v):
    from ieml.usl.syntagmatic_function import ADDRESS_SCRIPTS, ADDRESS_SCRIPTS_ORDER
    bad = None
    if set(ADDRESS_SCRIPTS) != set(ADDRESS_SCRIPTS_ORDER) or len(set(ADDRESS_SCRIPTS_ORDER.values())) != len(ADDRESS_SCRIPTS_ORDER):
        bad = 'table'
    v.finite('the ranks of the scripts of roles are distinct', bad, len(ADDRESS_SCRIPTS))


@contract('P11', SF + 'SyntagmaticRole.__init__', name='role')
def role_init(v):
    """a role is only made of the scripts of roles"""
    def path(it):
        IN = address_tables(it)
        c = it.fresh('constant', T.Seq(SCRIPT))
        r = v.call(it, constant=c, target=SF + 'SyntagmaticRole')
        i = z3.Int('i')
        ok = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < c.parts[0].n), IN(c.at(i))))
        v.ensure('refused exactly when a script is not one of roles', z3.BoolVal(r.ok) == ok)
        if r.ok:
            l = it.to_seq(r.value.attrs['constant'])
            v.ensure('the scripts, in order', z3.And(l.parts[0].n == c.parts[0].n, z3.ForAll([i], at(l, i).z == c.at(i))))
        else:
            v.ensure('refused with ValueError', r.raises(ValueError))
    v.paths(path)


PMT = ObjType('PolyMorpheme', [PolyMorpheme], dict(_str=T.Key), key='_str')
PMT.attrs.update(constant=T.Seq(SCRIPT, 'tuple'), groups=T.Seq(GROUP, 'tuple'))
GROUP.methods.update(__lt__=key_lt(GROUP), __eq__=key_eq(GROUP))


def same_seq(t, attr, et, a, b):
    i = z3.Int('ssi')
    k = lambda x: et.z(et.key, x)
    return z3.And(t.len(attr, a) == t.len(attr, b), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < t.len(attr, a)),
                  k(t.at(attr, a, i)) == k(t.at(attr, b, i)))))


@contract('P11', 'ieml.usl.polymorpheme:PolyMorpheme.do_lt', name='polymorphemes', timeout=30)
def polymorphemes(v):
    """constants and groups are tuples; a group is a pair of a tuple of scripts and a number, ordered as tuples are"""
    script_order(v)
    v.trust('tuples of totally ordered elements are totally ordered (the groups)')

    def objs(it, names):
        return [it.fresh(n, PMT) for n in names]

    def lt(it, a, b):
        r = v.call(it, a, b)
        v.ensure('no exception', r.ok)
        return zbool(it, r.value)

    def two(it):
        a, b = objs(it, 'ab')
        trichotomy(v, '', lt(it, a, b), lt(it, b, a), z3.And(same_seq(PMT, 'constant', SCRIPT, a.z, b.z),
                                                           same_seq(PMT, 'groups', GROUP, a.z, b.z)))
    v.paths(two)

    def three(it):
        a, b, c = objs(it, 'abc')
        v.ensure('transitive', z3.Implies(z3.And(lt(it, a, b), lt(it, b, c)), lt(it, a, c)))
    v.paths(three)


PMO = ordered_type('PolyMorpheme ordered', PolyMorpheme, grammatical_class=T.Int, empty=T.Bool)
SFO = ordered_type('SyntagmaticFunction ordered', SyntagmaticFunction)
ROLEO = ordered_type('Role ordered', SyntagmaticRole)


def pair_order(target, name, cls, fields):
    @contract('P11', target, name=name, timeout=20)
    def spec(v):
        t = ObjType(cls.__name__, [cls], dict(fields))

        def eqf(a, b):
            return conj([ft.z(ft.key, t.z(n, a)) == ft.z(ft.key, t.z(n, b)) for n, ft in fields])

        def lt(it, a, b):
            r = v.call(it, a, b)
            v.ensure('no exception', r.ok)
            return zbool(it, r.value)

        def path(it):
            a, b, c = (it.fresh(n, t) for n in 'abc')
            x = lt(it, a, b)
            trichotomy(v, '', x, lt(it, b, a), eqf(a.z, b.z))
            v.ensure('transitive', z3.Implies(z3.And(x, lt(it, b, c)), lt(it, a, c)))
        v.paths(path)


pair_order('ieml.usl.lexeme:Lexeme.do_lt', 'lexemes', Lexeme, [('pm_flexion', PMO), ('pm_content', PMO)])
pair_order('ieml.usl.word:Word.do_lt', 'words', Word, [('syntagmatic_fun', SFO), ('role', ROLEO)])


@contract('P11', 'ieml.usl.usl:USL.__lt__', name='usls', timeout=20)
def usls(v):
    """polymorphemes, lexemes and words, each kind being totally ordered by its do_lt"""
    U = ObjType('Usl', [PolyMorpheme, Lexeme, Word], dict(_str=T.Key), key='_str')
    DOLT = z3.Function('do_lt', Ref, Ref, z3.BoolSort())
    same_kind = lambda a, b: U.tag(a) == U.tag(b)

    def do_lt(it, o):
        def f(it, a, k):
            v.ensure('do_lt is only used between usls of one kind', same_kind(o.z, a[0].z))
            return SBool(DOLT(o.z, a[0].z))
        return Stub(f)
    U.methods['do_lt'] = do_lt

    def lt(it, a, b):
        r = v.call(it, a, b)
        v.ensure('no exception', r.ok)
        return zbool(it, r.value)

    def path(it):
        a, b, c = (it.fresh(n, U) for n in 'abc')
        key = lambda x: U.z('_str', x)
        for x in (a.z, b.z, c.z):
            for y in (a.z, b.z, c.z):
                # the text of a lexeme begins with (, that of a word with [, and no other one does (P09)
                it.ctx.assume(z3.Implies(key(x) == key(y), same_kind(x, y)))
                it.ctx.assume(z3.Implies(same_kind(x, y), z3.And(
                    z3.Not(z3.And(DOLT(x, y), DOLT(y, x))), z3.Implies(key(x) == key(y), z3.Not(DOLT(x, y))),
                    z3.Implies(key(x) != key(y), z3.Or(DOLT(x, y), DOLT(y, x))))))
                for z in (a.z, b.z, c.z):
                    it.ctx.assume(z3.Implies(z3.And(same_kind(x, y), same_kind(y, z), DOLT(x, y), DOLT(y, z)), DOLT(x, z)))
        x = lt(it, a, b)
        trichotomy(v, '', x, lt(it, b, a), z3.And(same_kind(a.z, b.z), key(a.z) == key(b.z)))
        v.ensure('transitive', z3.Implies(z3.And(x, lt(it, b, c)), lt(it, a, c)))
        r = v.call(it, a, b, target='ieml.usl.usl:USL.__eq__')
        v.ensure('equality is that of the texts', r.ok and zbool(it, r.value) == (key(a.z) == key(b.z)))
        h = [v.call(it, o, target='ieml.usl.usl:USL.__hash__').value for o in (a, b)]
        v.ensure('equal usls have the same hash', z3.Implies(key(a.z) == key(b.z), zbool(it, it.eq(*h))))
    v.paths(path)
