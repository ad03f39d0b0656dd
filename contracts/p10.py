"""P10: polymorphemes."""
from .uslcommon import *

PMOD = 'ieml.usl.polymorpheme:'
GRP = ObjType('TraitGroup', [tuple], dict(k=T.Key, mult=T.Int), key='k')
GRP.attrs['morphemes'] = T.Seq(SCRIPT, 'tuple')
GRP.fields = ['morphemes', 'mult']
PMX = ObjType('PolyMorpheme checked', [PolyMorpheme], dict(_str=T.Key), key='_str')
PMX.attrs.update(constant=T.Seq(SCRIPT, 'tuple'), groups=T.Seq(GRP, 'tuple'))


def valid(it, z):
    i, j, k, l = z3.Ints('vi vj vk vl')
    key = lambda s: SCRIPT.z('_str', s)
    lt, glt = it.type_lt(SCRIPT), it.type_lt(GRP)
    c, nc = lambda i: PMX.at('constant', z, i), PMX.len('constant', z)
    g, ng = lambda k: PMX.at('groups', z, k), PMX.len('groups', z)
    m, nm = lambda k, i: GRP.at('morphemes', g(k), i), lambda k: GRP.len('morphemes', g(k))
    mult = lambda k: GRP.z('mult', g(k))
    rng = lambda i, n: z3.And(i >= 0, i < n)
    A, I = z3.ForAll, z3.Implies
    return dict(
        constants_in_order=A([i, j], I(z3.And(i >= 0, i < j, j < nc), z3.Not(lt(c(j), c(i))))),
        groups_in_order=A([i, j], I(z3.And(i >= 0, i < j, j < ng), z3.Not(glt(g(j), g(i))))),
        morphemes_of_groups_in_order=A([k, i, j], I(z3.And(rng(k, ng), i >= 0, i < j, j < nm(k)), z3.Not(lt(m(k, j), m(k, i))))),
        multiplicities=A([k], I(z3.And(rng(k, ng), nm(k) > 0), z3.And(mult(k) >= 1, mult(k) <= 3, mult(k) <= nm(k)))),
        disjoint=z3.And(
            A([i, j], I(z3.And(rng(i, nc), rng(j, nc), i != j), key(c(i)) != key(c(j)))),
            A([i, k, j], I(z3.And(rng(i, nc), rng(k, ng), rng(j, nm(k))), key(c(i)) != key(m(k, j)))),
            A([k, i, l, j], I(z3.And(rng(k, ng), rng(i, nm(k)), rng(l, ng), rng(j, nm(l)), z3.Or(k != l, i != j)),
                              key(m(k, i)) != key(m(l, j))))),
        singular=z3.And(A([i], I(rng(i, nc), SCRIPT.z('cardinal', c(i)) == 1)),
                        A([k, i], I(z3.And(rng(k, ng), rng(i, nm(k))), SCRIPT.z('cardinal', m(k, i)) == 1))))


@contract('P10', PMOD + 'check_polymorpheme', name='check', timeout=20, total=300)
def check(v):
    script_order(v)
    v.trust('groups, which are tuples (tuple of scripts, number), are totally ordered compatibly with ==')

    def path(it):
        p = it.fresh('p', PMX)
        r = v.call(it, p)
        ok = valid(it, p.z)
        if r.ok:
            for n, f in ok.items():
                v.ensure('accepted only with: ' + n.replace('_', ' '), f)
        else:
            v.ensure('refused with ValueError', r.raises(ValueError))
            v.ensure('refused only when a condition fails', z3.Not(z3.And(list(ok.values()))))
    v.paths(path)


UMOD = 'ieml.usl.usl:USL.'
ANY = ObjType('Usl of a list', [PolyMorpheme, Lexeme, Word], dict(_str=T.Key), key='_str')
ANY.attrs['singular_sequences_set'] = T.Set(ANY)
ANY.set_of = {'singular_sequences_set': 'singular_sequences'}
ANY.attrs['singular_sequences'] = T.Seq(ANY)


def usl_obj(it, cls, **attrs):
    o = HObj(cls, epoch=it.ctx.epoch)
    o.attrs.update(attrs)
    return o


@contract('P10', UMOD + 'singular_sequences', name='memo')
def memo(v):
    """computed once by the method of the class, then kept; cardinal, length and singularity are those of the list"""
    def path(it):
        seq = it.fresh('ss', T.Seq(ANY))
        cls = (PolyMorpheme, Lexeme, Word)[it.ctx.choose(3)]
        o = usl_obj(it, cls, _singular_sequences=None, _singular_sequences_set=None)
        calls = []
        o.methods = {'_compute_singular_sequences': lambda it, o: Stub(lambda it, a, k: (calls.append(1), seq)[1])}
        for k in range(2):
            r = v.call(it, o)
            v.ensure('the sequences computed by the class', same_elems(it, r.value, seq) if r.ok else False)
        n = seq.parts[0].n
        r = v.call(it, o, target=UMOD + 'cardinal')
        v.ensure('cardinal: their number', r.ok and zint(r.value) == n)
        r = v.call(it, o, target=UMOD + '__len__')
        v.ensure('len: their number', r.ok and zint(r.value) == n)
        r = v.call(it, o, target=UMOD + 'is_singular')
        v.ensure('singular iff there is one', r.ok and zbool(it, r.value) == (n == 1))
        for k in range(2):
            r = v.call(it, o, target=UMOD + 'singular_sequences_set')
            x = it.fresh('x', ANY)
            v.ensure('set of them', r.ok and isinstance(r.value, VSet) and members(it, r.value, x) == members(it, seq, x))
        v.ensure('the list is not modified', z3.And(z3.BoolVal(len(seq.parts) == 1), seq.parts[0].n == n))
    v.paths(path)


@contract('P10', UMOD + '__contains__', name='containment')
def containment(v):
    def path(it):
        a, b = it.fresh('a', ANY), it.fresh('b', ANY)
        r = v.call(it, a, b)
        i, j = z3.Ints('i j')
        S, L = lambda x, i: ANY.at('singular_sequences', x.z, i), lambda x: ANY.len('singular_sequences', x.z)
        key = lambda z: ANY.z('_str', z)
        v.ensure('inclusion of the singular sequences', r.ok and zbool(it, r.value) == z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < L(b)), z3.Exists([j], z3.And(j >= 0, j < L(a), key(S(a, j)) == key(S(b, i)))))))
    v.paths(path)


@contract('P10', PMOD + 'PolyMorpheme._compute_singular_sequences', name='of a polymorpheme')
def compute(v):
    """without group, itself; with groups, the expansions of its constants and groups (compute_PM_singular_sequences, checked
    by enumeration up to a bound)"""
    def path(it):
        none = bool(it.ctx.choose(2))
        seq = it.fresh('expansions', T.Seq(ANY, 'tuple'))
        o = usl_obj(it, PolyMorpheme, constant=it.fresh('c', T.Seq(SCRIPT, 'tuple')),
                    groups=() if none else it.fresh('g', T.Seq(GRP, 'tuple')))
        if not none:
            it.ctx.assume(o.attrs['groups'].parts[0].n >= 1)

        def expand(it, a, k):
            x = bind(v.resolve(PMOD + 'compute_PM_singular_sequences'), a, k)
            v.ensure('of its constants and groups', z3.And(same_elems(it, x['constants'], o.attrs['constant']),
                                                           same_elems(it, x['groups'], o.attrs['groups'])))
            return None if none else seq
        it.ctx.contracts[PMOD + 'compute_PM_singular_sequences'] = expand
        r = v.call(it, o)
        if v.ensure('no exception', r.ok):
            if none:
                l = it.to_seq(r.value)
                v.ensure('itself without group', l.concrete and len(l.items()) == 1 and l.items()[0] is o)
            else:
                l = it.to_seq(r.value)
                v.ensure('the expansions with groups', same_elems(it, l, seq))
    v.paths(path)


@contract('P10', PMOD + 'compute_PM_singular_sequences', name='no group')
def no_group(v):
    def path(it):
        r = v.call(it, it.fresh('c', T.Seq(SCRIPT, 'tuple')), ())
        v.ensure('a polymorpheme without group is not expanded', r.ok and r.value is None)
    v.paths(path)
