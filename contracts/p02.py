"""P02: sums of scripts."""
from .common import *
from ieml.exceptions import InvalidScript, IncompatiblesScriptsLayers, TooManySingularSequences, InvalidScriptCharacter
from ieml.constants import MAX_SINGULAR_SEQUENCES

f = lambda a, z: SCRIPT.z(a, z)
is_add = lambda z: SCRIPT.tag(z) == ADD_TAG


def sum_facts(it, children):
    """the sums given as terms are sums built by this constructor: their terms are not sums and have their layer"""
    x, j = z3.Const('sx', Ref), z3.Int('sj')
    t = SCRIPT.at('children', x, j)
    it.ctx.assume(z3.ForAll([x, j], z3.Implies(z3.And(is_add(x), j >= 0, j < SCRIPT.len('children', x)),
                                               z3.And(f('layer', t) == f('layer', x), z3.Not(is_add(t)),
                                                      SCRIPT.tag(t) >= 0, SCRIPT.tag(t) <= 2)), patterns=[t]))
    it.ctx.assume(z3.ForAll([x], z3.Implies(is_add(x), SCRIPT.len('children', x) >= 1), patterns=[SCRIPT.len('children', x)]))


@contract('P02', SCR + 'AdditiveScript.__init__', name='AdditiveScript', timeout=20, total=150)
def additive(v):
    """for any list of scripts, layer > 0 (layer 0: complete enumeration of sets, and the letters)"""
    script_order(v)

    def path(it):
        ctx = it.ctx
        given = it.fresh('children', T.Seq(SCRIPT))
        n, at0 = given.parts[0].n, given.at
        sum_facts(it, given)
        first = at0(z3.IntVal(0))
        ctx.assume(z3.Implies(n > 0, f('layer', first) > 0))
        terms = VSet(list(given.parts))
        i, j = z3.Int('gi'), z3.Int('gj')

        def is_term(x):
            """x is one of the given scripts, or a term of one of the given sums"""
            return z3.And(z3.Not(is_add(x)), z3.Or(
                z3.Exists([i], z3.And(i >= 0, i < n, z3.Not(is_add(at0(i))), f('_str', at0(i)) == f('_str', x))),
                z3.Exists([i, j], z3.And(i >= 0, i < n, is_add(at0(i)), j >= 0, j < SCRIPT.len('children', at0(i)),
                                         f('_str', SCRIPT.at('children', at0(i), j)) == f('_str', x)))))
        same = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), f('layer', at0(i)) == f('layer', first)))
        r = v.call(it, children=given, target=SCR + 'AdditiveScript')
        if r.raises(TooManySingularSequences):
            v.ensure('only sums of scripts of one layer are too big', z3.And(n > 0, same))
            v.ensure('too big means more than the maximal number of singular sequences',
                     len(r.exc.args) == 1 and zint(r.exc.args[0]) > MAX_SINGULAR_SEQUENCES)
            return
        v.ensure('refused exactly when it is empty or the layers differ', z3.BoolVal(r.ok) == z3.And(n > 0, same))
        if r.exc is not None:
            v.ensure('refused with an exception of the library', z3.And(
                z3.Implies(n == 0, r.raises(InvalidScript)), z3.Implies(n > 0, r.raises(IncompatiblesScriptsLayers))))
            return
        s = r.value
        l = s.attrs['children']
        x = z3.Const('x', Ref)
        v.ensure('no term is added', for_elements(it, l, lambda e: is_term(e.z)))
        v.ensure('no given script is lost', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, z3.Not(is_add(at0(i)))),
                                                                     members(it, l, SRef(at0(i), SCRIPT)))))
        v.ensure('no term of a given sum is lost', z3.ForAll([i, j], z3.Implies(z3.And(
            i >= 0, i < n, is_add(at0(i)), j >= 0, j < SCRIPT.len('children', at0(i))),
            members(it, l, SRef(SCRIPT.at('children', at0(i), j), SCRIPT)))))
        v.ensure('terms in the order of scripts, without repetition', strictly_sorted(it, l))
        v.ensure('layer', zint(s.attrs['layer']) == f('layer', first))
        m = length(it, l)
        v.ensure('at least one term', m >= 1)
        v.ensure('empty iff all the terms are', zbool(it, s.attrs['empty']) == for_elements(it, l, lambda e: f('empty', e.z)))
        v.ensure('paradigm iff several terms or a term is one', zbool(it, s.attrs['paradigm']) == z3.Or(
            m > 1, some_element(it, l, lambda e: f('paradigm', e.z))))
        c = zint(s.attrs['script_class'])
        v.ensure('class of the highest term', z3.And(for_elements(it, l, lambda e: f('script_class', e.z) <= c),
                                                     some_element(it, l, lambda e: f('script_class', e.z) == c)))
        v.ensure('grammatical class', zint(s.attrs['grammatical_class']) == c)
        card = zint(s.attrs['cardinal'])
        v.ensure('cardinal', card == zsum(it, l, lambda z: f('cardinal', z.z)))
        v.ensure('not too big', card <= MAX_SINGULAR_SEQUENCES)
        v.ensure('no letter', s.attrs['character'] is None)
        text = it.as_sym(s.attrs['_str'])
        v.ensure('text: the texts of the terms in order', text.z == text_of(it, l))
        v.ensure('canonical bytes: those of the terms in order', s.attrs['canonical'].z == it.opaque(
            'bytes-join', [Part(p.vars, p.guard, SKey(f('canonical', p.value.z), 'key'), p.n) for p in l.parts], z3.RealSort()))
        v.cover('a sum is built')
    v.declare('layer', 'no term is added')
    v.paths(path)


def text_of(it, l):
    if l.concrete:
        from pyvc.builtin import join
        return it.as_sym(join(it, '+', VList([one(SKey(f('_str', it.as_sym(x).z))) for x in l.items()]))).z
    return it.opaque("join '+'", [Part(p.vars, p.guard, SKey(f('_str', p.value.z)), p.n) for p in l.parts], z3.RealSort())


@contract('P02', SCR + 'AdditiveScript.__init__', name='sorted terms are determined by their set', timeout=20)
def unique(v):
    """lemma: two strictly sorted lists with the same elements are equal (induction on the index); with the contract of
    AdditiveScript the sum only depends on the set of its terms"""
    def path(it):
        a, b = it.fresh('a', T.Seq(SCRIPT)), it.fresh('b', T.Seq(SCRIPT))
        na, nb, k, j = a.parts[0].n, b.parts[0].n, z3.Int('k'), z3.Int('j')
        for l in (a, b):
            it.ctx.assume(strictly_sorted(it, l))
        it.ctx.assume(for_elements(it, a, lambda e: members(it, b, e)))
        it.ctx.assume(for_elements(it, b, lambda e: members(it, a, e)))
        it.ctx.assume(z3.And(k >= 0, k <= na, k <= nb))
        it.ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), f('_str', a.at(j)) == f('_str', b.at(j)))))
        v.ensure('same element at the next place, or both at the end', z3.If(
            z3.And(k < na, k < nb), f('_str', a.at(k)) == f('_str', b.at(k)), na == nb))
    v.paths(path)


@contract('P02', SCR + 'Script.__add__', name='a + b')
def plus(v):
    def path(it):
        a, b = it.fresh('a', SCRIPT), it.fresh('b', SCRIPT)
        seen = []
        v.use(SCR + 'AdditiveScript', lambda it, args, kwargs: seen.append((args, kwargs)) or a)
        it.ctx.contracts.update(v.contracts)
        r = v.call(it, a, b)
        ok = len(seen) == 1 and not seen[0][0] and set(seen[0][1]) == {'children'}
        l = seen[0][1]['children'].items() if ok else []
        v.ensure('the sum of the two', ok and len(l) == 2 and z3.And(l[0].z == a.z, l[1].z == b.z))
        r = v.call(it, a, 'U:')
        v.ensure('nothing but a script can be added', r.raises(InvalidScript))
    v.paths(path)


@contract('P02', SCR + 'AdditiveScript.__init__', name='layer 0')
def layer0(v):
    """all the sets of scripts of layer 0, each in several orders, nested, and the letters: enumeration"""
    import itertools
    from ieml.constants import REMARKABLE_ADDITION, character_value
    prim = {'E': NullScript(layer=0), **{c: MultiplicativeScript(character=c) for c in 'UASBT'}}
    bad = None
    n = 0
    for k in range(1, 7):
        for cs in itertools.combinations('EUASBT', k):
            texts = set()
            forms = [list(cs), list(cs)[::-1], list(cs) + [cs[0]]]
            for form in forms:
                s = AdditiveScript(children=[prim[c] for c in form])
                texts.add(str(s))
                n += 1
                letter = [l for l, val in REMARKABLE_ADDITION.items() if set(val) == set(cs)]
                value = 0
                for c in cs:
                    value |= character_value[c]
                if [c.character for c in s.children] != sorted(cs, key=lambda c: (c != 'E', character_value[c])) or \
                        s.character != (letter[0] if letter else None) or s.canonical != bytes([value]) or s.layer != 0 or \
                        s.cardinal != len(cs) or s.empty != (cs == ('E',)) or s.paradigm != (len(cs) > 1) or \
                        s.script_class != max(prim[c].script_class for c in cs) or s.grammatical_class != s.script_class:
                    bad = form
            for i in range(1, k):
                s = AdditiveScript(children=[AdditiveScript(children=[prim[c] for c in cs[:i]]),
                                             AdditiveScript(children=[prim[c] for c in cs[i:]])])
                texts.add(str(s))
                n += 1
            if len(texts) != 1 or texts != {letter[0] + ':' if letter else '+'.join(
                    c + ':' for c in sorted(cs, key=lambda c: (c != 'E', character_value[c])))}:
                bad = (cs, texts)
    v.finite('attributes of the sums of primitives', bad, n)
    bad = None
    n = 0
    for c in map(chr, range(32, 127)):
        n += 1
        try:
            s = AdditiveScript(character=c)
            if c not in REMARKABLE_ADDITION or str(s) != c + ':' or {x.character for x in s.children} != set(REMARKABLE_ADDITION[c]):
                bad = c
        except InvalidScriptCharacter:
            if c in REMARKABLE_ADDITION:
                bad = c
    v.finite('letters', bad, n)
