"""P01: the order of scripts."""
import itertools

from .common import *

LT = z3.Function('lt.children', Ref, Ref, z3.BoolSort())   # the order, on scripts which are parts of the compared ones
D = z3.Function('first.difference', Ref, Ref, z3.IntSort())


def key(x):
    return SCRIPT.z('_str', x)


def facts(x):
    """what the constructors establish (obligations of P02, P03): a sum has at least two terms, a product three parts"""
    t = SCRIPT.tag(x)
    n = SCRIPT.len('children', x)
    return [z3.Implies(t == ADD_TAG, n >= 2), z3.Implies(z3.And(t == MUL_TAG, SCRIPT.z('layer', x) > 0), n == 3),
            SCRIPT.z('layer', x) >= 0, z3.Implies(t == NULL_TAG, n == 0)]


def pair_facts(x, y):
    """the text is a function of class, layer and parts, and determines the script (obligations of P02, P03, P04)"""
    f = lambda a, z: SCRIPT.z(a, z)
    n = lambda z: SCRIPT.len('children', z)
    at = lambda z, i: SCRIPT.at('children', z, i)
    i = z3.Int('pi')
    same = z3.And(SCRIPT.tag(x) == SCRIPT.tag(y), f('layer', x) == f('layer', y), f('cardinal', x) == f('cardinal', y),
                  f('canonical', x) == f('canonical', y), n(x) == n(y),
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n(x)), key(at(x, i)) == key(at(y, i)))))
    d = D(x, y)
    return [z3.Implies(key(x) == key(y), same),
            z3.Implies(z3.And(SCRIPT.tag(x) == NULL_TAG, SCRIPT.tag(y) == NULL_TAG, f('layer', x) == f('layer', y)), key(x) == key(y)),
            z3.Implies(z3.And(SCRIPT.tag(x) == SCRIPT.tag(y), f('layer', x) == f('layer', y), f('layer', x) > 0,
                              n(x) == n(y), d == n(x)), key(x) == key(y)),
            # definition of the first difference of the lists of parts
            d >= 0, d <= n(x), d <= n(y), D(y, x) == d,
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < d), key(at(x, i)) == key(at(y, i)))),
            z3.Implies(z3.And(d < n(x), d < n(y)), key(at(x, d)) != key(at(y, d)))]


def order_axioms(f=LT):
    x, y, w = z3.Consts('x y w', Ref)
    return [z3.ForAll([x, y], z3.Not(z3.And(f(x, y), f(y, x))), patterns=[f(x, y)]),
            z3.ForAll([x, y], z3.Or(f(x, y), f(y, x), key(x) == key(y)), patterns=[f(x, y)]),
            z3.ForAll([x, y], z3.Implies(key(x) == key(y), z3.Not(f(x, y))), patterns=[f(x, y)]),
            z3.ForAll([x, y, w], z3.Implies(z3.And(f(x, y), f(y, w)), f(x, w)), patterns=[z3.MultiPattern(f(x, y), f(y, w))]),
            ]


def spec(x, y):
    """the documented order: layer, empty script first, number of singular sequences, canonical bytes, structure"""
    f = lambda a, z: SCRIPT.z(a, z)
    n = lambda z: SCRIPT.len('children', z)
    at = lambda z, i: SCRIPT.at('children', z, i)
    null = lambda z: SCRIPT.tag(z) == NULL_TAG
    d = D(x, y)
    lex = z3.If(z3.And(d < n(x), d < n(y)), LT(at(x, d), at(y, d)), n(x) < n(y))
    return z3.And(key(x) != key(y), z3.If(
        f('layer', x) != f('layer', y), f('layer', x) < f('layer', y), z3.If(
            null(x), True, z3.If(null(y), False, z3.If(
                f('cardinal', x) != f('cardinal', y), f('cardinal', x) < f('cardinal', y), z3.If(
                    f('canonical', x) != f('canonical', y), f('canonical', x) < f('canonical', y), z3.If(
                        SCRIPT.tag(x) == SCRIPT.tag(y), lex, SCRIPT.tag(x) == MUL_TAG)))))))


@contract('P01', SCR + 'Script.__lt__', name='Script.__lt__', timeout=15)
def lt(v):
    """on scripts which are not both of layer 0; the comparison of parts is used by this contract (induction)"""
    v.assume_note('a script determines its text and conversely (class, layer, parts): obligations of P02, P03 and P04, '
                  'used here as facts about the arguments of __lt__')

    def path(it):
        a, b = it.fresh('a', SCRIPT), it.fresh('b', SCRIPT)
        ctx = it.ctx
        for f in facts(a.z) + facts(b.z) + pair_facts(a.z, b.z):
            ctx.assume(f)
        ctx.assume(z3.Or(SCRIPT.z('layer', a.z) != SCRIPT.z('layer', b.z), SCRIPT.z('layer', a.z) > 0))

        def rec(it, args, kwargs):
            x, y = args
            i, j = z3.Int('ci'), z3.Int('cj')
            child = lambda p, i, z: z3.And(i >= 0, i < SCRIPT.len('children', p.z), SCRIPT.at('children', p.z, i) == z)
            v.ensure('the order is only asked again on the parts of the two scripts',
                     z3.And(z3.Exists([i], child(a, i, x.z)), z3.Exists([j], child(b, j, y.z))))
            return SBool(LT(x.z, y.z))
        ctx.contracts[SCR + 'Script.__lt__'] = rec
        r = v.call(it, a, b)
        v.ensure('any two scripts can be compared', r.ok)
        if r.ok:
            z = it.truth_z(r.value) if not isinstance(r.value, bool) else z3.BoolVal(r.value)
            v.ensure('the result is the documented order', z == spec(a.z, b.z))
            v.cover('lower')
    v.paths(path)


@contract('P01', SCR + 'Script.__lt__', name='order lemmas', timeout=30)
def lemmas(v):
    """the documented order is a strict total order compatible with ==, given that it is one on the parts"""
    def two(it):
        a, b = it.fresh('a', SCRIPT), it.fresh('b', SCRIPT)
        for f in order_axioms() + facts(a.z) + facts(b.z) + pair_facts(a.z, b.z) + pair_facts(b.z, a.z):
            it.ctx.assume(f)
        it.ctx.assume(z3.Or(SCRIPT.z('layer', a.z) != SCRIPT.z('layer', b.z), SCRIPT.z('layer', a.z) > 0))
        v.ensure('not both a < b and b < a', z3.Not(z3.And(spec(a.z, b.z), spec(b.z, a.z))))
        v.ensure('a < b, b < a or a == b', z3.Or(spec(a.z, b.z), spec(b.z, a.z), key(a.z) == key(b.z)))
        v.ensure('a == b excludes a < b', z3.Implies(key(a.z) == key(b.z), z3.Not(spec(a.z, b.z))))
    v.paths(two)

    def three(it):
        s = [it.fresh(n, SCRIPT) for n in 'abc']
        for x in s:
            for f in facts(x.z):
                it.ctx.assume(f)
        for x, y in itertools.permutations(s, 2):
            for f in pair_facts(x.z, y.z):
                it.ctx.assume(f)
        for f in order_axioms():
            it.ctx.assume(f)
        a, b, c = [x.z for x in s]
        # equal keys have equal places in the order of the parts
        x, y, w = z3.Consts('x y w', Ref)
        it.ctx.assume(z3.ForAll([x, y, w], z3.Implies(z3.And(key(x) == key(y), LT(x, w)), LT(y, w)), patterns=[z3.MultiPattern(LT(x, w), LT(y, w))]))
        it.ctx.assume(z3.ForAll([x, y, w], z3.Implies(z3.And(key(x) == key(y), LT(w, x)), LT(w, y)), patterns=[z3.MultiPattern(LT(w, x), LT(w, y))]))
        v.ensure('transitive', z3.Implies(z3.And(spec(a, b), spec(b, c)), spec(a, c)))
    v.paths(three, prefix='')


@contract('P01', SCR + 'Script.__eq__', name='Script.__eq__')
def eq(v):
    def path(it):
        a, b = it.fresh('a', SCRIPT), it.fresh('b', SCRIPT)
        r = v.call(it, a, b)
        v.ensure('equality is equality of the texts', r.ok and it.truth_z(r.value) == (key(a.z) == key(b.z)))
        n = v.call(it, a, b, target=SCR + 'Script.__ne__')
        v.ensure('!= is the contrary', n.ok and it.truth_z(n.value) == (key(a.z) != key(b.z)))
        h, k = v.call(it, a, target=SCR + 'Script.__hash__'), v.call(it, b, target=SCR + 'Script.__hash__')
        v.ensure('equal scripts have equal hashes', h.ok and k.ok and z3.Implies(key(a.z) == key(b.z), zint(h.value) == zint(k.value)))
    v.paths(path)


@contract('P01', SCR + 'Script.__lt__', name='layer 0')
def layer0(v):
    """the 63 scripts of layer 0, all of them: complete enumeration by running the real code"""
    from ieml.dictionary.script.script import NullScript
    prim = [NullScript(layer=0)] + [MultiplicativeScript(character=c) for c in 'UASBT']
    ss = []
    for n in range(1, 7):
        for c in itertools.combinations(prim, n):
            ss.append(c[0] if n == 1 else AdditiveScript(children=list(c)))
    lt = {}
    bad = None
    for a in ss:
        for b in ss:
            lt[a, b] = a < b
    for a in ss:
        for b in ss:
            if [lt[a, b], lt[b, a], a == b].count(True) != 1:
                bad = (str(a), str(b))
    v.finite('trichotomy on all the pairs of scripts of layer 0', bad, 63 * 63)
    bad = None
    for a in ss:
        above = [b for b in ss if lt[a, b]]
        for b in above:
            for c in ss:
                if lt[b, c] and not lt[a, c]:
                    bad = (str(a), str(b), str(c))
    v.finite('transitivity on all the triples of scripts of layer 0', bad, 63 ** 3)
