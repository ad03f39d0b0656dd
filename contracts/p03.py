"""P03: products of scripts."""
import itertools

from .common import *
from ieml.exceptions import InvalidScript, InvalidScriptCharacter, TooManySingularSequences
from ieml.constants import MAX_SINGULAR_SEQUENCES, MAX_LAYER, remarkable_multiplication_lookup_table

f = lambda a, z: SCRIPT.z(a, z)
NULL = z3.Function('empty script', z3.IntSort(), Ref)
RENDER = z3.Function('render', z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())
TEXT = z3.Function('text', z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.RealSort())


def null(it, layer):
    """contract of NullScript (proved on all the layers below)"""
    z = NULL(layer)
    r = it.ref(z, SCRIPT)
    for g in (SCRIPT.tag(z) == NULL_TAG, f('layer', z) == layer, f('empty', z), f('cardinal', z) == 1,
              z3.Not(f('paradigm', z)), f('script_class', z) == 0):
        it.ctx.assume(g)
    return r


def keys(it, args):
    l = it.to_seq(args)
    return [f('_str', it.as_sym(x).z) for x in l.items()]


def use_callees(v):
    v.use(SCR + 'NullScript', lambda it, a, k: null(it, zint(bind(lambda layer: 0, a, k)['layer'])))

    def render(it, a, k):
        b = bind(v.resolve(SCR + 'MultiplicativeScript._render_children'), a, k)
        if b['character']:
            raise Unsupported('letter')
        ks = keys(it, b['children'])
        v.ensure('three parts are rendered', len(ks) == 3)
        if len(ks) != 3:
            raise Unsupported('parts')
        return SKey(RENDER(*ks))
    v.use(SCR + 'MultiplicativeScript._render_children', render)

    def precompute(it, a, k):
        s = a[0]
        ks = keys(it, s.attrs['children'])
        s.attrs['_str'] = SKey(TEXT(*ks, zint(s.attrs['layer'])))
    v.use(SCR + 'MultiplicativeScript._do_precompute_str', precompute)
    v.trust('the text of a product of scripts of layer >= 1 is not that of a product of primitives with a letter')


def norm(it, c):
    """the part which stands for a given part"""
    single = z3.And(SCRIPT.tag(c) == ADD_TAG, SCRIPT.len('children', c) == 1)
    e = z3.If(single, SCRIPT.at('children', c, 0), c)
    return z3.If(f('empty', e), NULL(f('layer', e)), e)


def product(v, n, named):
    """parts of layer >= 1, given as a list of 1, 2 or 3 scripts or as substance, attribute and mode
    (layer 0: complete enumeration)"""
    use_callees(v)

    def facts(it, c):
        """a single term sum has the layer of its term"""
        t = SCRIPT.at('children', c, 0)
        return [z3.Implies(SCRIPT.tag(c) == ADD_TAG, z3.And(SCRIPT.len('children', c) >= 1, f('layer', t) == f('layer', c),
                                                            SCRIPT.tag(t) != ADD_TAG)),
                f('layer', c) >= 1,
                z3.Implies(SCRIPT.tag(c) == NULL_TAG, z3.And(f('empty', c), c == NULL(f('layer', c))))]

    def run(it, cs, call, total=3):
        ctx = it.ctx
        for c in cs:
            for g in facts(it, c.z):
                ctx.assume(g)
        L = f('layer', cs[0].z)

        def contains(it2, c, val):
            return False
        it.text_in_table = contains
        r = call()
        same = conj([f('layer', c.z) == L for c in cs])
        if r.raises(TooManySingularSequences):
            v.ensure('too big means more than the maximal number of singular sequences',
                     z3.And(same, zint(r.exc.args[0]) > MAX_SINGULAR_SEQUENCES))
            return
        v.ensure('refused exactly when the layers differ', z3.BoolVal(r.ok) == same)
        if not r.ok:
            v.ensure('refused with InvalidScript', r.raises(InvalidScript))
            return
        s = r.value
        parts = [norm(it, c.z) for c in cs] + [NULL(L)] * (3 - len(cs))
        null(it, L)
        for p in parts:
            for g in (lambda z: [z3.Implies(SCRIPT.tag(z) == NULL_TAG, z3.And(f('empty', z), f('cardinal', z) == 1,
                                                                              z3.Not(f('paradigm', z))))])(p):
                ctx.assume(g)
        l = it.to_seq(s.attrs['children'])
        if not v.ensure('three parts', l.concrete and len(l.items()) == 3):
            return
        got = [it.as_sym(x).z for x in l.items()]
        v.ensure('the given parts in their places, the empty script in the others', conj([a == b for a, b in zip(got, parts)]))
        v.ensure('layer', zint(s.attrs['layer']) == L + 1)
        v.ensure('empty iff all the parts are', zbool(it, s.attrs['empty']) == conj([f('empty', p) for p in parts]))
        v.ensure('paradigm iff a part is', zbool(it, s.attrs['paradigm']) == z3.Or([f('paradigm', p) for p in parts]))
        v.ensure('cardinal is the product', zint(s.attrs['cardinal']) == f('cardinal', got[0]) * f('cardinal', got[1]) * f('cardinal', got[2]))
        v.ensure('not too big', zint(s.attrs['cardinal']) <= MAX_SINGULAR_SEQUENCES)
        v.ensure('class of the substance', z3.And(zint(s.attrs['script_class']) == f('script_class', parts[0]),
                                                  zint(s.attrs['grammatical_class']) == f('script_class', parts[0])))
        v.ensure('no letter', s.attrs['character'] is None)
        v.ensure('text', s.attrs['_str'].z == TEXT(*[f('_str', g) for g in got], L + 1))
        v.ensure('canonical bytes: those of the parts in order', s.attrs['canonical'].z == it.opaque(
            'bytes', [one(SKey(f('canonical', g), 'key')) for g in got], z3.RealSort()))

    if named:
        def by_name(it):
            cs = [it.fresh('c%d' % i, SCRIPT) for i in range(n)]
            kw = dict(zip(('substance', 'attribute', 'mode'), cs))
            run(it, cs, lambda: v.call(it, target=SCR + 'MultiplicativeScript', **kw))
        v.paths(by_name)
    else:
        def by_list(it):
            cs = [it.fresh('c%d' % i, SCRIPT) for i in range(n)]
            run(it, cs, lambda: v.call(it, children=VList([one(c) for c in cs]), target=SCR + 'MultiplicativeScript'))
        v.paths(by_list)


for _n in (3, 2, 1):
    for _named in (False, True):
        contract('P03', SCR + 'MultiplicativeScript.__init__', timeout=15, total=150,
                 name='MultiplicativeScript of %s%d' % ('named parts, ' if _named else 'a list of ', _n))(
            lambda v, n=_n, named=_named: product(v, n, named))


@contract('P03', SCR + 'MultiplicativeScript.__init__', name='MultiplicativeScript refusals')
def refusals(v):
    use_callees(v)
    for n in (4, 5):
        def too_many(it, n=n):
            cs = [it.fresh('c%d' % i, SCRIPT) for i in range(n)]
            for c in cs:
                it.ctx.assume(f('layer', c.z) >= 1)
                it.ctx.assume(SCRIPT.tag(c.z) == MUL_TAG)
            it.text_in_table = lambda *a: False
            it.ctx.contracts[SCR + 'MultiplicativeScript._render_children'] = lambda it, a, k: SKey(it.ctx.fresh('r', z3.RealSort()))
            r = v.call(it, children=VList([one(c) for c in cs]), target=SCR + 'MultiplicativeScript')
            v.ensure('refused', r.exc is not None)
        v.paths(too_many, prefix='%d parts: ' % n)

    def nothing(it):
        v.ensure('refused', v.call(it, target=SCR + 'MultiplicativeScript').raises(InvalidScript))
    v.paths(nothing, prefix='no part: ')


@contract('P03', SCR + 'NullScript.__init__', name='NullScript')
def null_script(v):
    bad = None
    for l in range(MAX_LAYER):
        s = NullScript(layer=l)
        if s.layer != l or not s.empty or s.paradigm or s.cardinal != 1 or s.character != 'E' or s.script_class != 0 or \
                s.canonical != b'\1' * 3 ** l or str(s) != 'E' + ':.-\',_;'[:l + 1] or s.singular_sequences != [s]:
            bad = l
    v.finite('attributes on all the layers', bad, MAX_LAYER)


@contract('P03', SCR + 'MultiplicativeScript.__init__', name='layer 0')
def layer0(v):
    """all the triples of scripts of layer 0: enumeration"""
    prim = {'E': NullScript(layer=0), **{c: MultiplicativeScript(character=c) for c in 'UASBT'}}
    ss = []
    for n in range(1, 7):
        for c in itertools.combinations('EUASBT', n):
            ss.append(prim[c[0]] if n == 1 else AdditiveScript(children=[prim[x] for x in c]))
    letters = dict(remarkable_multiplication_lookup_table)
    bad = None
    n = 0
    seen = {}
    for a in ss:
        for b in ss:
            for c in ss:
                n += 1
                s = MultiplicativeScript(children=[a, b, c])
                k = (str(a), str(b), str(c))
                if [str(x) for x in s.children] != list(k) or s.layer != 1 or s.script_class != a.script_class or \
                        s.cardinal != a.cardinal * b.cardinal * c.cardinal or s.empty != (k == ('E:',) * 3) or \
                        s.paradigm != (a.paradigm or b.paradigm or c.paradigm) or \
                        s.canonical != a.canonical + b.canonical + c.canonical or seen.setdefault(str(s), k) != k:
                    bad = k
                shown = ''.join(k[:3 if k[2] != 'E:' else 2 if k[1] != 'E:' else 1])
                if s.character != letters.get(shown) or str(s) != (s.character or shown) + '.':
                    bad = k
    v.finite('parts, attributes, letter and text of the products of layer 0', bad, n)
    bad = None
    n = 0
    for shown, l in letters.items():
        n += 1
        s = MultiplicativeScript(character=l)
        t = MultiplicativeScript(children=[prim[c] for c in shown.replace(':', '')])
        if str(s) != l + '.' or s != t or s.character != t.character or [str(x) for x in s.children] != [str(x) for x in t.children] or \
                (s.layer, s.cardinal, s.empty, s.paradigm, s.script_class, s.canonical) != \
                (t.layer, t.cardinal, t.empty, t.paradigm, t.script_class, t.canonical):
            bad = l
    for c in map(chr, range(32, 127)):
        n += 1
        if c in 'UASBT' or c in letters.values():
            continue
        try:
            MultiplicativeScript(character=c)
            bad = c
        except InvalidScript:
            pass
        except InvalidScriptCharacter:
            pass
    for i, c in enumerate('UASBT'):
        s = prim[c]
        if (s.layer, s.cardinal, s.empty, s.paradigm, str(s), s.children, s.canonical, s.script_class) != \
                (0, 1, False, False, c + ':', [], bytes([2 << i]), 1 if c in 'UA' else 2):
            bad = c
    v.finite('letters of products and primitives', bad, n)
