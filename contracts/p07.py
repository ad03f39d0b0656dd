"""P07: factorization and promotion."""
from .common import *

TOOLS = 'ieml.dictionary.script.tools:'
f = lambda a, z: SCRIPT.z(a, z)
CHAIN = z3.Function('promoted', Ref, z3.IntSort(), Ref)       # CHAIN(s, k): s multiplied k times by empty scripts
SS = z3.Function('is a singular sequence of', Ref, Ref, z3.BoolSort())


@contract('P07', TOOLS + 'promote', name='promote')
def promote(v):
    def product(it, a, k):
        """P03, for one part: layer + 1, the part is the substance, the other parts are empty"""
        b = bind(lambda substance=None, attribute=None, mode=None, children=None, character=None: 0, a, k)
        cs = it.to_seq(b['children']).items() if b['children'] is not None else \
            [c for c in (b['substance'], b['attribute'], b['mode']) if c is not None]
        v.ensure('the product of one script', len(cs) == 1)
        z = cs[0].z
        r = CHAIN(z, z3.IntVal(1))
        it.ctx.assume(z3.And(f('layer', r) == f('layer', z) + 1, SCRIPT.tag(r) == MUL_TAG))
        return it.ref(r, SCRIPT)
    v.use(SCR + 'MultiplicativeScript', product)

    def path(it):
        s = it.fresh('script', SCRIPT)
        layer = it.fresh('layer', T.Int)
        x, k = z3.Const('px', Ref), z3.Int('pk')
        # definition of CHAIN, and its layer (induction on k)
        it.ctx.assume(CHAIN(s.z, z3.IntVal(0)) == s.z)
        it.ctx.assume(z3.ForAll([k], z3.Implies(k >= 0, z3.And(
            CHAIN(s.z, k + 1) == CHAIN(CHAIN(s.z, k), z3.IntVal(1)))), patterns=[CHAIN(CHAIN(s.z, k), z3.IntVal(1))]))
        it.ctx.assume(z3.ForAll([k], z3.Implies(k >= 0, f('layer', CHAIN(s.z, k)) == f('layer', s.z) + k),
                                patterns=[CHAIN(s.z, k)]))
        invariant(v, it, lambda i: it.ref(CHAIN(s.z, i), SCRIPT), 'invariant')
        r = v.call(it, s, layer)
        v.ensure('no exception', r.ok)
        d = layer.z - f('layer', s.z)
        v.ensure('the script multiplied by empty scripts up to the layer, itself if it has it already',
                 r.value.z == CHAIN(s.z, z3.If(d > 0, d, 0)))
    v.paths(path)

    def layers(it):
        s = it.fresh('script', SCRIPT)
        k = z3.Int('k')
        it.ctx.assume(z3.And(k >= 0, f('layer', CHAIN(s.z, k)) == f('layer', s.z) + k))
        it.ctx.assume(CHAIN(s.z, k + 1) == CHAIN(CHAIN(s.z, k), z3.IntVal(1)))
        r = product(it, [], dict(children=VList([one(it.ref(CHAIN(s.z, k), SCRIPT))])))
        v.ensure('induction: one more layer for each product', f('layer', CHAIN(s.z, k + 1)) == f('layer', s.z) + k + 1)
    v.paths(layers, prefix='layer: ')


# factorisations: scripts, or tuples of three lists of factorisations
FACTO = ObjType('Facto', [NullScript, AdditiveScript, MultiplicativeScript, tuple], dict(_str=T.Key, layer=T.Int), key='_str')
LISTF = ObjType('FactoList', [list], {})
LISTF.attrs['items'] = T.Seq(FACTO)
PART = z3.Function('part of a factorisation', Ref, z3.IntSort(), Ref)
DEN = z3.Function('denotes', Ref, Ref, z3.BoolSort())          # a script or a tuple, and a singular sequence
SEQ = z3.Function('product of sequences', Ref, Ref, Ref, Ref)
TUPLE = 3


def iter_facto(it, o):
    """the three lists of a tuple"""
    def g(it, args, kwargs):
        return VList([one(VList([indexed(it.ctx, LISTF.len('items', PART(o.z, z3.IntVal(k))),
                                         lambda i, k=k: SRef(LISTF.at('items', PART(o.z, z3.IntVal(k)), i), FACTO))]))
                      for k in range(3)], kind='tuple')
    return Stub(g)


FACTO.methods['__iter__'] = iter_facto


def den_list(l, s):
    """s is in the denotation of one of the elements of a list"""
    p = l.parts[0]
    i = z3.Int('dl')
    return z3.Exists([i], z3.And(i >= 0, i < p.n, DEN(v_subst(p.value, [(p.vars[0], i)]).z, s)))


@contract('P07', TOOLS + 'pack_factorisation', name='pack', timeout=20)
def pack(v):
    """the singular sequences of the script are those denoted by the factorisations. Induction on the depth: the recursive
    calls are replaced by this contract."""
    a, b, c, s = z3.Consts('da db dc ds', Ref)
    PACK = z3.Function('pack', Ref, Ref)
    PROD = z3.Function('PROD', Ref, Ref, Ref, Ref)
    SUM = [0]
    f_ = v.resolve()

    def rec(it, args, kwargs):
        l = bind(f_, args, kwargs)['facto_list']
        if not isinstance(l, VList) or l.concrete or len(l.parts) != 1:
            raise Unsupported('recursive call')
        p = l.parts[0]
        arr = v_subst(p.value, [(p.vars[0], z3.IntVal(0))]).z
        z = arr.arg(0)                      # the list
        r = PACK(z)
        it.ctx.assume(z3.ForAll([s], DEN(r, s) == den_list(l, s), patterns=[DEN(r, s)]))
        it.ctx.assume(FACTO.tag(r) != TUPLE)
        return it.ref(r, FACTO)

    def product(it, args, kwargs):
        cs = it.to_seq(bind(lambda substance=None, attribute=None, mode=None, children=None, character=None: 0, args, kwargs)['children'])
        zs = [x.z for x in cs.items()]
        v.ensure('three parts', len(zs) == 3)
        r = PROD(*zs)
        it.ctx.assume(z3.ForAll([s], DEN(r, s) == z3.Exists([a, b, c], z3.And(
            DEN(zs[0], a), DEN(zs[1], b), DEN(zs[2], c), s == SEQ(a, b, c))), patterns=[DEN(r, s)]))     # P03, P05
        it.ctx.assume(FACTO.tag(r) == MUL_TAG)
        return it.ref(r, FACTO)

    def addition(it, args, kwargs):
        l = it.to_seq(bind(lambda children=None, character=None: 0, args, kwargs)['children'])
        r = it.ctx.fresh('sum', Ref)
        fact = z3.Or([exists(p.vars, z3.And(p.guard, DEN(p.value.z, s))) for p in [rename(it.ctx, x) for x in l.parts]])
        it.ctx.assume(z3.ForAll([s], DEN(r, s) == fact, patterns=[DEN(r, s)]))     # P02, P05
        it.ctx.assume(FACTO.tag(r) == ADD_TAG)
        return it.ref(r, FACTO)

    def path(it):
        it.ctx.contracts.update({TOOLS + 'pack_factorisation': rec, SCR + 'MultiplicativeScript': product,
                                 SCR + 'AdditiveScript': addition})
        l = it.fresh('facto_list', T.Seq(FACTO))
        n = l.parts[0].n
        it.ctx.assume(n >= 1)
        x = z3.Const('x', Ref)
        # definition of the denotation of a tuple
        pl = lambda k: VList([indexed(it.ctx, LISTF.len('items', PART(x, z3.IntVal(k))),
                                      lambda i: SRef(LISTF.at('items', PART(x, z3.IntVal(k)), i), FACTO))])
        it.ctx.assume(z3.ForAll([x, s], z3.Implies(FACTO.tag(x) == TUPLE, DEN(x, s) == z3.Exists([a, b, c], z3.And(
            den_list(pl(0), a), den_list(pl(1), b), den_list(pl(2), c), s == SEQ(a, b, c)))), patterns=[DEN(x, s)]))
        r = v.call(it, l)
        if not v.ensure('no exception', r.ok):
            return
        q = z3.Const('q', Ref)
        v.ensure('nothing is lost', z3.Implies(den_list(l, q), DEN(r.value.z, q)))
        v.ensure('nothing is added', z3.Implies(DEN(r.value.z, q), den_list(l, q)))
        v.ensure('a script', FACTO.tag(r.value.z) != TUPLE)
    v.paths(path)


@contract('P07', TOOLS + 'factorize', name='factorize', timeout=20)
def factorize(v):
    """what is factorised is the union of the singular sequences, multiplied by empty scripts up to the highest layer when asked.
    The search of the factors is replaced by its contract: it denotes the sequences which it is given (bounded)"""
    s = z3.Const('fs', Ref)
    f_ = v.resolve()

    def elems(l, q):
        """q is an element of a list"""
        return z3.Or([exists(p.vars, z3.And(p.guard, p.value.z == q)) for p in [rename(VCTX[0], x) for x in l.parts]] + [z3.BoolVal(False)])
    VCTX = [None]
    given = {}

    def factor(it, a, k):
        l = it.to_seq(bind(lambda sequences: 0, a, k)['sequences'])
        q, r = z3.Consts('fq fr', Ref)
        v.ensure('sequences to factorise', z3.Exists([q], elems(l, q)))
        v.ensure('the sequences are of one layer', z3.ForAll([q, r], z3.Implies(z3.And(elems(l, q), elems(l, r)),
                                                                             f('layer', q) == f('layer', r))))
        o = stub_obj(it, 'factors')
        o.given = l
        return o

    def pack(it, a, k):
        o = bind(lambda facto_list: 0, a, k)['facto_list']
        need(hasattr(o, 'given'), 'not the factors')
        r = it.fresh('packed', SCRIPT)
        given[r.z.get_id()] = (r, o.given)
        return r

    def prom(it, a, k):
        b = bind(lambda script, layer: 0, a, k)
        x, n = b['script'], it.as_sym(b['layer']).z
        d = n - f('layer', x.z)
        r = CHAIN(x.z, z3.If(d > 0, d, 0))
        it.ctx.assume(f('layer', r) == z3.If(d > 0, n, f('layer', x.z)))
        return it.ref(r, SCRIPT)

    def run(it, arg, union, top, args, kwargs, promoted):
        """union(q): q is one of the singular sequences; top: their highest layer"""
        VCTX[0] = it.ctx
        it.ctx.contracts.update({TOOLS + 'factor': factor, TOOLS + 'pack_factorisation': pack, TOOLS + 'promote': prom})
        r = v.call(it, arg, *args, **kwargs)
        if not v.ensure('no exception', r.ok):
            return
        need(isinstance(r.value, SRef) and r.value.z.get_id() in given, 'not the packed factors')
        l = given[r.value.z.get_id()][1]
        q = z3.Const('q', Ref)
        x = z3.Const('x', Ref)
        if promoted:
            d = lambda x: top - f('layer', x)
            is_ = lambda q: z3.Exists([x], z3.And(union(x), q == CHAIN(x, z3.If(d(x) > 0, d(x), 0))))
        else:
            is_ = union
        v.ensure('nothing is lost', z3.Implies(is_(q), elems(l, q)))
        v.ensure('nothing is added', z3.Implies(elems(l, q), is_(q)))

    def one_script(it):
        sc = it.fresh('script', SCRIPT)
        ss = lambda i: SCRIPT.at('singular_sequences', sc.z, i)
        n = SCRIPT.len('singular_sequences', sc.z)
        i = z3.Int('i')
        it.ctx.assume(n >= 1)
        it.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), f('layer', ss(i)) == f('layer', sc.z)), patterns=[ss(i)]))
        run(it, sc, lambda q: z3.Exists([i], z3.And(i >= 0, i < n, q == ss(i))), None, *[([], {}), ([True], {}), ([], dict(promote=False))][it.ctx.choose(3)], False)
    v.paths(one_script, prefix='script: ')

    def several(it):
        kind = it.ctx.choose(2)
        l = it.fresh('scripts', T.Seq(SCRIPT))
        p = l.parts[0]
        n = p.n
        it.ctx.assume(n >= 1)
        at = lambda i: v_subst(p.value, [(p.vars[0], i)]).z
        ss = lambda i, j: SCRIPT.at('singular_sequences', at(i), j)
        m = lambda i: SCRIPT.len('singular_sequences', at(i))
        i, j = z3.Ints('i j')
        inside = z3.And(i >= 0, i < n, j >= 0, j < m(i))
        it.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), m(i) >= 1), patterns=[m(i)]))
        promoted = it.ctx.choose(2)
        top = z3.Int('top')
        if promoted:
            i0, j0 = z3.Ints('i0 j0')
            it.ctx.assume(z3.ForAll([i, j], z3.Implies(inside, f('layer', ss(i, j)) <= top), patterns=[ss(i, j)]))
            it.ctx.assume(z3.substitute(z3.And(inside, f('layer', ss(i, j)) == top), (i, i0), (j, j0)))
        else:
            it.ctx.assume(z3.ForAll([i, j], z3.Implies(inside, f('layer', ss(i, j)) == top), patterns=[ss(i, j)]))
            it.ctx.assume(inside)
        arg = VList(l.parts, kind='tuple') if kind else l
        run(it, arg, lambda q: z3.Exists([i, j], z3.And(inside, q == ss(i, j))), top, [], dict(promote=bool(promoted)), promoted)
    v.paths(several, prefix='list: ')


from .p04 import operator as _script
contract('P07', 'ieml.dictionary.script.operator:script', name='script()')(_script)
