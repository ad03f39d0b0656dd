"""P05: singular sequences."""
from .common import *

f = lambda a, z: SCRIPT.z(a, z)
LEN = lambda z: SCRIPT.len('singular_sequences', z)
AT = lambda z, i: SCRIPT.at('singular_sequences', z, i)
MAKE = z3.Function('product of', Ref, Ref, Ref, Ref)
NULL = z3.Function('empty script', z3.IntSort(), Ref)


def hypothesis(it):
    """induction: the contract of singular_sequences, for the parts of the script"""
    x, j = z3.Const('hx', Ref), z3.Int('hj')
    s = AT(x, j)
    it.ctx.assume(z3.ForAll([x], z3.And(LEN(x) >= 1, LEN(x) == f('cardinal', x)), patterns=[LEN(x)]))
    it.ctx.assume(z3.ForAll([x], z3.Implies(z3.Not(f('paradigm', x)), AT(x, 0) == x), patterns=[f('paradigm', x)]))
    it.ctx.assume(z3.ForAll([x, j], z3.Implies(z3.And(j >= 0, j < LEN(x)), z3.And(
        f('cardinal', s) == 1, z3.Not(f('paradigm', s)), f('layer', s) == f('layer', x), SCRIPT.tag(s) >= 0, SCRIPT.tag(s) <= 2,
        LEN(s) == 1, AT(s, 0) == s)), patterns=[s]))


def sorted_(it, l):
    lt = it.type_lt(SCRIPT)
    if l.concrete:
        zs = [it.as_sym(x).z for x in l.items()]
        return conj([z3.Not(lt(y, x)) for k, x in enumerate(zs) for y in zs[k + 1:]])
    i, j = z3.Int('oi'), z3.Int('oj')
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < l.parts[0].n), z3.Not(lt(at(l, j).z, at(l, i).z))))


def itself(v, it, o, l):
    v.ensure('a singular script is its own singular sequence', l.concrete and len(l.items()) == 1 and l.items()[0] is o)


def script_obj(it, cls, **attrs):
    o = HObj(cls, epoch=it.ctx.epoch)
    o.attrs.update(attrs, _singular_sequences=None, _singular_sequences_set=None)
    return o


@contract('P05', SCR + 'AdditiveScript._compute_singular_sequences', name='of a sum')
def additive(v):
    script_order(v)

    def path(it):
        hypothesis(it)
        cs = it.fresh('children', T.Seq(SCRIPT))
        n = cs.parts[0].n
        i, j = z3.Int('gi'), z3.Int('gj')
        par = it.fresh('paradigm', T.Bool)
        it.ctx.assume(n >= 1)
        it.ctx.assume(par.z == z3.Or(n > 1, z3.Exists([i], z3.And(i >= 0, i < n, f('paradigm', cs.at(i))))))   # P02
        o = script_obj(it, AdditiveScript, children=cs, paradigm=par, layer=it.fresh('layer', T.Int), character=None)
        r = v.call(it, o)
        if not v.ensure('no exception', r.ok):
            return
        l = it.to_seq(r.value)
        if l.concrete:
            it.ctx.assume(z3.Not(par.z))
            itself(v, it, o, l)
            v.ensure('the script is not a paradigm', z3.And(n == 1, z3.Not(f('paradigm', cs.at(z3.IntVal(0))))))
            return
        v.ensure('the script is a paradigm', par.z)
        v.ensure('each one is one of a term', for_elements(it, l, lambda e: z3.Exists([i, j], z3.And(
            i >= 0, i < n, j >= 0, j < LEN(cs.at(i)), AT(cs.at(i), j) == e.z))))
        v.ensure('each one of every term is there', z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < LEN(cs.at(i))),
                 members(it, l, SRef(AT(cs.at(i), j), SCRIPT)))))
        v.ensure('sorted', sorted_(it, l))
        v.ensure('as many as those of the terms together', length(it, l) == zsum(it, cs, lambda e: LEN(e.z)))
        v.ensure('those of a term are as many as its cardinal', for_elements(it, cs, lambda e: LEN(e.z) == f('cardinal', e.z)))
        v.ensure('each one is singular', for_elements(it, l, lambda e: z3.And(f('cardinal', e.z) == 1, z3.Not(f('paradigm', e.z)))))
    v.declare('sorted', 'a singular script is its own singular sequence')
    v.paths(path)


@contract('P05', SCR + 'MultiplicativeScript._compute_singular_sequences', name='of a product', timeout=20)
def product(v):
    script_order(v)

    def norm(c):
        return z3.If(f('empty', c), NULL(f('layer', c)), c)

    def make(it, args, kwargs):
        """P03: the product of three scripts of one layer, whose number of singular sequences is not above the maximum"""
        b = bind(lambda substance=None, attribute=None, mode=None, children=None, character=None: 0, args, kwargs)
        if b['children'] is None:
            cs = [b['substance'], b['attribute'], b['mode']]
        else:
            l = it.to_seq(b['children'])
            if not l.concrete:
                raise Unsupported('parts')
            cs = l.items()
        if len(cs) != 3 or b['character'] is not None or any(c is None for c in cs):
            raise Unsupported('parts')
        zs = [it.as_sym(c).z for c in cs]
        v.ensure('the parts of a product have one layer', z3.And(f('layer', zs[0]) == f('layer', zs[1]), f('layer', zs[1]) == f('layer', zs[2])))
        v.ensure('the product is singular', conj([f('cardinal', z) == 1 for z in zs]))
        r = MAKE(*zs)
        it.ctx.assume(z3.And(SCRIPT.tag(r) == MUL_TAG, f('layer', r) == f('layer', zs[0]) + 1, f('cardinal', r) == 1,
                             f('paradigm', r) == z3.Or([z3.And(f('paradigm', z), z3.Not(f('empty', z))) for z in zs]),
                             SCRIPT.len('children', r) == 3))
        return it.ref(r, SCRIPT)
    v.use(SCR + 'MultiplicativeScript', make)

    def path(it):
        hypothesis(it)
        cs = [it.fresh('c%d' % k, SCRIPT) for k in range(3)]
        par = it.fresh('paradigm', T.Bool)
        zs = [c.z for c in cs]
        a = it.ctx.assume
        for z in zs:
            a(f('layer', z) == f('layer', zs[0]))
            a(z3.Implies(f('empty', z), z3.And(z == NULL(f('layer', z)), SCRIPT.tag(z) == NULL_TAG, z3.Not(f('paradigm', z)),
                                               f('cardinal', z) == 1)))
            a(f('paradigm', z) == (f('cardinal', z) > 1))
        a(par.z == z3.Or([f('paradigm', z) for z in zs]))                                          # P03
        full = [not it.ctx.branch(f('empty', z)) for z in zs]
        l0 = VList([one(c) for c in cs])
        o = script_obj(it, MultiplicativeScript, children=l0, paradigm=par, layer=it.fresh('layer', T.Int), character=None)
        r = v.call(it, o)
        if not v.ensure('no exception', r.ok):
            return
        l = it.to_seq(r.value)
        v.ensure('the script is not modified', o.attrs['children'] is l0 and [x.z.get_id() for x in l0.items()] == [z.get_id() for z in zs])
        if l.concrete and l.items() and l.items()[0] is o:
            itself(v, it, o, l)
            v.ensure('the script is not a paradigm', z3.Not(par.z))
            return
        v.ensure('the script is a paradigm', par.z)
        ks = [z3.Int('k%d' % k) for k in range(3)]
        ks = [k for k, b in zip(ks, full) if b]
        rng = conj([z3.And(k >= 0, k < LEN(z)) for k, z in zip(ks, [z for z, b in zip(zs, full) if b])])
        iks = iter(ks)
        choice = MAKE(*[AT(z, next(iks)) if b else z for z, b in zip(zs, full)])
        v.ensure('each one is a product of singular sequences of the parts', for_elements(it, l, lambda e: exists(ks, z3.And(
            rng, e.z == choice))))
        e = it.ref(choice, SCRIPT)
        v.ensure('every such product is there', forall(ks, rng, members(it, bag(l), e)))
        v.ensure('sorted', sorted_(it, l))
        v.ensure('as many as the cardinal', length(it, l) == f('cardinal', zs[0]) * f('cardinal', zs[1]) * f('cardinal', zs[2]))
        v.ensure('each one is singular, of the layer', for_elements(it, l, lambda e: z3.And(
            f('cardinal', e.z) == 1, z3.Not(f('paradigm', e.z)), f('layer', e.z) == f('layer', zs[0]) + 1)))
    v.declare('sorted', 'a singular script is its own singular sequence', 'each one is singular, of the layer')
    v.paths(path)


@contract('P05', SCR + 'Script.singular_sequences', name='memo')
def memo(v):
    """the value is computed once and kept; a script without it computes it by the method of its class"""
    def path(it):
        seq = it.fresh('ss', T.Seq(SCRIPT))
        cls = (AdditiveScript, MultiplicativeScript, NullScript)[it.ctx.choose(3)]
        o = script_obj(it, cls)
        count = []
        for c in (AdditiveScript, MultiplicativeScript, NullScript):
            def g(it, a, k, c=c):
                count.append(c)
                return seq
            it.ctx.contracts[SCR + c.__name__ + '._compute_singular_sequences'] = g
        r1 = v.call(it, o)
        r2 = v.call(it, o)
        v.ensure('the sequences of the class of the script', same_elems(it, r1.value, seq) if r1.ok and count[0] is cls else False)
        v.ensure('the same at every call', same_elems(it, r2.value, seq) if r2.ok else False)
    v.paths(path)


@contract('P05', SCR + 'NullScript._compute_singular_sequences', name='of an empty script')
def null(v):
    def path(it):
        o = script_obj(it, NullScript)
        r = v.call(it, o)
        itself(v, it, o, it.to_seq(r.value))
    v.paths(path)
