"""P22: index keys."""
from .common import *
from pyvc.builtin import rep


@contract('P22', 'ieml.usl:int2base', name='int2base', timeout=20)
def int2base(v):
    """for 0 <= i < b^m the text has m characters; 0 <= i < j < b^m implies that the text of i is before that of j.
    Induction on m: the recursive call is replaced by this contract for m - 1 (and its precondition is an obligation).
    T(i, m) is the value returned by the call; the alphabet is any strictly ascending one of b >= 2 characters, the
    first one being 0."""
    f = v.resolve()
    TXT = z3.Function('T', z3.IntSort(), z3.IntSort(), z3.StringSort())
    P = z3.Function('pow', z3.IntSort(), z3.IntSort())
    LT = z3.Function('before', z3.StringSort(), z3.StringSort(), z3.BoolSort())
    L = z3.Length

    def setup(it):
        ctx = it.ctx
        b, m = z3.Int('b'), z3.Int('m')
        ctx.assume(z3.And(b >= 2, m >= 1, P(m) == b * P(m - 1), P(m - 1) >= 1, z3.Implies(m == 1, P(m - 1) == 1)))
        chars = it.fresh_seq('alphabet', 'str', n=b)
        i, j = z3.Int('ai'), z3.Int('aj')
        inr = lambda k: z3.And(k >= 0, k < b)
        ctx.assume(z3.ForAll([i], z3.Implies(inr(i), L(chars.at(i)) == 1), patterns=[chars.at(i)]))
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i < j), LT(chars.at(i), chars.at(j))),
                             patterns=[z3.MultiPattern(chars.at(i), chars.at(j))]))
        ctx.assume(chars.at(z3.IntVal(0)) == z3.StringVal('0'))
        return b, m, chars

    def run(it, i, m, b, chars):
        calls = []

        def callee(it, args, kwargs):
            a = bind(f, args, kwargs)
            q, mm = zint(a['i']), zint(a['max'])
            v.ensure('the recursive call is on m - 1 digits and a smaller index, with the same alphabet',
                     z3.And(mm == m - 1, mm >= 1, q >= 0, q < P(m - 1)) if a['characters'] is chars else False, dead_ok=v.prefix == 'zero ')
            r = TXT(q, mm)
            it.ctx.assume(L(r) == mm)
            calls.append(q)
            return SStr(r)
        it.ctx.contracts['ieml.usl:int2base'] = callee
        r = v.call(it, SInt(i), SInt(m), chars)
        return r, calls

    def width(it):
        b, m, chars = setup(it)
        i = z3.Int('i')
        it.ctx.assume(z3.And(i >= 0, i < P(m)))
        r, calls = run(it, i, m, b, chars)
        v.ensure('an index which fits is accepted', r.ok)
        if r.ok:
            v.ensure('m characters', z3.Length(zstr(r.value)) == m)
    v.paths(width)

    def order(it):
        b, m, chars = setup(it)
        i, j = z3.Int('i'), z3.Int('j')
        it.ctx.assume(z3.And(i >= 0, i < j, j < P(m)))
        r, ci = run(it, i, m, b, chars)
        s, cj = run(it, j, m, b, chars)
        if not r.ok or not s.ok:
            return
        r, s = zstr(r.value), zstr(s.value)
        qi, qj = z3.Int('i/b'), z3.Int('j/b')
        v.lemma('division keeps the order', z3.Or(i / b < j / b, z3.And(i / b == j / b, i % b < j % b)))
        v.lemma('digits', z3.And(i / b >= 0, j / b < P(m - 1), i % b >= 0, j % b >= 0, i % b < b, j % b < b))
        hint = []
        # induction hypothesis: order, and text of 0
        p, q = (ci or [z3.IntVal(0)])[0], (cj or [z3.IntVal(0)])[0]
        hint.append(z3.Implies(z3.And(0 <= p, p < q, q < P(m - 1)), LT(TXT(p, m - 1), TXT(q, m - 1))))
        hint.append(TXT(0, m - 1) == rep('0', m - 1))
        if z3.is_app_of(r, z3.Z3_OP_SEQ_CONCAT) and z3.is_app_of(s, z3.Z3_OP_SEQ_CONCAT) and \
                r.num_args() == 2 == s.num_args():
            (x, c), (y, d) = r.children(), s.children()
            hint.append(z3.Implies(z3.And(L(x) == L(y), L(c) == 1, L(d) == 1),
                                   LT(r, s) == z3.Or(LT(x, y), z3.And(x == y, LT(c, d)))))
        v.ensure('ascending indices have ascending texts', LT(r, s), hint)
    v.paths(order, prefix='order ')

    def zero(it):
        b, m, chars = setup(it)
        r, _ = run(it, z3.IntVal(0), m, b, chars)
        # rep(0, n + 1) = rep(0, n) + "0"
        it.ctx.assume(rep('0', m) == z3.Concat(rep('0', m - 1), z3.StringVal('0')))
        v.ensure('the text of 0 is made of m zeros', r.ok and zstr(r.value) == rep('0', m))
    v.paths(zero, prefix='zero ')

    def negative(it):
        b, m, chars = setup(it)
        i = z3.Int('i')
        it.ctx.assume(i < 0)
        r, _ = run(it, i, m, b, chars)
        v.ensure('a negative index is refused', r.raises(AssertionError, ValueError))
    v.paths(negative, prefix='negative ')
    v.trust('lexicographic order: for texts of the same length, appending one character to each compares the texts first')


@contract('P22', 'ieml.usl:get_index', name='get_index', timeout=10)
def get_index(v):
    """the key is the number of the kind followed by the base text of the position: position of the script, of the only
    morpheme, of the polymorpheme, and 0 for lexemes and words"""
    from ieml.usl import PolyMorpheme, Lexeme, Word
    B = z3.Function('base', z3.IntSort(), z3.StringSort())
    POS = z3.Function('position', z3.RealSort(), z3.IntSort())

    def base(it, args, kwargs):
        a = bind(v.resolve('ieml.usl:int2base'), args, kwargs)
        v.ensure('the same width and alphabet for every key', a['max'] == 30 and list(a['characters']) ==
                 sorted('0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'))
        return SStr(B(zint(a['i'])))
    v.use('ieml.usl:int2base', base)

    class Index:
        pass

    def setup(it):
        ind = ObjType('Index', [Index], {}, methods={
            '__getitem__': lambda it, r: Stub(lambda it, a, k: SInt(POS(SCRIPT.z('_str', a[0].z))))})
        dic = stub_obj(it, 'Dictionary', index=it.fresh('index', ind), scripts=it.fresh('scripts', T.Seq(SCRIPT)))
        return dic

    def script(it):
        dic = setup(it)
        s = it.fresh('s', SCRIPT)
        r = v.call(it, s, dic)
        v.ensure('key of a script', r.ok and isinstance(r.value, tuple) and len(r.value) == 2 and
                 z3.And(zint(r.value[0]) == 0, zstr(r.value[1]) == z3.Concat(z3.StringVal('0'), B(POS(SCRIPT.z('_str', s.z))))))
    v.paths(script, prefix='script ')

    GROUP = ObjType('Group', [tuple], {})
    PM = ObjType('PolyMorpheme', [PolyMorpheme], dict(constant=T.Seq(SCRIPT, 'tuple'), groups=T.Seq(GROUP, 'tuple')))

    def polymorpheme(it):
        dic = setup(it)
        p = it.fresh('p', PM)
        POLY = z3.Const('polymorpheme position', z3.IntSort())
        it.ctx.contracts['ieml.usl:_polymorph_idx'] = lambda it, a, k: SInt(POLY)
        r = v.call(it, p, dic)
        if not v.ensure('accepted', r.ok):
            return
        single = z3.And(PM.len('constant', p.z) == 1, PM.len('groups', p.z) == 0)
        v.ensure('a polymorpheme of one morpheme has the key of the morpheme, another has its own', z3.And(
            zint(r.value[0]) == z3.If(single, 0, 1), zstr(r.value[1]) == z3.If(
                single, z3.Concat(z3.StringVal('0'), B(POS(SCRIPT.z('_str', PM.at('constant', p.z, 0))))),
                z3.Concat(z3.StringVal('1'), B(POLY)))))
    v.paths(polymorpheme, prefix='polymorpheme ')

    for k, cls in ((2, Lexeme), (3, Word)):
        def other(it, k=k, cls=cls):
            r = v.call(it, it.fresh('u', ObjType(cls.__name__, [cls], {})), setup(it))
            v.ensure('key starts with the kind', r.ok and z3.And(zint(r.value[0]) == k,
                                                                 z3.PrefixOf(z3.StringVal(str(k)), zstr(r.value[1]))))
        v.paths(other, prefix=cls.__name__ + ' ')


@contract('P22', 'ieml.usl:_polymorph_idx', name='polymorph_idx')
def polymorph_idx(v):
    """the positions of the constants are the digits of the number, in a base greater than all of them"""
    from ieml.usl import PolyMorpheme
    POS = z3.Function('position', z3.RealSort(), z3.IntSort())
    GROUP = ObjType('Group', [tuple], {})
    PM = ObjType('PolyMorpheme', [PolyMorpheme], dict(constant=T.Seq(SCRIPT, 'tuple'), groups=T.Seq(GROUP, 'tuple')))

    def path(it):
        ind = ObjType('Index', [LazySpec], {}, methods={
            '__getitem__': lambda it, r: Stub(lambda it, a, k: SInt(POS(SCRIPT.z('_str', a[0].z))))})
        dic = stub_obj(it, 'Dictionary', index=it.fresh('index', ind), scripts=it.fresh('scripts', T.Seq(SCRIPT)))
        p = it.fresh('p', PM)
        r = v.call(it, p, dic)
        n = dic.attrs['scripts'].parts[0].n
        spec = it.opaque('sum', [indexed(it.ctx, PM.len('constant', p.z), lambda i: SInt(
            z3.Function('pow', z3.IntSort(), z3.IntSort(), z3.IntSort())(n, i) *
            POS(SCRIPT.z('_str', PM.at('constant', p.z, i)))))], z3.IntSort())
        v.ensure('sum of the positions times the powers of the number of scripts', r.ok and zint(r.value) == spec)
    v.paths(path)
