"""P06: containment of scripts."""
from .common import *

f = lambda a, z: SCRIPT.z(a, z)
LEN = lambda z: SCRIPT.len('singular_sequences', z)
AT = lambda z, i: SCRIPT.at('singular_sequences', z, i)
i_, j_ = z3.Ints('ci cj')
MARK = z3.Function('layer of the last mark', f('_str', z3.Const('x', Ref)).sort(), z3.IntSort())


def included(a, b):
    """every singular sequence of a is one of b"""
    return z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < LEN(a)), z3.Exists([j_], z3.And(
        j_ >= 0, j_ < LEN(b), f('_str', AT(a, i_)) == f('_str', AT(b, j_))))))


def contains(a, b):
    return z3.And(f('layer', a) == f('layer', b), included(b, a))


@contract('P06', SCR + 'Script.__contains__', name='contains')
def contains_(v):
    def path(it):
        a, b = it.fresh('a', SCRIPT), it.fresh('b', SCRIPT)
        for z in (a.z, b.z):
            # P05; the text of a script ends with the mark of its layer (P04)
            it.ctx.assume(z3.And(LEN(z) >= 1, z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < LEN(z)), z3.And(
                f('layer', AT(z, i_)) == f('layer', z), f('layer', AT(z, i_)) == MARK(f('_str', AT(z, i_))))), patterns=[AT(z, i_)])))
        r = v.call(it, a, b)
        v.ensure('no exception', r.ok)
        v.ensure('true exactly when the layers are the same and the singular sequences included',
                 zbool(it, r.value) == contains(a.z, b.z))
        v.ensure('a truth value', isinstance(r.value, (bool, SBool)))
    v.paths(path)

    def other(it):
        a = it.fresh('a', SCRIPT)
        for x in ('wa.', 5, None, 1.5, (), [], {}, object(), b'x', frozenset(), Script):
            r = v.call(it, a, x)
            v.ensure('false for what is not a script', r.ok and r.value is False)
        o = HObj(type('Other', (), {}))
        r = v.call(it, a, o)
        v.ensure('false for what is not a script', r.ok and r.value is False)
    v.paths(other, prefix='other objects: ')


@contract('P06', SCR + 'Script.__contains__', name='laws')
def laws(v):
    """consequences of the contract of containment, and of the contracts of singular sequences (P05)"""
    def path(it):
        a, b, c = (it.fresh(x, SCRIPT).z for x in 'abc')
        v.ensure('reflexive', contains(a, a))
        v.ensure('transitive', z3.Implies(z3.And(contains(a, b), contains(b, c)), contains(a, c)))
        k = z3.Int('k')
        term = SCRIPT.at('children', a, k)
        x, y = z3.Ints('x y')
        one_of_a_term = z3.And(k >= 0, k < SCRIPT.len('children', a), f('layer', term) == f('layer', a), z3.ForAll(
            [x], z3.Implies(z3.And(x >= 0, x < LEN(term)), z3.Exists([y], z3.And(y >= 0, y < LEN(a), AT(a, y) == AT(term, x))))))
        v.ensure('a sum contains its terms', z3.Implies(one_of_a_term, contains(a, term)))
        s = AT(a, k)
        singular = z3.And(k >= 0, k < LEN(a), LEN(s) == 1, AT(s, 0) == s, f('layer', s) == f('layer', a))
        v.ensure('a script contains its singular sequences', z3.Implies(singular, contains(a, s)))
    v.paths(path)


@contract('P06', SCR + 'Script.singular_sequences_set', name='set of the singular sequences')
def ss_set(v):
    def path(it):
        seq = it.fresh('ss', T.Seq(SCRIPT))
        cls = (AdditiveScript, MultiplicativeScript, NullScript)[it.ctx.choose(3)]
        o = HObj(cls, epoch=it.ctx.epoch)
        o.attrs.update(_singular_sequences=seq, _singular_sequences_set=None)
        for k in range(2):
            r = v.call(it, o)
            if v.ensure('no exception', r.ok) and v.ensure('a set', isinstance(r.value, VSet)):
                x = it.fresh('x', SCRIPT)
                v.ensure('of the singular sequences', members(it, r.value, x) == members(it, seq, x))
        v.ensure('the list of singular sequences is not modified', len(seq.parts) == 1)
    v.paths(path)
