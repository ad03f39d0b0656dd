"""Types of the symbolic USLs."""
from .common import *
from ieml.usl import USL, PolyMorpheme, Lexeme, Word
from ieml.usl.syntagmatic_function import SyntagmaticRole, SyntagmaticFunction
import ieml.usl.constants as C

ROLE = ObjType('Role', [SyntagmaticRole], dict(_str=T.Key), key='_str')
ROLE.attrs['constant'] = T.Seq(SCRIPT, 'tuple')
GROUP = ObjType('Group', [tuple], dict(k=T.Key), key='k')           # (morphemes, multiplicity), ordered as a tuple
SCRIPTS = ObjType('Scripts', [tuple], dict(k=T.Key), key='k')
LEVELS = {1: PolyMorpheme, 2: Lexeme, 3: Word}


def key_lt(typ):
    """order of the values of a type by its contract (a strict total order, compatible with ==)"""
    def method(it, o):
        return Stub(lambda it, a, k: SBool(it.type_lt(typ)(o.z, a[0].z)) if isinstance(a[0], SRef) and a[0].typ is typ
                    else NotImplemented)
    return method


def key_eq(typ):
    def method(it, o):
        return Stub(lambda it, a, k: it.wrap_bool(typ.z(typ.key, o.z) == typ.z(typ.key, a[0].z))
                    if isinstance(a[0], SRef) and a[0].typ is typ else False)
    return method


def ordered_type(name, cls, **attrs):
    t = ObjType(name, cls if isinstance(cls, list) else [cls], dict(_str=T.Key, **attrs), key='_str')
    t.methods.update(__lt__=key_lt(t), __eq__=key_eq(t))
    return t


def trichotomy(v, name, lt_ab, lt_ba, eq, hint=()):
    x, y = lt_ab, lt_ba
    v.ensure(name + 'never both before each other', z3.Not(z3.And(x, y)), hint)
    v.ensure(name + 'not before when equal', z3.Implies(eq, z3.And(z3.Not(x), z3.Not(y))), hint)
    v.ensure(name + 'one before the other when different', z3.Implies(z3.Not(eq), z3.Or(x, y)), hint)
